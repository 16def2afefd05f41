"""interp_fir_filter.c: interpolation by a bank of polyphase filters.

Output number m*L + i of the whole stream is the i-th filter's dot product with the window of the stream that ends at sample m
(idx(L, m, i) = m*L + i, iq and ir are its quotient and remainder); every filter sees the whole stream.
"""
from vc.sym import *
from vc.eng import uf
from vc.spec import *
from contracts import fir
from contracts.fir import S, stream, dot, con, pro, rep as frep, objs, CT

HOME = {'fir_filter_process': 'firf'}
K = 'f32'
own = uf('owner', I, I)      # which filter of the bank an object belongs to
idx = z3.Function('idx', I, I, I, I)
iq = z3.Function('iq', I, I, I)
ir = z3.Function('ir', I, I, I)


def idx_axioms():
    L, m, i, p = [z3.Const(x, I) for x in 'Lmip']
    return [z3.ForAll([L, i], idx(L, iv(0), i) == i, patterns=[idx(L, iv(0), i)]),
            z3.ForAll([L, m, i], idx(L, m + 1, i) == idx(L, m, i) + L, patterns=[idx(L, m + 1, i)]),
            z3.ForAll([L, m, i], z3.Implies(z3.And(i >= 0, i < L, m >= 0), z3.And(iq(L, idx(L, m, i)) == m, ir(L, idx(L, m, i)) == i, idx(L, m, i) == m * L + i)), patterns=[idx(L, m, i)]),
            z3.ForAll([L, p], z3.Implies(z3.And(p >= 0, L > 0), z3.And(idx(L, iq(L, p), ir(L, p)) == p, ir(L, p) >= 0, ir(L, p) < L, iq(L, p) >= 0, iq(L, p) <= p)), patterns=[iq(L, p)])]


def flt(c, i):
    """filter i of the bank"""
    return at0(c, fp(c, i)).as_(ptr(c.T('struct fir_filter_t')))


def at0(c, v):
    return View(c, P(v.o, iv(0)), v.t)


def fp(c, i):
    """the pointer to filter i"""
    v = at0(c.pre, c.pre.filter.filters)[i]
    return View(c, v.p, v.t)


def pre_flt(c, i):
    return flt(c.pre, i)


def bank(c):
    f = c.filter
    mine = [f.o, f.filters.o, f.output.o]
    return band(f.whole(1), f.filters_len >= 1, f.filters_len < 256, f.filters.whole(f.filters_len), f.output.f == 0, f.output.valid(1),
                *[band(x > 0, x < c.pre.st.brk, own(x) == -1) for x in mine], f.o != f.filters.o, f.o != f.output.o, f.filters.o != f.output.o)


def maxlen(c):
    """longest block the bank takes"""
    return flt(c, iv(0)).max_input_buffer_length


def room(c):
    """the output buffer was made for the longest block"""
    f = c.filter
    M = maxlen(c)
    n = c.input_len
    return band(f.output_len == M * f.filters_len, M < (1 << 32), imp(n <= M, f.output.valid(n * f.filters_len)))


def pat(c, i):
    return S(c.eng.mapget(c.pre.st, 'po', c.pre.filter.filters.o), i)


def each(c, body):
    return c.forall(lambda i: imp(band(i >= 0, i < c.pre.filter.filters_len), body(flt(c, i), i)), pat=lambda i: pat(c, i))


RN = ('sizes', 'element size', 'buffers', 'history is short', 'skip', 'position', 'count', 'history')


def filters_ok(c):
    out = [('filters: ' + n, (lambda n: each(c, lambda f, i: dict(frep(c, f, K))[n]))(n)) for n in RN]
    out.append(('filters: separate', each(c, lambda f, i: band(fp(c, i).f == 0, f.o > 0, *[own(x.o) == i for x in objs(c, f)], f.decimation == 1, f.max_input_buffer_length == maxlen(c.pre)))))
    return out


FN = ['filters: ' + n for n in RN] + ['filters: separate']


def base(c):
    """samples seen so far"""
    return con(c, flt(c, iv(0)).o)


def sync(c):
    """every filter has seen the same stream"""
    b = base(c)
    return each(c, lambda f, i: band(con(c, f.o) == b, pro(c, f.o) == b))


def same_stream(c):
    """the next block of the stream of every filter is the input"""
    return each(c, lambda f, i: fir.given(c, K, c.input, f))


def fits(c):
    return c.input_len <= maxlen(c.pre)


def outrow(c):
    return c.eng.mapget(c.st, K, c.pre.filter.output.o)


def written(c, lim):
    """positions p of the output with lim(remainder, quotient) hold the value of their filter"""
    L = c.pre.filter.filters_len
    b = base(c.pre)
    row = outrow(c)
    return c.forall(lambda p: imp(band(p >= 0, iq(L, p) < c.input_len, lim(ir(L, p), iq(L, p))), S(row, p) == dot(K, pre_flt(c, ir(L, p)).o, b + iq(L, p))), pat=lambda p: S(row, p))


def progress(c, i):
    """filters before i have taken the block"""
    n = c.input_len
    b = base(c.pre)
    return c.forall(lambda k: imp(band(k >= 0, k < c.pre.filter.filters_len),
                                  band(con(c, pre_flt(c, k).o) == b + ite(band(k < i, fits(c)), n, iv(0)), pro(c, pre_flt(c, k).o) == b + ite(band(k < i, fits(c)), n, iv(0)))), pat=lambda k: pat(c.pre, k))


def cells(c):
    return band(c.output.valid(1), c.output_len.valid(1), c.output.f == 0, c.output_len.f == 0, c.output.o != c.output_len.o,
                *[band(own(x.o) == -2) for x in (c.output, c.output_len)], own(c.input.o) == -3,
                *[band(x.o > 0, x.o < c.pre.st.brk) for x in (c.output, c.output_len, c.input)])


MODS = ['working_buffer', 'output', 'volk_output']

interp_process = Contract(
    'interp_fir_filter_process', ['input', 'input_len', 'output', 'output_len', 'filter'], file='dsp/interp_fir_filter.c', opts={'effort': 8, 'all_configs': True},
    requires=[('the bank', bank), ('room', room), ('outputs', cells)] +
             [(n, (lambda n: lambda c: dict(filters_ok(c))[n])(n)) for n in FN] +
             [('every filter has seen the same stream', sync),
              ('the block is readable', lambda c: imp(band(c.input_len <= maxlen(c), c.input_len > 0), c.input.valid(c.input_len))),
              ('the block is the next part of the stream of every filter', lambda c: imp(c.input_len <= maxlen(c), same_stream(c)))],
    ensures=[('the result is the output buffer', lambda c: band(c.output[0].o == c.pre.filter.output.o, c.output[0].f == 0)),
             ('a block of n samples yields n times the interpolation', lambda c: c.output_len[0] == ite(fits(c), c.input_len, iv(0)) * c.pre.filter.filters_len),
             ('every output belongs to its filter and its window of the whole stream', lambda c: imp(fits(c), written(c, lambda r, q: TRUE))),
             ('every filter has seen the same stream', sync),
             ('all samples are consumed', lambda c: base(c) == base(c.pre) + ite(fits(c), c.input_len, iv(0)))] +
            [('kept: ' + n, (lambda n: lambda c: dict(filters_ok(c))[n])(n)) for n in FN],
    modifies=lambda c: [('set', lambda o: band(o > 0, own(o) >= 0, own(o) < c.pre.filter.filters_len)), ('obj', c.filter.output), ('cell', c.output), ('cell', c.output_len), ('ghost', 'consumed'), ('ghost', 'produced')],
    inv=[(n, (lambda n: lambda c: dict(filters_ok(c))[n])(n)) for n in FN] +
        [('progress', lambda c, i: progress(c, i), {'i': 'mod'}),
         ('length', lambda c, i, r: r == ite(band(i > 0, fits(c)), c.input_len, iv(0)) * c.pre.filter.filters_len, {'i': 'mod', 'r': 'mod'}),
         ('outputs of the filters before', lambda c, i: imp(fits(c), written(c, lambda r, q: r < i)), {'i': 'int'}),
         ('outputs so far', lambda c, i, k: imp(fits(c), written(c, lambda r, q: bor(r < i, band(r == i, q < k)))), {'i': 'outer', 'k': 'mod'}),
         ('place', lambda c, i, j, k: band(k >= 0, j == idx(c.pre.filter.filters_len, k, i)), {'i': 'outer', 'j': 'mod', 'k': 'mod'})])


def env():
    e = fir.env('f32')
    e.axioms = idx_axioms()
    e.contracts['interp_fir_filter_process'] = interp_process
    return e
