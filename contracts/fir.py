"""fir_filter.c (and lpf_process): the filter as a function of the whole stream.

For every filter object f: stream(f, p) is the p-th sample ever given to it (zero for p < 0), consumed[f] how many
samples it has seen, produced[f] how many outputs it has given, dot(f, k) the dot product of its taps with the
window of the stream that ends at sample k * decimation.  Every call of the vector kernel is obliged to be made on
exactly that window; every output sample is then dot(f, k) for the next k, and after n samples exactly
ceil(n / decimation) outputs exist: nothing depends on how the stream was cut into blocks.
"""
from vc.sym import *
from vc.eng import uf
from vc.spec import *
from vc.cast import Unsupported, INT

AI = z3.ArraySort(I, I)
S = z3.Select
ESZB = {'c64': 8, 'f32': 4}
CT = {'c64': 'float _Complex', 'f32': 'float'}
GH = {'consumed': AI, 'produced': AI}


def stream(kind, f, p):
    return uf('stream_' + kind, I, I, SORT[kind])(f, p)


def dot(kind, f, k):
    return uf('dot_' + kind, I, I, SORT[kind])(f, k)


def con(c, f):
    return S(c.g('consumed'), f)


def pro(c, f):
    return S(c.g('produced'), f)


def wb(c, flt, kind):
    return flt.working_buffer.as_(ptr(c.T(CT[kind])))


def sizes(c, f):
    """the part of the representation that never changes"""
    return band(f.whole(1), f.taps_len >= 1, f.decimation >= 1, f.taps_len < (1 << 32), f.max_input_buffer_length < (1 << 40),
                f.taps.f == 0, f.taps.valid(1))


def objs(c, f):
    return [f, f.working_buffer, f.output, f.volk_output, f.taps]


def heap(c, vs):
    return band(*[band(v.o > 0, v.o < c.pre.st.brk) for v in vs])


def separate(vs):
    out = []
    for i in range(len(vs)):
        for j in range(i):
            out.append(vs[i].o != vs[j].o)
    return band(*out)


def rep(c, f, kind):
    """representation invariant of one filter"""
    n, k = con(c, f.o), pro(c, f.o)
    H, T, D, M = f.history_offset, f.taps_len, f.decimation, f.max_input_buffer_length
    w = wb(c, f, kind)
    row = c.eng.mapget(c.st, kind, w.o)
    out = f.output.as_(ptr(c.T(CT[kind])))
    vo = f.volk_output.as_(ptr(c.T(CT[kind])))
    return [('sizes', sizes(c, f)),
            ('element size', f.num_bytes == ESZB[kind]),
            ('buffers', band(w.whole(M + T - 1), imp(M > 0, out.whole(M)), out.f == 0, vo.whole(1), heap(c, objs(c, f)), separate(objs(c, f)))),
            ('history is short', band(H >= 0, H <= T - 1)),
            ('skip', band(f.skip >= 0, f.skip < 256, imp(f.skip > 0, H == 0))),
            ('position', n - H + f.skip == k * D - (T - 1)),
            ('count', band(n >= 0, k >= 0, (k - 1) * D < n, n <= k * D)),
            ('history', c.forall(lambda j: imp(band(j >= 0, j < H), S(row, j) == stream(kind, f.o, n - H + j)), pat=lambda j: S(row, j)))]


def reps(c, f, kind):
    return band(*[x for _, x in rep(c, f, kind)])


def m_dot(kind):
    def m(e, st, a, at, rt):
        out, inp, taps, n = a
        c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
        f = c.filter
        k = pro(c, f.o)
        i0 = e.index(kind, inp.off)
        row = e.mapget(st, kind, inp.obj)
        e.oblige(st, e.valid_goal(st, inp, mul(n, iv(ESZB[kind]))), 'the kernel reads inside the buffer', 'mem')
        e.oblige(st, e.valid_goal(st, out, iv(ESZB[kind])), 'the kernel result has room', 'mem')
        e.oblige(st, band(n == f.taps_len, eqi(taps.obj, f.taps[0].o), eqi(taps.off, f.taps[0].f)), 'the kernel is given all taps of the filter', 'value')
        base = k * f.decimation - (f.taps_len - 1)
        e.oblige(st, c.forall(lambda j: imp(band(j >= 0, j < f.taps_len), S(row, i0 + j) == stream(kind, f.o, base + j)), pat=lambda j: S(row, i0 + j)),
                 'the kernel is given the window of the stream that belongs to the next output', 'value')
        e.store(st, out, e.top_tu.parse_type(CT[kind]), dot(kind, f.o, k), False)
        st.ghost['produced'] = z3.Store(st.ghost['produced'], f.o, k + 1)
        return None
    return m


def given(c, kind, inp, f=None):
    f = f or c.filter
    row = c.eng.mapget(c.st, kind, inp.o)
    i0 = inp.idx
    return c.forall(lambda j: imp(band(j >= i0, j < i0 + c.input_len), S(row, j) == stream(kind, f.o, con(c, f.o) + (j - i0))), pat=lambda j: S(row, j))


def produced_ok(c, kind, out, k0, k1, f):
    row = c.eng.mapget(c.st, kind, out.o)
    return c.forall(lambda j: imp(band(j >= 0, j < k1 - k0), S(row, j) == dot(kind, f.o, k0 + j)), pat=lambda j: S(row, j))


def others(c, g, f):
    x = z3.Const('f?', I)
    return fa([x], imp(x != f, S(c.g(g), x) == S(c.pre.g(g), x)), patterns=[S(c.g(g), x)])


def done(c, kind, f, fp=None):
    """the block was processed"""
    T = ptr(c.T(CT[kind]))
    out = c.output[0].as_(T)
    n1, k0, k1 = con(c, f.o), pro(c.pre, f.o), pro(c, f.o)
    return [('all samples are consumed', n1 == con(c.pre, f.o) + c.input_len),
            ('the result is the output buffer of the filter', band(out.o == (fp or c.pre.filter).output.o, out.f == 0)),
            ('one output for every decimation-th sample so far', band((k1 - 1) * f.decimation < n1, n1 <= k1 * f.decimation, k1 >= k0)),
            ('the reported length', c.output_len[0] == k1 - k0),
            ('every output is the dot product of the taps with its window of the whole stream', produced_ok(c, kind, out, k0, k1, f))]


def out_cells(c, f=None):
    f = f or c.filter
    return band(c.output.valid(1), c.output_len.valid(1), *[x.o != y.o for x in (c.output, c.output_len) for y in objs(c, f) + [c.input]] + [c.output.o != c.output_len.o])


def consume(e, s, c):
    """ghost: at return the block is part of the stream that was consumed"""
    f = c.pre.filter.o
    s.ghost['consumed'] = z3.Store(s.ghost['consumed'], f, S(s.ghost['consumed'], f) + c.pre.input_len)


def mods(c, kind, f=None):
    f = f or c.filter
    return [('field', f, 'history_offset', 'skip'), ('cell', c.output), ('cell', c.output_len), ('ghost', 'consumed'), ('ghost', 'produced'),
            ('obj', f.working_buffer), ('obj', f.output), ('obj', f.volk_output)]


def process_kind(kind, name):
    def inv_pos(c, i, p):
        f = c.filter
        return band(p == pro(c, f.o) - pro(c.pre, f.o), con(c, f.o) - f.history_offset + i == pro(c, f.o) * f.decimation - (f.taps_len - 1), p >= 0, p <= i, i >= 0, i <= f.history_offset + c.input_len + 256)

    def inv_out(c):
        f = c.filter
        return produced_ok(c, kind, c.pre.filter.output, pro(c.pre, f.o), pro(c, f.o), f)

    return Contract(
        name, ['input', 'input_len', 'working_buffer', 'output', 'output_len', 'filter'], file='dsp/fir_filter.c',
        requires=[(n, (lambda n: lambda c: dict(rep(c, c.filter, kind))[n])(n)) for n in ('sizes', 'element size', 'buffers', 'history is short', 'skip', 'position', 'count', 'history')] + [
            ('the block fits', lambda c: c.input_len <= c.filter.max_input_buffer_length),
            ('the working buffer of the filter', lambda c: c.working_buffer.eq(c.filter.working_buffer)),
            ('the block is readable and separate', lambda c: band(imp(c.input_len > 0, c.input.valid(c.input_len)), *[c.input.o != x.o for x in objs(c, c.filter)])),
            ('outputs', out_cells),
            ('the block is the next part of the stream', lambda c: given(c, kind, c.input))],
        ensures=[(n, (lambda n: lambda c: dict(done(c, kind, c.filter))[n])(n)) for n in ('all samples are consumed', 'the result is the output buffer of the filter', 'one output for every decimation-th sample so far', 'the reported length',
                  'every output is the dot product of the taps with its window of the whole stream')] +
                [('kept: ' + n, (lambda n: lambda c: dict(rep(c, c.filter, kind))[n])(n)) for n in ('sizes', 'element size', 'buffers', 'history is short', 'skip', 'position', 'count', 'history')] +
                [('other filters are untouched', lambda c: band(others(c, 'consumed', c.filter.o), others(c, 'produced', c.filter.o)))],
        modifies=lambda c: mods(c, kind), on_return=consume,
        inv=[('position', inv_pos, {'i': 'int', 'p': 'int'}), ('outputs so far', inv_out),
             ('windows fit', lambda c: (pro(c, c.filter.o) - 1) * c.filter.decimation < con(c, c.filter.o) + c.input_len),
             ('other filters', lambda c: others(c, 'produced', c.filter.o))])


def process(kind, name='fir_filter_process', file='dsp/fir_filter.c', get=lambda c: c.filter, extra=()):
    R = ('sizes', 'element size', 'buffers', 'history is short', 'skip', 'position', 'count', 'history')
    G = get
    fits = lambda c: c.pre.input_len <= G(c.pre).max_input_buffer_length
    T = lambda c: ptr(c.T(CT[kind]))
    return Contract(
        name, ['input', 'input_len', 'output', 'output_len', 'filter'], file=file,
        requires=list(extra) + [(n, (lambda n: lambda c: dict(rep(c, G(c), kind))[n])(n)) for n in R] + [
            ('the block is readable and separate', lambda c: imp(c.input_len <= G(c).max_input_buffer_length, band(imp(c.input_len > 0, c.input.as_(T(c)).valid(c.input_len)), c.input.f % ESZB[kind] == 0, *[c.input.o != x.o for x in objs(c, G(c))]))),
            ('outputs', lambda c: out_cells(c, G(c))),
            ('the block is the next part of the stream', lambda c: imp(c.input_len <= G(c).max_input_buffer_length, given(c, kind, c.input.as_(T(c)), G(c))))],
        ensures=[(n, (lambda n: lambda c: imp(fits(c), dict(done(c, kind, G(c), G(c.pre)))[n]))(n)) for n in ('all samples are consumed', 'the result is the output buffer of the filter', 'one output for every decimation-th sample so far', 'the reported length',
                  'every output is the dot product of the taps with its window of the whole stream')] +
                [('kept: ' + n, (lambda n: lambda c: dict(rep(c, G(c), kind))[n])(n)) for n in R] +
                [('a block beyond the maximum yields nothing and leaves the stream', lambda c: imp(bnot(fits(c)), band(c.output[0].null, c.output_len[0] == 0, con(c, G(c).o) == con(c.pre, G(c).o), pro(c, G(c).o) == pro(c.pre, G(c).o)))),
                 ('other filters are untouched', lambda c: band(others(c, 'consumed', G(c).o), others(c, 'produced', G(c).o)))],
        modifies=lambda c: mods(c, kind, G(c)))


def env(kind):
    e = Env()
    e.ghosts = dict(GH)
    e.kinds = ['po', 'pf', 'u8', 'u64', kind]
    e.models['volk_32fc_32f_dot_prod_32fc_u' if kind == 'c64' else 'volk_32f_x2_dot_prod_32f_u'] = m_dot(kind)
    for c in (process_kind(kind, 'fir_filter_process_complex' if kind == 'c64' else 'fir_filter_process_float'), process(kind),
              process(kind, 'lpf_process', 'dsp/lpf.c', lambda c: c.filter.filter, [('the filter object', lambda c: band(c.filter.valid(1), c.filter.f == 0, *[c.filter.o != x.o for x in objs(c, c.filter.filter) + [c.output, c.output_len]]))])):
        e.contracts[c.name] = c
    return e
