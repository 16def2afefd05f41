"""Constructors and destructors of the dsp objects: all or nothing.

Ghost state: oom says that an allocation failed.  For every constructor: success hands out a complete object made of new, separate
blocks; a failure hands out nothing, leaves none of its allocations, and has a reason.  For every destructor: exactly the blocks of the
object are released.
"""
from vc.sym import *
from vc.eng import uf, fval, fconst
from vc.spec import *
from vc.cast import Unsupported

S = z3.Select
AI = z3.ArraySort(I, I)
GH = dict(oom=B, noopen=B, cal=B, tle=B, tapof=AI, tapidx=AI, ntap=I, last=I)
MAXB = 1 << 60


def m_malloc(e, st, a, at, rt):
    p, ok = e.malloc(st, a[0])
    st.ghost['oom'] = bor(st.ghost['oom'], bnot(ok))
    return p


def m_calloc(e, st, a, at, rt):
    p = e.lib_calloc(st, a, at, rt)
    st.ghost['oom'] = bor(st.ghost['oom'], e.isnull(p))
    return p


def together(c, vs):
    """live blocks of their own"""
    return band(*[band(v.alive, v.f == 0, v.o > 0) for v in vs], *[vs[i].o != vs[j].o for i in range(len(vs)) for j in range(i)])


def optional(c, h, vs):
    """like together, parts may be missing"""
    ok = [band(h.whole(1), h.o > 0)]
    for i, v in enumerate(vs):
        ok.append(imp(v.nn, band(v.alive, v.f == 0, v.o > 0, v.o != h.o)))
        for w in vs[:i]:
            ok.append(imp(band(v.nn, w.nn), v.o != w.o))
    return band(*ok)


def gone(c, h, vs):
    return imp(h.nn, band(bnot(c.alive(h.o)), *[imp(v.nn, bnot(c.alive(v.o))) for v in vs]))


def guard(c, h, w):
    return View(c, P(ite(h.null, iv(0), w.o), ite(h.null, iv(0), w.f)), w.t)


def make(name, args, file, out, parts, complete, reasons=lambda c: FALSE, requires=(), extra=(), modifies=(), frees=None, keep=None):
    """contract of a constructor; parts(c, handle) are the blocks besides the handle"""
    H = lambda c: getattr(c, out)[0]
    ALLP = lambda c: [H(c)] + parts(c, H(c))
    return Contract(
        name, args, file=file,
        requires=[('the result is writable', lambda c: getattr(c, out).valid(1)), ('memory so far', lambda c: bnot(c.g('oom')))] + list(requires),
        ensures=[('success gives an object of new blocks', lambda c: imp(c.ret == 0, band(together(c, [H(c)]), H(c).whole(1), c.fresh_obj(H(c).o), optional(c, H(c), parts(c, H(c))), *[imp(v.nn, c.fresh_obj(v.o)) for v in (keep or parts)(c, H(c))]))),
                 ('success gives a complete object', lambda c: imp(c.ret == 0, complete(c, H(c)))),
                 ('a failure hands out nothing', lambda c: imp(c.ret != 0, H(c).eq(getattr(c.pre, out)[0]))),
                 ('it fails only without memory or for impossible parameters', lambda c: imp(c.ret != 0, bor(c.g('oom'), reasons(c)))),
                 ('without memory it fails', lambda c: imp(c.g('oom'), c.ret != 0)),
                 ('impossible parameters are refused', lambda c: imp(reasons(c), c.ret != 0))] + list(extra),
        modifies=lambda c: [('cell', getattr(c, out)), ('ghost', 'oom')] + [('ghost', g) for g in modifies], allocs=True, frees=frees,
        leak=lambda c: [('set', lambda o: band(c.ret == 0, bor(*[o == v.o for v in ALLP(c)])))])


def unmake(name, arg, file, parts, requires=lambda c, h: TRUE):
    h = lambda c: getattr(c, arg)
    return Contract(
        name, [arg], file=file,
        requires=[('the object', lambda c: imp(h(c).nn, band(optional(c, h(c), parts(c, h(c))), requires(c, h(c)))))],
        ensures=[('everything is released', lambda c: gone(c, h(c), parts(c.pre, h(c.pre))))],
        frees=lambda c: [h(c)] + [guard(c, h(c), v) for v in parts(c, h(c))])


CS = []
F0 = fconst(0.0, 4)


def zero_row(c, v, kind, n):
    row = c.eng.mapget(c.st, kind, v.o)
    return c.forall(lambda j: imp(band(j >= 0, j < n), S(row, j) == (F0 if kind == 'f32' else c.eng.cmk(F0, F0) if kind == 'c64' else iv(0))), pat=lambda j: S(row, j))


# ---------------------------------------------------------------- oscillators
ss = lambda c, h: [h.output]
CS += [make('sig_source_create', ['amplitude', 'rx_sampling_freq', 'max_output_buffer_length', 'source'], 'dsp/sig_source.c', 'source', ss,
            lambda c, h: band(h.output.whole(h.output_len), h.output.nn, h.output_len == c.max_output_buffer_length, h.amplitude == c.amplitude, h.rx_sampling_freq == c.rx_sampling_freq, h.phase == F0)),
       unmake('sig_source_destroy', 'source', 'dsp/sig_source.c', ss)]
fm = lambda c, h: [h.output]
CS += [make('frequency_modulator_create', ['sensitivity', 'max_input_buffer_length', 'mod'], 'dsp/frequency_modulator.c', 'mod', fm,
            lambda c, h: band(h.output.whole(h.output_len), h.output.nn, h.output_len == c.max_input_buffer_length, h.sensitivity == c.sensitivity, h.phase == F0)),
       unmake('frequency_modulator_destroy', 'mod', 'dsp/frequency_modulator.c', fm)]

# ---------------------------------------------------------------- demodulation
qd = lambda c, h: [h.output, h.working_buffer, h.temp_buffer]
CS += [make('quadrature_demod_create', ['gain', 'max_input_buffer_length', 'demod'], 'dsp/quadrature_demod.c', 'demod', qd,
            lambda c, h: band(h.output_len == c.max_input_buffer_length, h.history_offset == 1, h.gain == c.gain, together(c, [h] + qd(c, h)), imp(h.output_len > 0, band(h.output.whole(h.output_len), h.temp_buffer.whole(h.output_len))),
                              h.working_buffer.whole(h.output_len + 1), zero_row(c, h.working_buffer, 'c64', iv(1)))),
       unmake('quadrature_demod_destroy', 'demod', 'dsp/quadrature_demod.c', qd)]
ma = lambda c, h: [h.delay_line]


def ma_ok(c, h, length):
    return band(h.length == length, h.delay_line_len == length - 1, h.delay_line.whole(length - 1), zero_row(c, h.delay_line, 'f32', length - 1), h.inDelayed == F0, h.outD1 == F0)


CS += [make('moving_average_create', ['length', 'mavg'], 'dsp/dc_blocker.c', 'mavg', ma, lambda c, h: ma_ok(c, h, c.length), requires=[('the shortest delay line', lambda c: c.length >= 2)]),
       unmake('moving_average_destroy', 'mavg', 'dsp/dc_blocker.c', ma)]
MAS = ('ma0', 'ma1', 'ma2', 'ma3')


def dc(c, h):
    r = [h.delay_line] + [getattr(h, m) for m in MAS]
    return r + [inner(c, getattr(h, m), 'delay_line') for m in MAS]


def inner(c, v, f):
    """the block behind a field of a part, nothing when the part is missing"""
    return guard(c, v, getattr(v, f))


CS += [make('dc_blocker_create', ['length', 'blocker'], 'dsp/dc_blocker.c', 'blocker', dc,
            lambda c, h: band(h.delay_line_len == c.length - 1, h.delay_line.whole(c.length - 1), zero_row(c, h.delay_line, 'f32', c.length - 1), *[ma_ok(c, getattr(h, m), c.length) for m in MAS], together(c, [h] + dc(c, h))),
            reasons=lambda c: c.length < 2),
       unmake('dc_blocker_destroy', 'blocker', 'dsp/dc_blocker.c', dc, lambda c, h: band(*[imp(getattr(h, m).nn, getattr(h, m).whole(1)) for m in MAS]))]


# ---------------------------------------------------------------- filters
# tapof(o): the array whose element tapidx(o) is the block o
FIR = 'dsp/fir_filter.c'
GF = ('oom', 'tapof', 'tapidx', 'ntap', 'last')


def m_volk_malloc(e, st, a, at, rt):
    p, ok = e.malloc(st, a[0], tag='volk_malloc')
    g = st.ghost
    g['oom'] = bor(g['oom'], bnot(ok))
    if e.con.name == 'create_aligned_taps':
        o = st.brk - 1
        g['tapof'] = z3.Store(g['tapof'], o, g['last'])
        g['tapidx'] = z3.Store(g['tapidx'], o, g['ntap'])
        g['ntap'] = g['ntap'] + 1
    return p


def m_malloc2(e, st, a, at, rt):
    p = m_malloc(e, st, a, at, rt)
    if e.con.name == 'create_aligned_taps':
        st.ghost['last'] = st.brk - 1
    return p


def m_fmax(e, st, a, at, rt):
    r = uf('fmax', F, F, F)(*a)
    k = uf('f2i', F, I)(r)
    for x in a:
        v = fval(x)
        if v is not None and abs(v) < 1e6:
            st.assume(k >= int(v))
    st.assume(k < (1 << 20))
    return r


def m_strtol(e, st, a, at, rt):
    r = e.fresh('alignment')
    st.assume(band(r >= 0, r < 4096))
    return r


def m_getenv(e, st, a, at, rt):
    o = e.fresh('env')
    st.assume(band(o >= 0, o < st.brk, imp(o != 0, sel(st.alive, o))))
    return P(o, iv(0))


def tapat(c, arr, i):
    return S(c.eng.mapget(c.st, 'po', arr), i), S(c.eng.mapget(c.st, 'pf', arr), i)


def reversed_at(c, i, j, n):
    """tap j of the copy that is shifted by i"""
    src = c.eng.mapget(c.pre.st, 'f32', c.original_taps.o)
    k = c.original_taps.idx
    return ite(band(j >= i, j < i + n), S(src, k + (n - 1 - (j - i))), F0)


def own_taps(c, arr, lo, hi, brk0=None, apart=()):
    """elements lo..hi of the array are live blocks of their own"""
    g = c.g

    def el(i):
        o, f = tapat(c, arr, i)
        return imp(band(i >= lo, i < hi), band(o > 0, o != arr, f == 0, c.alive(o), S(g('tapof'), o) == arr, S(g('tapidx'), o) == i, *([o >= brk0] if brk0 is not None else []), *[o != p for p in apart]))
    return c.forall(el, pat=lambda i: tapat(c, arr, i)[0])


def elsewhere(c, arr, i):
    """no other element"""
    return TRUE


def inner_set(c, arr, lo, hi):
    """o is element lo..hi of the array"""
    return lambda o: band(S(c.g('tapof'), o) == arr, S(c.g('tapidx'), o) >= lo, S(c.g('tapidx'), o) < hi, S(c.eng.mapget(c.st, 'po', arr), S(c.g('tapidx'), o)) == o)


def news(c, f):
    """of the blocks allocated so far only these are live"""
    return c.forall(lambda o: imp(band(o >= c.pre.st.brk, c.alive(o)), f(o)), pat=lambda o: c.alive(o))


def filled(c, arr, hi):
    n = c.taps_len

    def el(i):
        o, f = tapat(c, arr, i)
        return imp(band(i >= 0, i < hi), S(c.eng.mapget(c.st, 'f32', o), z3.IntVal(0)) == reversed_at(c, i, iv(0), n))
    return c.forall(el, pat=lambda i: tapat(c, arr, i)[0])


def sized(c, arr, hi, n):
    def el(i):
        o, f = tapat(c, arr, i)
        return imp(band(i >= 0, i < hi), sel(c.st.size, o) >= 4 * (c.taps_len + n - 1))
    return c.forall(el, pat=lambda i: tapat(c, arr, i)[0])


def sized2(c, arr, hi):
    def el(i):
        o, f = tapat(c, arr, i)
        return imp(band(i >= 0, i < hi), 2 * sel(c.st.size, o) >= 8 * c.taps_len + sel(c.st.size, arr) - 8)
    return c.forall(el, pat=lambda i: tapat(c, arr, i)[0])


def others_same(c):
    return band(c.forall(lambda o: imp(o < c.pre.st.brk, S(c.g('tapof'), o) == S(c.pre.g('tapof'), o)), pat=lambda o: S(c.g('tapof'), o)),
                c.forall(lambda o: imp(o < c.pre.st.brk, S(c.g('tapidx'), o) == S(c.pre.g('tapidx'), o)), pat=lambda o: S(c.g('tapidx'), o)))


def first_reversed(c):
    o, f = tapat(c, c.filter.taps.o, iv(0))
    row = c.eng.mapget(c.st, 'f32', o)
    return c.forall(lambda j: imp(band(j >= 0, j < c.taps_len), S(row, j) == reversed_at(c, iv(0), j, c.taps_len)), pat=lambda j: S(row, j))


aligned = Contract(
    'create_aligned_taps', ['original_taps', 'taps_len', 'filter'], file=FIR, opts={'effort': 3},
    requires=[('the taps', lambda c: band(c.taps_len >= 1, c.taps_len < (1 << 32), c.original_taps.valid(c.taps_len))), ('the filter', lambda c: band(c.filter.whole(1), c.filter.o > 0, c.filter.taps.null, c.original_taps.o != c.filter.o)),
              ('memory so far', lambda c: band(bnot(c.g('oom')), c.g('ntap') == 0))],
    ensures=[('success gives the taps at every alignment', lambda c: imp(c.ret == 0, band(c.filter.aligned_taps_len >= 1, c.fresh_obj(c.filter.taps.o), c.filter.taps.whole(c.filter.aligned_taps_len),
                                                                                         own_taps(c, c.filter.taps.o, iv(0), c.filter.aligned_taps_len, c.pre.st.brk), sized(c, c.filter.taps.o, c.filter.aligned_taps_len, c.filter.aligned_taps_len)))),
             ('the unshifted copy is the reversed taps', lambda c: imp(c.ret == 0, first_reversed(c))),
             ('a failure leaves the filter', lambda c: imp(c.ret != 0, band(c.filter.taps.null, c.filter.aligned_taps_len == c.pre.filter.aligned_taps_len))),
             ('it fails exactly without memory', lambda c: (c.ret != 0) == c.g('oom')), ('other blocks are not taps of it', others_same)],
    modifies=lambda c: [('field', c.filter, 'taps', 'aligned_taps_len')] + [('ghost', g) for g in GF], allocs=True,
    leak=lambda c: [('set', lambda o: band(c.ret == 0, bor(o == c.filter.taps.o, inner_set(c, c.filter.taps.o, iv(0), c.filter.aligned_taps_len)(o))))],
    inv=[('old blocks', lambda c: band(c.alive(T0(c)), c.forall(lambda o: imp(o < c.pre.st.brk, c.alive(o) == c.pre.alive(o)), pat=lambda o: c.alive(o)))),
         ('elements', lambda c, i: band(i >= 0, own_taps(c, T0(c), iv(0), i, c.pre.st.brk)), {'i': 'mod'}),
         ('sizes', lambda c, i: sized2(c, T0(c), i), {'i': 'mod'}),
         ('nothing else', lambda c, i: news(c, lambda o: bor(o == T0(c), inner_set(c, T0(c), iv(0), i)(o))), {'i': 'mod'}),
         ('count', lambda c, i: band(i >= 0, c.g('ntap') == i), {'i': 'mod'}),
         ('array', lambda c: band(c.g('last') == T0(c), bnot(c.g('oom')), others_same(c))),
         ('unshifted copy', lambda c, i: imp(i > 0, rowrev(c, T0(c), c.taps_len, c.taps_len)), {'i': 'mod'}),
         ('unshifted copy stays', lambda c, i: imp(i > 0, rowrev(c, T0(c), c.taps_len, c.taps_len)), {'i': 'outer'}),
         ('unshifted copy so far', lambda c, i, j: imp(i == 0, rowrev(c, T0(c), j, c.taps_len)), {'i': 'outer', 'j': 'mod'}),
         ('rest of the elements', lambda c, i, j: band(j >= 0, own_taps(c, T0(c), j, i, c.pre.st.brk)), {'i': 'outer', 'j': 'mod'}),
         ('nothing but the rest', lambda c, i, j: news(c, lambda o: bor(o == T0(c), inner_set(c, T0(c), j, i)(o))), {'i': 'outer', 'j': 'mod'})])


def T0(c):
    """the array is the first allocation"""
    return c.pre.st.brk


def rowrev(c, arr, upto, n):
    o, f = tapat(c, arr, iv(0))
    row = c.eng.mapget(c.st, 'f32', o)
    return c.forall(lambda j: imp(band(j >= 0, j < upto), S(row, j) == reversed_at(c, iv(0), j, n)), pat=lambda j: S(row, j))


CS += [aligned]


def fp(c, h):
    return [h.original_taps, h.taps, h.working_buffer, h.output, h.volk_output]


def fbuf(c, h, t):
    return h.working_buffer.as_(ptr(c.T(t)))


def fir_set(c, h):
    """the blocks of a filter"""
    parts = [guard(c, h, v) for v in fp(c, h)]
    n = ite(h.null, iv(0), h.aligned_taps_len)
    t = parts[1].o
    return lambda o: bor(band(o != 0, bor(o == h.o, *[o == v.o for v in parts])), band(t != 0, inner_set(c, t, iv(0), n)(o)))


def fir_ok(c, h, brk0=None):
    """a filter, complete or not"""
    t = h.taps
    ps = [v.o for v in fp(c, h)] + [h.o]
    return band(optional(c, h, fp(c, h)), imp(t.nn, band(t.whole(h.aligned_taps_len), own_taps(c, t.o, iv(0), h.aligned_taps_len, brk0, apart=ps))))


def fir_complete(c, h):
    M, T, n = c.max_input_buffer_length, c.taps_len, c.num_bytes
    return band(h.num_bytes == n, h.taps_len == T, h.decimation == c.decimation, h.history_offset == T - 1, h.skip == 0, h.max_input_buffer_length == M, h.original_taps.eq(c.taps),
                h.aligned_taps_len >= 1, h.taps.whole(1),
                *[imp(n == k, band(fbuf(c, h, t).whole(M + T - 1), zero_row(c, h.working_buffer, kd, T - 1), h.output.as_(ptr(c.T(t))).f == 0, imp(M > 0, h.output.as_(ptr(c.T(t))).whole(M)), h.volk_output.as_(ptr(c.T(t))).whole(1)))
                  for k, t, kd in ((8, 'float _Complex', 'c64'), (4, 'float', 'f32'))])


def fir_rev(c, h):
    o, f = tapat(c, h.taps.o, iv(0))
    row, src = c.eng.mapget(c.st, 'f32', o), c.eng.mapget(c.pre.st, 'f32', c.taps.o)
    return c.forall(lambda j: imp(band(j >= 0, j < c.taps_len), S(row, j) == S(src, c.taps_len - 1 - j)), pat=lambda j: S(row, j))


FH = lambda c: c.filter[0]
fir_create = Contract(
    'fir_filter_create', ['decimation', 'taps', 'taps_len', 'max_input_buffer_length', 'num_bytes', 'filter'], file=FIR,
    requires=[('the result is writable', lambda c: band(c.filter.valid(1), c.filter.o != c.taps.o)), ('memory so far', lambda c: bnot(c.g('oom'))),
              ('the taps are a block', lambda c: band(c.taps.whole(c.taps_len), c.taps.o > 0, c.taps_len >= 1, c.taps_len < (1 << 32))),
              ('parameters', lambda c: band(c.decimation >= 1, c.max_input_buffer_length < (1 << 40), bor(c.num_bytes == 8, c.num_bytes == 4))), ('no tap yet', lambda c: c.g('ntap') == 0)],
    ensures=[('success gives a complete filter', lambda c: imp(c.ret == 0, fir_complete(c, FH(c)))),
             ('the filter uses the reversed taps', lambda c: imp(c.ret == 0, fir_rev(c, FH(c)))),
             ('success gives an object of new blocks', lambda c: imp(c.ret == 0, band(c.fresh_obj(FH(c).o), fir_ok(c, FH(c), c.pre.st.brk), *[c.fresh_obj(v.o) for v in fp(c, FH(c))[1:]]))),
             ('a failure hands out nothing', lambda c: imp(c.ret != 0, FH(c).eq(c.pre.filter[0]))),
             ('the taps live on with the filter only', lambda c: c.alive(c.taps.o) == (c.ret == 0)),
             ('without memory it fails', lambda c: imp(c.g('oom'), c.ret != 0)),
             ('other blocks are not taps of it', others_same)],
    modifies=lambda c: [('cell', c.filter)] + [('ghost', g) for g in GF], allocs=True, frees=lambda c: [c.taps],
    leak=lambda c: [('set', lambda o: band(c.ret == 0, fir_set(c, FH(c))(o)))])
fir_destroy = Contract(
    'fir_filter_destroy', ['filter'], file=FIR,
    requires=[('the filter', lambda c: imp(c.filter.nn, fir_ok(c, c.filter)))],
    ensures=[('every block of the filter is released', lambda c: imp(c.filter.nn, c.forall(lambda o: imp(fir_set(c.pre, c.pre.filter)(o), bnot(c.alive(o))), pat=lambda o: c.alive(o))))],
    frees=lambda c: [('set', fir_set(c, c.filter))],
    inv=[('released', lambda c, i: band(i >= 0, c.forall(lambda o: c.alive(o) == band(c.pre.alive(o), bnot(inner_set(c.pre, c.pre.filter.taps.o, iv(0), i)(o))), pat=lambda o: c.alive(o))), {'i': 'mod'})])
CS += [fir_create, fir_destroy]

# ---------------------------------------------------------------- taps of the low pass filter
def floats(name, args, file, out, n, requires=(), more=(), reasons=lambda c: FALSE, extra=(), frees=None, inv=()):
    """a function that hands out one new block of n(c) floats"""
    V = lambda c: getattr(c, out)[0]
    return Contract(
        name, args, file=file, inv=list(inv),
        requires=[('the result is writable', lambda c: band(getattr(c, out).valid(1), *[getattr(c, out).o != getattr(c, m).o for m in more], *[getattr(c, m).valid(1) for m in more])), ('memory so far', lambda c: bnot(c.g('oom')))] + list(requires),
        ensures=[('success gives a new block', lambda c: imp(c.ret == 0, band(c.fresh_obj(V(c).o), V(c).whole(n(c))))),
                 ('a failure hands out nothing', lambda c: imp(c.ret != 0, V(c).eq(getattr(c.pre, out)[0]))),
                 ('without memory it fails', lambda c: imp(c.g('oom'), c.ret != 0)), ('impossible parameters are refused', lambda c: imp(reasons(c), c.ret != 0))] + list(extra),
        modifies=lambda c: [('cell', getattr(c, out)), ('ghost', 'oom'), ('ghost', 'last')] + [('cell', getattr(c, m)) for m in more], allocs=True, frees=frees,
        leak=lambda c: [('set', lambda o: band(c.ret == 0, o == V(c).o))])


LT = 'dsp/lpf_taps.c'
ntaps = Contract('computeNtaps', ['sampling_freq', 'transition_width'], file=LT, ensures=[('odd', lambda c: c.ret % 2 == 1)],
                 bridge=[('the number of taps is positive and fits an int (parameters with a sane ratio)', lambda c: c.ret >= 1)])
CS += [ntaps, floats('create_hamming_window', ['ntaps', 'output'], LT, 'output', lambda c: c.ntaps, requires=[('taps', lambda c: c.ntaps >= 1)], extra=[('fails only without memory', lambda c: imp(c.ret != 0, c.g('oom')))]),
       floats('create_low_pass_filter', ['gain', 'sampling_freq', 'cutoff_freq', 'transition_width', 'output_taps', 'len'], LT, 'output_taps', lambda c: c.len[0], more=('len',),
              reasons=lambda c: bor(c.sampling_freq == 0, c.cutoff_freq == 0, c.transition_width == 0), extra=[('at least one tap', lambda c: imp(c.ret == 0, band(c.len[0] >= 1, c.len[0] < (1 << 31))))]),
       floats('gaussian_taps_create', ['gain', 'samples_per_symbol', 'bt', 'taps_len', 'taps'], 'dsp/gaussian_taps.c', 'taps', lambda c: c.taps_len, requires=[('taps', lambda c: c.taps_len < (1 << 31))],
              extra=[('fails only without memory', lambda c: imp(c.ret != 0, c.g('oom')))]),
       floats('gfsk_mod_convolve', ['x', 'x_len', 'y', 'y_len', 'out', 'out_len'], 'dsp/gfsk_mod.c', 'out', lambda c: c.x_len + c.y_len - 1, more=('out_len',),
              requires=[('inputs', lambda c: band(c.x.valid(c.x_len), c.y.valid(c.y_len), c.x_len >= 1, c.y_len >= 1, c.x_len < (1 << 30), c.y_len < (1 << 30), c.out.o != c.x.o, c.out.o != c.y.o))],
              extra=[('fails only without memory', lambda c: imp(c.ret != 0, c.g('oom'))), ('the length', lambda c: imp(c.ret == 0, c.out_len[0] == c.x_len + c.y_len - 1))])]

# ---------------------------------------------------------------- low pass filter: a handle and a filter
LPF = 'dsp/lpf.c'
LH = lambda c: c.filter[0]


def lpf_set(c, h):
    fs = fir_set(c, guard(c, h, h.filter))
    return lambda o: bor(band(o != 0, o == h.o), fs(o))


def lpf_ok(c, h):
    t = h.filter.taps
    return band(h.whole(1), h.o > 0, imp(h.filter.nn, band(fir_ok(c, h.filter), *[h.o != v.o for v in [h.filter] + fp(c, h.filter)],
                                                          imp(t.nn, own_taps(c, t.o, iv(0), h.filter.aligned_taps_len, apart=[h.o])))))


lpf_create = Contract(
    'lpf_create', ['decimation', 'sampling_freq', 'cutoff_freq', 'transition_width', 'max_input_buffer_length', 'num_bytes', 'filter'], file=LPF,
    requires=[('the result is writable', lambda c: c.filter.valid(1)), ('memory so far', lambda c: bnot(c.g('oom'))),
              ('parameters', lambda c: band(c.decimation >= 1, c.max_input_buffer_length < (1 << 40), bor(c.num_bytes == 8, c.num_bytes == 4))), ('no tap yet', lambda c: c.g('ntap') == 0)],
    ensures=[('success gives a complete filter of new blocks', lambda c: imp(c.ret == 0, band(c.fresh_obj(LH(c).o), LH(c).whole(1), c.fresh_obj(LH(c).filter.o), *[LH(c).o != v.o for v in [LH(c).filter] + fp(c, LH(c).filter)]))),
             ('its parts are separate', lambda c: imp(c.ret == 0, band(optional(c, LH(c).filter, fp(c, LH(c).filter)), LH(c).filter.taps.whole(LH(c).filter.aligned_taps_len)))),
             ('its taps are separate', lambda c: imp(c.ret == 0, own_taps(c, LH(c).filter.taps.o, iv(0), LH(c).filter.aligned_taps_len, apart=[v.o for v in fp(c, LH(c).filter)] + [LH(c).filter.o, LH(c).o]))),
             ('the filter is built as requested', lambda c: imp(c.ret == 0, band(LH(c).filter.decimation == c.decimation, LH(c).filter.num_bytes == c.num_bytes, LH(c).filter.max_input_buffer_length == c.max_input_buffer_length, LH(c).filter.skip == 0))),
             ('a failure hands out nothing', lambda c: imp(c.ret != 0, LH(c).eq(c.pre.filter[0]))),
             ('without memory it fails', lambda c: imp(c.g('oom'), c.ret != 0)),
             ('impossible parameters are refused', lambda c: imp(bor(c.sampling_freq == 0, c.cutoff_freq == 0, c.transition_width == 0), c.ret != 0))],
    modifies=lambda c: [('cell', c.filter)] + [('ghost', g) for g in GF], allocs=True,
    leak=lambda c: [('set', lambda o: band(c.ret == 0, lpf_set(c, LH(c))(o)))])
lpf_destroy = Contract(
    'lpf_destroy', ['filter'], file=LPF,
    requires=[('the filter', lambda c: imp(c.filter.nn, lpf_ok(c, c.filter)))],
    ensures=[('every block of the filter is released', lambda c: imp(c.filter.nn, c.forall(lambda o: imp(lpf_set(c.pre, c.pre.filter)(o), bnot(c.alive(o))), pat=lambda o: c.alive(o))))],
    frees=lambda c: [('set', lpf_set(c, c.filter))])
CS += [lpf_create, lpf_destroy]

# ---------------------------------------------------------------- doppler correction
DOP = 'dsp/doppler.c'
dp = lambda c, h: [h.ground_station, h.output, h.source, inner(c, h.source, 'output'), h.obs_set, h.satellite]
TIME_MAX = 67768036191676799


def m_gmtime(e, st, a, at, rt):
    ok = e.fresh('cal', B)
    st.ghost['cal'] = ok
    e.havoc_row(st, a[1].obj)
    row = e.mapget(st, 'i32', a[1].obj)
    # month 0..11 (tm_mon); years for which tm_year + 1900 fits an int (assumption, see DESIGN.md)
    st.assume(band(S(row, iv(4)) >= 0, S(row, iv(4)) < 12, S(row, iv(5)) <= (1 << 31) - 1901))
    return P(ite(ok, a[1].obj, iv(0)), ite(ok, a[1].off, iv(0)))


def m_tle(e, st, a, at, rt):
    r = e.fresh('tle')
    st.ghost['tle'] = (r == 1)
    e.havoc_row(st, a[1].obj, ['f64', 'f32', 'i32', 'u32', 'i8', 'u8', 'i64'])
    return r


def m_float(e, st, a, at, rt):
    return e.fresh('date', F)


def m_none(e, st, a, at, rt):
    return None


CS += [make('doppler_create', ['latitude', 'longitude', 'altitude', 'sampling_freq', 'center_freq', 'constant_offset', 'start_time_seconds', 'max_output_buffer_length', 'tle', 'd'], DOP, 'd', dp,
            lambda c, h: band(h.output.whole(h.output_len), h.output_len == c.max_output_buffer_length, h.ground_station.whole(1), h.obs_set.whole(1), h.satellite.whole(1), h.source.whole(1), h.source.output.whole(h.output_len),
                              h.source.output_len == c.max_output_buffer_length, h.source.rx_sampling_freq == c.sampling_freq, h.update_interval_samples == c.sampling_freq, h.current_samples == c.sampling_freq,
                              h.constant_offset == c.constant_offset, together(c, [h] + dp(c, h))),
            requires=[('calendar and elements so far', lambda c: band(c.g('cal'), c.g('tle')))], modifies=('cal', 'tle'),
            reasons=lambda c: bor(bnot(c.g('cal')), bnot(c.g('tle')))),
       unmake('doppler_destroy', 'd', DOP, dp, lambda c, h: imp(h.source.nn, h.source.whole(1)))]

# ---------------------------------------------------------------- file device: open files are blocks, too
FS = 'sdr/file_source.c'


def m_fopen(e, st, a, at, rt):
    p, ok = e.malloc(st, iv(1), tag='fopen')
    st.ghost['noopen'] = bor(st.ghost['noopen'], bnot(ok))
    return p


def m_fclose(e, st, a, at, rt):
    e.oblige(st, a[0].obj > 0, 'an open file is closed', 'free')
    e.free(st, a[0], 'fclose')
    return e.fresh('closed')


def FD(c, h):
    return h.plugin.as_(ptr(c.T('struct file_device_t')))


def fd_parts(c, d):
    return [d.output, d.rx_file, d.tx_file, d.signal, inner(c, d.signal, 'output')]


def fs(c, h):
    d = FD(c, h)
    return [d] + [guard(c, d, v) for v in fd_parts(c, d)]


def fd_ok(c):
    d = c.plugin.as_(ptr(c.T('struct file_device_t')))
    return d


CS += [make('file_source_create', ['id', 'rx_filename', 'tx_filename', 'sampling_freq', 'freq_offset', 'max_output_buffer_length', 'output'], FS, 'output', fs,
            lambda c, h: band(FD(c, h).whole(1), FD(c, h).output.whole(c.max_output_buffer_length), FD(c, h).output_len == c.max_output_buffer_length, FD(c, h).freq_offset == c.freq_offset, FD(c, h).running == 1,
                              FD(c, h).rx_file.nn == c.rx_filename.nn, FD(c, h).tx_file.nn == c.tx_filename.nn, FD(c, h).signal.nn == (c.freq_offset != 0),
                              imp(c.freq_offset != 0, band(FD(c, h).signal.whole(1), FD(c, h).signal.output.whole(c.max_output_buffer_length), FD(c, h).signal.rx_sampling_freq == c.sampling_freq))),
            requires=[('files so far', lambda c: bnot(c.g('noopen')))], modifies=('noopen',), reasons=lambda c: c.g('noopen')),
       Contract('file_source_destroy', ['plugin'], file=FS,
                requires=[('the device', lambda c: imp(c.plugin.nn, band(optional(c, fd_ok(c), fd_parts(c, fd_ok(c))), imp(fd_ok(c).signal.nn, fd_ok(c).signal.whole(1)))))],
                ensures=[('everything is released, every file closed', lambda c: gone(c, fd_ok(c.pre), fd_parts(c.pre, fd_ok(c.pre))))],
                frees=lambda c: [c.plugin] + [guard(c, fd_ok(c), v) for v in fd_parts(c, fd_ok(c))])]

def env():
    e = Env()
    e.ghosts = dict(GH)
    e.kinds = ['po', 'pf', 'u64', 'u32', 'i32', 'f32', 'c64']
    e.models.update(malloc=m_malloc2, calloc=m_calloc, volk_malloc=m_volk_malloc, fmax=m_fmax, strtol=m_strtol, getenv=m_getenv, fopen=m_fopen, fclose=m_fclose, gmtime_r=m_gmtime, Get_Next_Tle_Set=m_tle, Julian_Date=m_float, Julian_Date_of_Epoch=m_float, select_ephemeris=m_none, Radians=m_float)
    for c in CS:
        e.contracts[c.name] = c
    return e
