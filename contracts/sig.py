"""sig_source.c and frequency_modulator.c: oscillators with a running phase, over real arithmetic.

turnk(A, x, i) is the angle A turned i times by x, step(f, fs) = 2*pi*f/fs.  Sample i of a block is
amplitude * (cos, sin) of turnk(phase at entry, step, i) and the phase afterwards is turnk(.., n): successive blocks are one
oscillator.  The modulator turns by sensitivity * input[i] before each sample (fmang).
"""
from vc.sym import *
from vc.eng import uf
from vc.spec import *
from vc.reals import *
from vc.cast import Unsupported

S = z3.Select
CI = ('c64', 'float _Complex')


def vre(c):
    return val(creal(c))


def vim(c):
    return val(cimag(c))


def crow(c, o):
    return c.eng.mapget(c.st, 'c64', o)


def src_ok(c, s):
    return band(s.whole(1), s.output.whole(s.output_len), s.o != s.output.o, s.output_len < (1 << 32), s.rx_sampling_freq > 0,
                *[band(x > 0, x < c.pre.st.brk) for x in (s.o, s.output.o)])


def W(s, freq, i):
    """angle of sample i of a block that begins in the state of s"""
    return turnk(ang(s.phase), stepf(freq, s.rx_sampling_freq), i)


def samples(c, s0, freq, n, row, i0):
    A = val(s0.amplitude)
    return c.forall(lambda j: imp(band(j >= i0, j < i0 + n), band(vre(S(row, j)) == A * Cos(W(s0, freq, j - i0)), vim(S(row, j)) == A * Sin(W(s0, freq, j - i0)))), pat=lambda j: S(row, j))


def bounded(c, ph):
    return band(val(ph) <= PI * 2, val(ph) >= -PI * 2)


def small(c):
    return imp(band(bounded(c, c.pre.source.phase), c.freq <= c.source.rx_sampling_freq, c.freq >= -c.source.rx_sampling_freq), bounded(c, c.source.phase))


def outs(c, s, more=()):
    ob = [s.o, s.output.o] + list(more)
    return band(c.output.valid(1), c.output_len.valid(1), c.output.f == 0, c.output_len.f == 0, *[x.o != y for x in (c.output, c.output_len) for y in ob] + [c.output.o != c.output_len.o])


sig_process = Contract(
    'sig_source_process', ['freq', 'expected_output_len', 'output', 'output_len', 'source'], file='dsp/sig_source.c',
    requires=[('the oscillator', lambda c: src_ok(c, c.source)), ('the block fits', lambda c: c.expected_output_len <= c.source.output_len),
              ('outputs', lambda c: outs(c, c.source))],
    ensures=[('samples', lambda c: samples(c, c.pre.source, c.freq, c.expected_output_len, crow(c, c.source.output.o), iv(0))),
             ('the phase continues behind the last sample', lambda c: ang(c.source.phase) == W(c.pre.source, c.freq, c.expected_output_len)),
             ('the phase stays small', small),
             ('the block is the output buffer', lambda c: band(c.output[0].o == c.source.output.o, c.output[0].f == 0, c.output_len[0] == c.expected_output_len))],
    modifies=lambda c: [('field', c.source, 'phase'), ('obj', c.source.output), ('cell', c.output), ('cell', c.output_len)],
    inv=[('phase', lambda c, i: ang(c.source.phase) == W(c.pre.source, c.freq, i), {'i': 'int'}),
         ('small', small),
         ('samples so far', lambda c, i: band(i >= 0, samples(c, c.pre.source, c.freq, i, crow(c, c.source.output.o), iv(0))), {'i': 'int'})])


cpr = z3.Function('cpr', R, R, R, R, R)               # real part of (a + i*b)*(c + i*d): a*c - b*d
cpi = z3.Function('cpi', R, R, R, R, R)               # imaginary part: a*d + b*c


def cmulv(c, out, inp, re, im):
    """out = inp * (re + i*im)"""
    return band(vre(out) == cpr(vre(inp), vim(inp), re, im), vim(out) == cpi(vre(inp), vim(inp), re, im))


def mixed(c, s0, freq, n, row, i0, irow, k0, t0=None):
    """row[i0 + j] = irow[k0 + j] * oscillator(t0 + j)"""
    t = t0 if t0 is not None else iv(0)
    A = val(s0.amplitude)
    return c.forall(lambda j: imp(band(j >= i0, j < i0 + n), cmulv(c, S(row, j), S(irow, k0 + (j - i0)), A * Cos(W(s0, freq, t + (j - i0))), A * Sin(W(s0, freq, t + (j - i0))))), pat=lambda j: S(row, j))


def m_multiply(e, st, a, at, rt):
    """volk_32fc_x2_multiply_32fc: pointwise complex product (out may be one of the inputs)"""
    out, x, y, n = a
    for p, w in ((out, 'result'), (x, 'first operand'), (y, 'second operand')):
        e.oblige(st, bor(eqi(n, iv(0)), e.valid_goal(st, p, mul(n, iv(8)))), 'the kernel %s has room' % w, 'mem')
    ro, rx, ry = [e.mapget(st, 'c64', p.obj) for p in (out, x, y)]
    io, ix, iy = [e.index('c64', p.off) for p in (out, x, y)]
    e.oblige(st, band(bor(out.obj != x.obj, io == ix), bor(out.obj != y.obj, io == iy)), 'the kernel operands do not overlap the result', 'mem')
    row = e.fresh('prod', z3.ArraySort(I, SORT['c64']))
    j = z3.Const('j', I)
    inp = band(io <= j, j < io + n)
    X, Y = S(rx, ix + (j - io)), S(ry, iy + (j - io))
    st.assume(fa([j], band(z3.Implies(bnot(inp), S(row, j) == S(ro, j)),
                           z3.Implies(inp, band(vre(S(row, j)) == cpr(vre(X), vim(X), vre(Y), vim(Y)), vim(S(row, j)) == cpi(vre(X), vim(X), vre(Y), vim(Y))))), patterns=[S(row, j)]))
    st.mem['c64'] = sto(st.mem['c64'], out.obj, row)
    e.externs.add('volk_32fc_x2_multiply_32fc')
    return None


def fits(c):
    return c.input_len <= c.pre.source.output_len


sig_multiply = Contract(
    'sig_source_multiply', ['freq', 'input', 'input_len', 'output', 'output_len', 'source'], file='dsp/sig_source.c',
    requires=[('the oscillator', lambda c: src_ok(c, c.source)),
              ('the block is readable and separate', lambda c: imp(c.input_len <= c.source.output_len, band(c.input.valid(c.input_len), c.input.o != c.source.output.o, c.input.o != c.source.o))),
              ('outputs', lambda c: outs(c, c.source, [c.input.o]))],
    ensures=[('every sample is the input turned by the oscillator', lambda c: imp(fits(c), mixed(c, c.pre.source, c.freq, c.input_len, crow(c, c.source.output.o), iv(0), crow(c.pre, c.input.o), c.input.idx))),
             ('the phase continues behind the last sample', lambda c: imp(fits(c), ang(c.source.phase) == W(c.pre.source, c.freq, c.input_len))),
             ('the phase stays small', small),
             ('the block is the output buffer', lambda c: imp(fits(c), band(c.output[0].o == c.source.output.o, c.output[0].f == 0, c.output_len[0] == c.input_len))),
             ('a block beyond the maximum yields nothing and leaves the oscillator', lambda c: imp(bnot(fits(c)), band(c.output[0].null, c.output_len[0] == 0, c.source.phase == c.pre.source.phase)))],
    modifies=lambda c: [('field', c.source, 'phase'), ('obj', c.source.output), ('cell', c.output), ('cell', c.output_len)])

# ---------------------------------------------------------------- frequency modulator
fmangf = z3.Function('fmang', ANG, z3.ArraySort(I, F), R, I, I, ANG)   # angle after n inputs of a row from index b


def fm_axioms():
    A, a, x, b, n = z3.Const('A', ANG), z3.Const('a', z3.ArraySort(I, F)), z3.Const('x', R), z3.Const('b', I), z3.Const('n', I)
    return [z3.ForAll([A, a, x, b], fmangf(A, a, x, b, iv(0)) == A, patterns=[fmangf(A, a, x, b, iv(0))]),
            z3.ForAll([A, a, x, b, n], z3.Implies(n >= 0, fmangf(A, a, x, b, n + 1) == rot(fmangf(A, a, x, b, n), x * val(S(a, b + n)))), patterns=[fmangf(A, a, x, b, n + 1)])]


def fmw(c, n):
    m = c.pre.mod
    return fmangf(ang(m.phase), c.eng.mapget(c.pre.st, 'f32', c.input.o), val(m.sensitivity), c.input.idx, n)


def fm_samples(c, n):
    row = crow(c, c.pre.mod.output.o)
    return c.forall(lambda j: imp(band(j >= 0, j < n), band(vre(S(row, j)) == Cos(fmw(c, j + 1)), vim(S(row, j)) == Sin(fmw(c, j + 1)))), pat=lambda j: S(row, j))


def fm_fits(c):
    return c.input_len <= c.pre.mod.output_len


fm_process = Contract(
    'frequency_modulator_process', ['input', 'input_len', 'output', 'output_len', 'mod'], file='dsp/frequency_modulator.c',
    requires=[('the modulator', lambda c: band(c.mod.whole(1), c.mod.output.whole(c.mod.output_len), c.mod.o != c.mod.output.o, c.mod.output_len < (1 << 32))),
              ('the block is readable and separate', lambda c: imp(c.input_len <= c.mod.output_len, band(imp(c.input_len > 0, c.input.valid(c.input_len)), c.input.o != c.mod.output.o, c.input.o != c.mod.o))),
              ('outputs', lambda c: band(c.output.valid(1), c.output_len.valid(1), c.output.f == 0, c.output_len.f == 0, *[x.o != y for x in (c.output, c.output_len) for y in (c.mod.o, c.mod.output.o, c.input.o)] + [c.output.o != c.output_len.o]))],
    ensures=[('every sample has unit amplitude and the accumulated phase', lambda c: imp(fm_fits(c), fm_samples(c, c.input_len))),
             ('the phase continues behind the last sample', lambda c: imp(fm_fits(c), ang(c.mod.phase) == fmw(c, c.input_len))),
             ('the block is the output buffer', lambda c: imp(fm_fits(c), band(c.output[0].o == c.mod.output.o, c.output[0].f == 0, c.output_len[0] == c.input_len))),
             ('a block beyond the maximum yields nothing and leaves the modulator', lambda c: imp(bnot(fm_fits(c)), band(c.output[0].null, c.output_len[0] == 0, c.mod.phase == c.pre.mod.phase)))],
    modifies=lambda c: [('field', c.mod, 'phase'), ('obj', c.mod.output), ('cell', c.output), ('cell', c.output_len)],
    inv=[('phase', lambda c, i: ang(c.mod.phase) == fmw(c, i), {'i': 'int'}),
         ('samples so far', lambda c, i: band(i >= 0, fm_samples(c, i)), {'i': 'int'})])


def env():
    e = Env()
    e.reals = True
    e.kinds = ['po', 'pf', 'u64', 'u32', 'f32', 'c64']
    e.axioms = osc_axioms() + fm_axioms()
    e.models['volk_32fc_x2_multiply_32fc'] = m_multiply
    for c in (sig_process, sig_multiply, fm_process):
        e.contracts[c.name] = c
    return e
