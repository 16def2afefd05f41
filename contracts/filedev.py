"""file_source.c: a device that replays one file and records into another.

fsample(h, p) is sample p of the file behind handle h, rpos[h] how many samples were read from it; wpos[h] how many samples were
written to handle h and wsample[h][p] which.  Every block is exactly the next samples, turned by the oscillator when an offset
is configured (contracts/sig.py).
"""
from vc.sym import *
from vc.eng import uf
from vc.spec import *
from vc.calls import Monitor
from vc.reals import *
from contracts import sig
from contracts.sig import S, vre, vim, cpr, cpi, crow, src_ok, W

HOME = {'sig_source_multiply': 'sig'}
AI = z3.ArraySort(I, I)
ROW = z3.ArraySort(I, SORT['c64'])
GH = {'rpos': AI, 'wpos': AI, 'wsample': z3.ArraySort(I, ROW), 'readerr': AI}
fsample = uf('file_sample', I, I, SORT['c64'])


def dev(c):
    return c.plugin.as_(ptr(c.T('struct file_device_t')))


def sizes(e, a):
    p, s, n, f = a
    if not (isnum(s) and num(s) == 8):
        raise Unsupported('size of a file sample')
    return p, n, f


def m_fread(e, st, a, at, rt):
    p, n, f = sizes(e, a)
    e.oblige(st, bor(eqi(n, iv(0)), e.valid_goal(st, p, mul(n, iv(8)))), 'fread stays inside the buffer', 'mem')
    r = e.fresh('read')
    st.assume(band(r >= 0, r <= n))
    pos = S(st.ghost['rpos'], f.obj)
    old = e.mapget(st, 'c64', p.obj)
    row = e.fresh('file', ROW)
    i0 = e.index('c64', p.off)
    j = z3.Const('j', I)
    st.assume(fa([j], band(imp(band(i0 <= j, j < i0 + r), S(row, j) == fsample(f.obj, pos + (j - i0))), imp(bnot(band(i0 <= j, j < i0 + n)), S(row, j) == S(old, j))), patterns=[S(row, j)]))
    st.mem['c64'] = sto(st.mem['c64'], p.obj, row)
    st.ghost['rpos'] = z3.Store(st.ghost['rpos'], f.obj, pos + r)
    return r


def m_fwrite(e, st, a, at, rt):
    p, n, f = sizes(e, a)
    e.oblige(st, bor(eqi(n, iv(0)), e.valid_goal(st, p, mul(n, iv(8)))), 'fwrite stays inside the buffer', 'mem')
    r = e.fresh('written')
    st.assume(band(r >= 0, r <= n))
    pos = S(st.ghost['wpos'], f.obj)
    src = e.mapget(st, 'c64', p.obj)
    old = S(st.ghost['wsample'], f.obj)
    row = e.fresh('record', ROW)
    i0 = e.index('c64', p.off)
    j = z3.Const('j', I)
    st.assume(fa([j], band(imp(band(pos <= j, j < pos + r), S(row, j) == S(src, i0 + (j - pos))), imp(j < pos, S(row, j) == S(old, j))), patterns=[S(row, j)]))
    st.ghost['wsample'] = z3.Store(st.ghost['wsample'], f.obj, row)
    st.ghost['wpos'] = z3.Store(st.ghost['wpos'], f.obj, pos + r)
    return r


def m_ferror(e, st, a, at, rt):
    return S(st.ghost['readerr'], a[0].obj)


def foot(c, d):
    return [('field', d, 'running')]


def release(cs, c, q, why, L):
    out = [('running is only ever cleared', bor(q.in_(c).running == q.in_(cs).running, q.in_(c).running == 0)),
           ('a change others wait for is announced to all of them', imp(q.in_(c).running != q.in_(cs).running, L.get('bcast', FALSE)))]
    if why == 'wait':
        out.append(('waits only while it is running', q.in_(cs).running != 0))
    return out


def gstep(e, st, snap, q, why, L):
    if why == 'unlock':
        st.ghost['stopped'] = q.in_(Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)).running == 0


MON = Monitor('file_device_t', 'mutex', foot, lambda c, d: [], cond='condition', release=release, ghost_step=gstep)


def dok(c):
    d = dev(c)
    s = d.signal
    ob = [d.o, d.output.o]
    return band(d.whole(1), d.output.whole(d.output_len), d.output_len >= 1, d.output_len < (1 << 32), d.o != d.output.o, *[band(x > 0, x < c.pre.st.brk) for x in ob],
                imp(s.nn, band(src_ok(c, s), s.output_len == d.output_len, *[x != y for x in ob for y in (s.o, s.output.o)])))


def shifted(c, out, inp, j):
    """out is inp, turned by sample j of the oscillator when there is one"""
    d = dev(c.pre)
    s = d.signal
    A = val(s.amplitude)
    w = W(s, d.freq_offset, j)
    return band(imp(s.nn, band(vre(out) == cpr(vre(inp), vim(inp), A * Cos(w), A * Sin(w)), vim(out) == cpi(vre(inp), vim(inp), A * Cos(w), A * Sin(w)))),
                imp(s.null, out == inp))


def phase(c, n):
    d = dev(c)
    return imp(d.signal.nn, ang(d.signal.phase) == W(dev(c.pre).signal, d.freq_offset, n))


def same_phase(c):
    d = dev(c)
    return imp(d.signal.nn, d.signal.phase == dev(c.pre).signal.phase)


def g(c, n, h):
    return S(c.g(n), h.o)


def rx_samples(c):
    d = dev(c.pre)
    row = crow(c, c.output[0].o)
    return c.forall(lambda j: imp(band(j >= 0, j < c.output_len[0]), shifted(c, S(row, j), fsample(d.rx_file.o, g(c.pre, 'rpos', d.rx_file) + j), j)), pat=lambda j: S(row, j))


ok = lambda c: c.ret == 0


def outs(c):
    d = dev(c)
    ob = [d.o, d.output.o]
    return band(c.output.valid(1), c.output_len.valid(1), c.output.f == 0, c.output_len.f == 0, c.output.o != c.output_len.o, *[x.o != y for x in (c.output, c.output_len) for y in ob],
                imp(d.signal.nn, band(*[x.o != y for x in (c.output, c.output_len) for y in (d.signal.o, d.signal.output.o)])))


MODS = lambda c: [('obj', dev(c).output), ('field', dev(c), 'running'), ('set', lambda o: band(dev(c).signal.nn, o == dev(c).signal.output.o)), ('set', lambda o: band(dev(c).signal.nn, o == dev(c).signal.o), ['f32'])]

rx = Contract(
    'file_source_process_rx', ['output', 'output_len', 'plugin'], file='sdr/file_source.c', opts={'start': ('plugin',)},
    requires=[('the device', dok), ('outputs', outs), ('not stopped seen yet', lambda c: bnot(c.g('stopped')))],
    ensures=[('a block or the end', lambda c: bor(c.ret == 0, c.ret == -1)),
             ('a block has samples and fits', lambda c: imp(ok(c), band(c.output_len[0] >= 1, c.output_len[0] <= dev(c.pre).output_len, c.output[0].nn, c.output[0].f == 0))),
             ('the file is read on by exactly the samples of the block', lambda c: imp(ok(c), g(c, 'rpos', dev(c.pre).rx_file) == g(c.pre, 'rpos', dev(c.pre).rx_file) + c.output_len[0])),
             ('the block is the next samples of the file, shifted', lambda c: imp(ok(c), rx_samples(c))),
             ('the oscillator continues behind the last sample', lambda c: band(imp(ok(c), phase(c, c.output_len[0])), imp(bnot(ok(c)), same_phase(c)))),
             ('nothing is returned and nothing is lost at the end', lambda c: imp(bnot(ok(c)), band(c.output[0].null, c.output_len[0] == 0, imp(dev(c.pre).rx_file.nn, g(c, 'rpos', dev(c.pre).rx_file) == g(c.pre, 'rpos', dev(c.pre).rx_file))))),
             ('without an error the end is reported only after it was stopped', lambda c: imp(band(bnot(ok(c)), dev(c.pre).rx_file.nn, g(c, 'readerr', dev(c.pre).rx_file) == 0), c.g('stopped')))],
    modifies=lambda c: MODS(c) + [('cell', c.output), ('cell', c.output_len), ('ghost', 'rpos'), ('ghost', 'stopped')],
    monitors=[(MON, lambda c: dev(c))])


def tx_samples(c):
    d = dev(c.pre)
    h = d.tx_file
    row = S(c.g('wsample'), h.o)
    p0 = g(c.pre, 'wpos', h)
    irow = crow(c.pre, c.input.o)
    return c.forall(lambda p: imp(band(p >= p0, p < p0 + c.input_len), shifted(c, S(row, p), S(irow, c.input.idx + (p - p0)), p - p0)), pat=lambda p: S(row, p))


def tx_kept(c):
    h = dev(c.pre).tx_file
    row, old = S(c.g('wsample'), h.o), S(c.pre.g('wsample'), h.o)
    return c.forall(lambda p: imp(p < g(c.pre, 'wpos', h), S(row, p) == S(old, p)), pat=lambda p: S(row, p))


def inok(c):
    d = dev(c)
    return imp(c.input_len <= d.output_len, band(imp(c.input_len > 0, c.input.valid(c.input_len)), c.input.nn, c.input.o > 0, c.input.o < c.pre.st.brk, c.input.o != d.o,
               imp(d.signal.nn, band(c.input.o != d.signal.o, c.input.o != d.signal.output.o, c.input.valid(c.input_len)))))


tx = Contract(
    'file_source_process_tx', ['input', 'input_len', 'plugin'], file='sdr/file_source.c', opts={'start': ('plugin',)},
    requires=[('the device', dok), ('the block is readable and separate', inok)],
    ensures=[('accepted or refused', lambda c: bor(c.ret == 0, c.ret == -1)),
             ('every sample of an accepted block is recorded once', lambda c: imp(ok(c), g(c, 'wpos', dev(c.pre).tx_file) == g(c.pre, 'wpos', dev(c.pre).tx_file) + c.input_len)),
             ('in order, shifted', lambda c: imp(ok(c), tx_samples(c))),
             ('what was recorded before stays', lambda c: imp(dev(c.pre).tx_file.nn, tx_kept(c))),
             ('the oscillator continues behind the last sample', lambda c: imp(ok(c), phase(c, c.input_len))),
             ('a block beyond the maximum or without a file is refused', lambda c: imp(bor(c.input_len > dev(c.pre).output_len, dev(c.pre).tx_file.null), band(c.ret == -1, c.g('wpos') == c.pre.g('wpos'), same_phase(c))))],
    modifies=lambda c: MODS(c)[2:] + [('ghost', 'wpos'), ('ghost', 'wsample')])

stop = Contract(
    'file_source_stop', ['plugin'], file='sdr/file_source.c', opts={'start': ('plugin',)},
    requires=[('the device', lambda c: dev(c).whole(1))],
    ensures=[('a waiting reader is told to stop', lambda c: c.g('stopped'))],
    modifies=lambda c: [('field', dev(c), 'running'), ('ghost', 'stopped')], monitors=[(MON, lambda c: dev(c))])


def env():
    e = sig.env()
    e.ghosts = dict(GH)
    e.ghosts['stopped'] = B
    e.models.update(fread=m_fread, fwrite=m_fwrite, ferror=m_ferror)
    e.kinds = ['po', 'pf', 'u64', 'u32', 'i64', 'f32', 'c64', 'u8']
    for c in (rx, tx, stop):
        e.contracts[c.name] = c
    return e
