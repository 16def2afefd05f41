"""plutosdr.c: streaming through the buffers of libiio and the choice of the hardware filter.

The library is called through a table of functions; its buffers are modelled by ghost state: txm / rxm is the memory behind the
transmit / receive buffer, sent counts the samples pushed, cv_* describes the last conversion between floats and 16 bit integers.
"""
from vc.sym import *
from vc.eng import fval, uf
from vc.spec import *
from vc.cast import Unsupported

GH = {k: I for k in 'sent cv_src cv_soff cv_n cv_dst cv_doff refills rxbytes'.split()}
GH.update(failed=B, cv_ok=B, cv_scale=F)
txm = uf('buffer_memory', I, I)
LIB = ['iio_buffer_first', 'iio_buffer_push_partial', 'iio_buffer_refill', 'iio_buffer_end', 'iio_buffer_push', 'iio_buffer_step']


def dev(c):
    return c.plugin.as_(ptr(c.T('struct plutosdr_t')))


def indirect(e, st, fp, args, atypes, rt, n):
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    d = dev(c.pre)
    g = st.ghost
    name = None
    for x in LIB:
        try:
            if e.entailed(st, fp.obj == getattr(d.lib, x).o):
                name = x
                break
        except Unsupported:
            pass
    if name == 'iio_buffer_first':
        buf = args[0]
        if e.entailed(st, buf.obj == d.tx_buffer.o):
            e.oblige(st, args[1].obj == d.tx0_i.o, 'the first channel of the transmitter', 'order')
        else:
            e.oblige(st, band(buf.obj == d.rx_buffer.o, args[1].obj == d.rx0_i.o), 'the first channel of the receiver', 'order')
            e.oblige(st, g['refills'] == 1, 'the buffer is filled before it is read', 'order')
        return P(txm(buf.obj), iv(0))
    if name == 'iio_buffer_push_partial':
        b = args[1]
        e.oblige(st, args[0].obj == d.tx_buffer.o, 'the buffer of the transmitter is pushed', 'order')
        e.oblige(st, bnot(g['failed']), 'nothing is pushed after a failure', 'order')
        e.oblige(st, band(b >= 1, b <= d.output_len), 'a batch has samples and fits the buffer', 'order')
        e.oblige(st, band(g['cv_ok'], g['cv_dst'] == txm(d.tx_buffer.o), g['cv_doff'] == 0, g['cv_n'] == b * 2), 'the whole batch was converted into the buffer', 'order')
        e.oblige(st, band(g['cv_src'] == c.input.o, g['cv_soff'] == c.input.f + g['sent'] * 8), 'the batch is the next samples of the block', 'order')
        e.oblige(st, TRUE if fval(g['cv_scale']) == 32768 else FALSE, 'the samples are scaled to 16 bit', 'order')
        r = e.arb(st, rt, 'pushed')
        g['sent'] = ite(r >= 0, g['sent'] + b, g['sent'])
        g['failed'] = r < 0
        g['cv_ok'] = FALSE
        return r
    if name == 'iio_buffer_refill':
        e.oblige(st, args[0].obj == d.rx_buffer.o, 'the buffer of the receiver is filled', 'order')
        r = e.arb(st, rt, 'refill')
        g['refills'] = g['refills'] + 1
        g['failed'] = r < 0
        return r
    if name == 'iio_buffer_end':
        e.oblige(st, band(args[0].obj == d.rx_buffer.o, g['refills'] == 1), 'the end of the filled buffer', 'order')
        return P(txm(args[0].obj), g['rxbytes'])
    raise Unsupported('call of libiio')


def m_to16(e, st, a, at, rt):
    out, inp, scale, n = a
    e.oblige(st, bor(n == 0, e.valid_goal(st, out, mul(n, iv(2)))), 'the conversion stays inside the buffer', 'mem')
    e.oblige(st, bor(n == 0, e.valid_goal(st, inp, mul(n, iv(4)))), 'the conversion reads inside the block', 'mem')
    g = st.ghost
    g['cv_src'], g['cv_soff'], g['cv_n'], g['cv_dst'], g['cv_doff'], g['cv_scale'], g['cv_ok'] = inp.obj, inp.off, n, out.obj, out.off, scale, TRUE
    return None


def m_tofloat(e, st, a, at, rt):
    out, inp, scale, n = a
    e.oblige(st, bor(n == 0, e.valid_goal(st, out, mul(n, iv(4)))), 'the conversion stays inside the output', 'mem')
    e.oblige(st, bor(n == 0, e.valid_goal(st, inp, mul(n, iv(2)))), 'the conversion reads inside the buffer', 'mem')
    g = st.ghost
    g['cv_src'], g['cv_soff'], g['cv_n'], g['cv_dst'], g['cv_doff'], g['cv_scale'], g['cv_ok'] = inp.obj, inp.off, n, out.obj, out.off, scale, TRUE
    e.havoc_row(st, out.obj, ['c64'])
    return None


def dok(c):
    d = dev(c)
    return band(d.whole(1), d.lib.whole(1), d.lib.o != d.o, d.output_len >= 1, d.output_len < (1 << 32))


tx = Contract(
    'plutosdr_process_tx', ['input', 'input_len', 'plugin'], file='sdr/plutosdr.c', opts={'start': ('plugin',)},
    requires=[('the device', dok), ('the buffer has room for the configured length', lambda c: imp(dev(c).tx_buffer.nn, band(txm(dev(c).tx_buffer.o) > 0, sel(c.st.alive, txm(dev(c).tx_buffer.o)), sel(c.st.size, txm(dev(c).tx_buffer.o)) >= dev(c).output_len * 4))),
              ('the block is readable', lambda c: imp(c.input_len > 0, c.input.valid(c.input_len))), ('nothing sent yet', lambda c: band(c.g('sent') == 0, bnot(c.g('failed')), bnot(c.g('cv_ok'))))],
    ensures=[('success means that every sample was pushed once, in order', lambda c: imp(c.ret == 0, band(c.g('sent') == c.input_len, bnot(c.g('failed'))))),
             ('a failed push is reported', lambda c: imp(c.g('failed'), c.ret != 0)),
             ('without a transmitter nothing is sent', lambda c: imp(dev(c.pre).tx_buffer.null, band(c.ret != 0, c.g('sent') == 0))),
             ('with a working transmitter everything is sent', lambda c: imp(band(dev(c.pre).tx_buffer.nn, bnot(c.g('failed'))), c.ret == 0))],
    modifies=lambda c: [('ghost', g) for g in GH],
    inv=[('progress', lambda c, l, p: band(l >= 0, p >= 0, p == c.g('sent'), l + p == c.input_len, bnot(c.g('failed'))), {'l': 'int', 'p': 'int'}),
         ('progress of the rest', lambda c, l: band(l >= 0, l + c.g('sent') == c.input_len, bnot(c.g('failed'))), {'l': 'int'}),
         ('progress of the sum', lambda c, p: band(p == c.g('sent'), p <= c.input_len, bnot(c.g('failed'))), {'p': 'int'})])

rx = Contract(
    'plutosdr_process_rx', ['output', 'output_len', 'plugin'], file='sdr/plutosdr.c', opts={'start': ('plugin',)},
    requires=[('the device', lambda c: band(dok(c), dev(c).output.whole(dev(c).output_len), dev(c).output_len < (1 << 31))),
              ('a filled buffer is readable', lambda c: imp(dev(c).rx_buffer.nn, band(txm(dev(c).rx_buffer.o) > 0, sel(c.st.alive, txm(dev(c).rx_buffer.o)), c.g('rxbytes') >= 0, c.g('rxbytes') % 4 == 0, c.g('rxbytes') < (1 << 40), sel(c.st.size, txm(dev(c).rx_buffer.o)) >= c.g('rxbytes')))),
              ('outputs', lambda c: band(c.output.valid(1), c.output_len.valid(1), c.output.o != c.output_len.o, *[x.o != y for x in (c.output, c.output_len) for y in (dev(c).o, dev(c).output.o, dev(c).lib.o)])),
              ('not filled yet', lambda c: band(c.g('refills') == 0, bnot(c.g('failed')), bnot(c.g('cv_ok'))))],
    ensures=[('a block is all samples of one filling, scaled', lambda c: imp(c.ret == 0, band(c.g('refills') == 1, bnot(c.g('failed')), c.g('cv_ok'), c.g('cv_src') == txm(dev(c.pre).rx_buffer.o), c.g('cv_soff') == 0,
                c.g('cv_n') == c.output_len[0] * 2, c.output_len[0] * 4 == c.g('rxbytes'), c.g('cv_dst') == c.output[0].o, c.g('cv_doff') == c.output[0].f, c.output[0].o == dev(c.pre).output.o))),
             ('the samples are scaled by 1/2048', lambda c: imp(c.ret == 0, TRUE if True and fval(c.g('cv_scale')) == 2048 else FALSE)),
             ('a failure yields nothing', lambda c: imp(c.ret != 0, band(c.output[0].null, c.output_len[0] == 0))),
             ('a failure is the end', lambda c: imp(c.ret != 0, c.ret == -1)),
             ('a stopped device, one without receiver or a failed filling is a failure', lambda c: imp(bor(c.g('failed'), dev(c.pre).rx_buffer.null), c.ret != 0))],
    modifies=lambda c: [('ghost', g) for g in GH] + [('cell', c.output), ('cell', c.output_len), ('obj', dev(c).output)])


def taps(c, n):
    o = c.eng.statics.get(n)
    return o if o is not None else iv(-999999)


select = Contract(
    'plutosdr_select_fir_filter_config', ['cfg', 'decimation', 'fir_filter_taps'], file='sdr/plutosdr.c',
    requires=[('the results are writable', lambda c: band(c.decimation.valid(1), c.fir_filter_taps.valid(1), c.decimation.o != c.fir_filter_taps.o)),
              ('the configuration', lambda c: imp(c.cfg.nn, band(c.cfg.whole(1), c.cfg.o != c.decimation.o, c.cfg.o != c.fir_filter_taps.o))),
              ('no filter by default', lambda c: band(c.decimation[0] == 0, c.fir_filter_taps[0].null))],
    ensures=[('rates below 520834 are refused', lambda c: imp(c.pre.cfg.nn, (c.ret < 0) == (c.pre.cfg.sampling_freq < 520834))),
             ('nothing to do is no error', lambda c: imp(c.pre.cfg.null, c.ret == 0)), ('the answer', lambda c: c.ret <= 0),
             ('below 1041667 the filter decimates by 4, below 2083334 by 2, above there is none', lambda c: imp(c.ret == 0, band(
                 c.decimation[0] == ite(c.pre.cfg.null, iv(0), ite(c.pre.cfg.sampling_freq < 1041667, iv(4), ite(c.pre.cfg.sampling_freq < 2083334, iv(2), iv(0)))),
                 c.fir_filter_taps[0].null == (c.decimation[0] == 0),
                 imp(c.decimation[0] == 4, c.fir_filter_taps[0].o == taps(c, 'fir_128_4')), imp(c.decimation[0] == 2, c.fir_filter_taps[0].o == taps(c, 'fir_128_2')))))],
    modifies=lambda c: [('cell', c.decimation), ('cell', c.fir_filter_taps)])


def env():
    e = Env()
    e.ghosts = dict(GH)
    e.indirect = indirect
    e.kinds = ['po', 'pf', 'u64', 'u32', 'i64', 'i32', 'c64', 'u8']
    e.models.update(volk_32f_s32f_convert_16i=m_to16, volk_16i_s32f_convert_32f=m_tofloat)
    for c in (tx, rx, select):
        e.contracts[c.name] = c
    return e
