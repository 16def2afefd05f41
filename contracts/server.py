"""tcp_server.c: request validation and the transmit path."""
from vc.sym import *
from vc.eng import uf
from vc.spec import *
from vc.cast import Unsupported

HOME = {'api_utils_read_tx_data': 'api', 'api_utils_write_response': 'api', 'api_utils_read_header': 'api', 'api_utils_read_tx_request': 'api', 'api_utils_read_rx_request': 'api',
        'api_utils_convert_tle': 'api'}

# tx_*: what of the current message has reached the device; st_*: the block of samples in flight
GH = {'tx_done': I, 'st_from': I, 'st_n': I, 'st_obj': I, 'st_len': I, 'st_stage': I, 'responses': I, 'rstatus': I, 'rdetails': I, 'rsock': I, 'devfail': I, 'skipped': I}


def lst(b):
    return b


def valid_sub(c, v):
    return v.whole(1)


def rx_valid(c):
    r = c.req
    return band(r.demod_type == 1, r.rx_center_freq != 0, r.rx_sampling_freq != 0, r.demod_baud_rate != 0,
                imp(r.doppler.nn, r.doppler.n_tle == 3), r.demod_decimation >= 1, r.demod_decimation <= 255,
                bor(r.demod_destination == 0, r.demod_destination == 1, r.demod_destination == 2),
                imp(c.config.rx_sdr_type == 2, r.file_settings.nn), r.fsk_settings.nn,
                r.fsk_settings.demod_fsk_transition_width != 0)


def tx_valid(c):
    r = c.req
    return band(r.mod_type == 1, c.config.tx_sdr_type != 0, r.tx_center_freq != 0, r.tx_sampling_freq != 0, r.mod_baud_rate != 0,
                r.fsk_settings.nn, imp(r.doppler.nn, r.doppler.n_tle == 3), imp(c.config.tx_sdr_type == 2, r.file_settings.nn))


def subs(c, r):
    return band(imp(r.doppler.nn, r.doppler.whole(1)), imp(r.fsk_settings.nn, r.fsk_settings.whole(1)), imp(r.file_settings.nn, r.file_settings.whole(1)))


validate_rx = Contract(
    'validate_rx_request', ['req', 'client_id', 'config'], file='tcp_server.c',
    requires=[('the request and its parts are live', lambda c: band(c.req.whole(1), subs(c, c.req))), ('the configuration', lambda c: c.config.valid(1))],
    ensures=[('accepted exactly when everything mandatory is there and supported', lambda c: (c.ret == 0) == rx_valid(c)), ('refusal is negative', lambda c: c.ret <= 0)])

validate_tx = Contract(
    'validate_tx_request', ['req', 'client_id', 'config'], file='tcp_server.c',
    requires=[('the request and its parts are live', lambda c: band(c.req.whole(1), subs(c, c.req))), ('the configuration', lambda c: c.config.valid(1))],
    ensures=[('accepted exactly when everything mandatory is there and supported', lambda c: (c.ret == 0) == tx_valid(c)), ('refusal is negative', lambda c: c.ret <= 0)])

convert = Contract(
    'tcp_worker_convert', ['req', 'result'], file='tcp_server.c',
    requires=[('the request', lambda c: c.req.whole(1)), ('the result is writable', lambda c: band(c.result.valid(1), c.result.o != c.req.o))],
    ensures=[('the stream parameters are the requested ones', lambda c: imp(c.ret == 0, band(
        c.result[0].whole(1), c.fresh_obj(c.result[0].o), c.result[0].rx_sampling_freq == c.pre.req.rx_sampling_freq, c.result[0].rx_center_freq == c.pre.req.rx_center_freq,
        c.result[0].rx_offset == c.pre.req.rx_offset))), ('or out of memory', lambda c: c.ret <= 0)],
    modifies=lambda c: [('cell', c.result)], allocs=True, leak=lambda c: [c.result[0]])


def simple(name, cond):
    return Contract(name, ['id', 'data'], file='tcp_server.c', requires=[('the worker', lambda c: c.data.as_(ptr(c.T('struct tcp_worker'))).whole(1))],
                    ensures=[('the answer', lambda c: (c.ret != 0) == cond(c.data.as_(ptr(c.T('struct tcp_worker')))))])


is_tx = simple('tcp_worker_is_txing', lambda w: w.tx_device.nn)
is_rx = simple('tcp_worker_is_rxing', lambda w: w.rx_req.nn)
is_stopped = Contract('tcp_worker_is_stopped', ['data'], file='tcp_server.c', requires=[('the worker', lambda c: c.data.as_(ptr(c.T('struct tcp_worker'))).whole(1))],
                      ensures=[('the answer', lambda c: (c.ret != 0) == (c.data.as_(ptr(c.T('struct tcp_worker'))).is_running == 0))])


# ---------------------------------------------------------------- transmit
def worker(c):
    return c.worker


def m_read_tx_data(e, st, a, at, rt):
    """contract of api_utils_read_tx_data (proved in api) with the parsed message made visible"""
    sock, hdr, out = a
    r = e.fresh('code')
    st.assume(r <= 0)
    p, ok = e.malloc(st, iv(48), tag='txdata', may_fail=False)
    d, dok = e.malloc(st, e.fresh('dlen_'), tag='txbytes', may_fail=False)
    c = Ctx(e, st, {}, e.tu)
    v = View(c, p, ptr(e.tu.parse_type('TxData')))
    n = v.data.len
    st.assume(band(sel(st.size, d.obj) >= n, n >= 0, n <= 32 * 1024))
    e.store(st, v.data.addr('data').p, ptr(e.tu.parse_type('unsigned char')), d, False)
    cell = View(c, out, at[2])
    e.store(st, out, at[2].to, P(ite(r == 0, p.obj, cell[0].o), ite(r == 0, iv(0), cell[0].f)), False)
    st.alive = sto(sto(st.alive, p.obj, r == 0), d.obj, r == 0)
    st.ghost['d_len'] = n
    st.ghost['d_obj'] = d.obj
    st.ghost['msg_ok'] = r == 0
    e.log('alive', p.obj); e.log('alive', d.obj)
    return r


def m_free_tx_data(e, st, a, at, rt):
    p = a[0]
    e.oblige(st, bor(p.obj == 0, band(sel(st.alive, p.obj), p.off == 0)), 'a message is released once', 'free')
    d = st.ghost['d_obj']
    st.alive = sto(sto(st.alive, p.obj, FALSE), d, FALSE)
    e.log('alive', p.obj); e.log('alive', d)
    return None


def m_respond(e, st, a, at, rt):
    st.ghost['responses'] = st.ghost['responses'] + 1
    st.ghost['rstatus'] = a[1]
    st.ghost['rdetails'] = a[2]
    st.ghost['rsock'] = a[0]
    return e.arb(st, rt, 'resp')


def setout(e, st, pout, plen, atp, atl, nm):
    """the producer hands out a block of samples of its own"""
    o = e.fresh(nm + '_out')
    n = e.fresh(nm + '_len')
    st.assume(band(o > 0, o < st.brk, n >= 0, n < (1 << 40)))
    e.store(st, pout, atp.to, P(o, iv(0)), False)
    e.store(st, plen, atl.to, n, False)
    st.ghost['st_obj'] = o
    st.ghost['st_len'] = n


def m_mod(e, st, a, at, rt):
    inp, n, out, olen, mod = a
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    e.oblige(st, band(eqi(inp.obj, st.ghost['d_obj']), inp.off == st.ghost['tx_done'], n > 0, inp.off + n <= st.ghost['d_len']),
             'the modulator gets the next bytes of the message', 'order')
    e.oblige(st, n <= c.worker.buffer_size, 'the modulator gets at most a full batch', 'size')
    e.oblige(st, band(mod.obj == c.pre.worker.fsk_mod.o), 'with the modulator of the client', 'order')
    setout(e, st, out, olen, at[2], at[3], 'mod')
    st.ghost['st_from'] = st.ghost['tx_done']
    st.ghost['st_n'] = n
    st.ghost['st_stage'] = iv(1)
    return None


def flow_in(e, st, p, n, what):
    e.oblige(st, band(p.obj == st.ghost['st_obj'], p.off == 0, n == st.ghost['st_len'], st.ghost['st_stage'] >= 1),
             '%s gets all samples of the previous stage' % what, 'order')


def m_dopp(e, st, a, at, rt):
    inp, n, out, olen, d = a
    flow_in(e, st, inp, n, 'the doppler correction')
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    e.oblige(st, band(d.obj == c.pre.worker.dopp.o, st.ghost['st_stage'] == 1), 'the doppler correction of the client is applied once', 'order')
    setout(e, st, out, olen, at[2], at[3], 'dopp')
    st.ghost['st_stage'] = iv(2)
    return None


def m_sig(e, st, a, at, rt):
    f, inp, n, out, olen, s = a
    flow_in(e, st, inp, n, 'the frequency shift')
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    e.oblige(st, band(s.obj == c.pre.worker.signal.o, f == c.worker.tx_req.tx_offset), 'the shift is the requested one', 'order')
    e.oblige(st, bor(st.ghost['st_stage'] == 1, st.ghost['st_stage'] == 2), 'the shift is applied once', 'order')
    setout(e, st, out, olen, at[3], at[4], 'sig')
    st.ghost['st_stage'] = ite(st.ghost['st_stage'] == 1, iv(3), iv(4))
    return None


def indirect(e, st, fp, args, atypes, rt, n):
    """worker->tx_device->sdr_process_tx(samples, n, plugin)"""
    if len(args) != 3:
        raise Unsupported('indirect call')
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    w = c.worker
    e.oblige(st, band(fp.obj == c.pre.worker.tx_device.sdr_process_tx.o, args[2].obj == c.pre.worker.tx_device.plugin.o), 'the device of the client transmits', 'order')
    flow_in(e, st, args[0], args[1], 'the device')
    e.oblige(st, st.ghost['st_stage'] == ite(w.dopp.nn, ite(w.signal.nn, iv(4), iv(2)), ite(w.signal.nn, iv(3), iv(1))), 'all requested corrections were applied', 'order')
    e.oblige(st, st.ghost['st_from'] == st.ghost['tx_done'], 'the device gets the batches in order', 'order')
    e.oblige(st, st.ghost['devfail'] == 0, 'nothing is transmitted after a failure', 'order')
    r = e.fresh('devcode')
    st.ghost['tx_done'] = ite(r == 0, st.ghost['tx_done'] + st.ghost['st_n'], st.ghost['tx_done'])
    st.ghost['devfail'] = ite(r == 0, st.ghost['devfail'], iv(1))
    st.ghost['st_stage'] = iv(0)
    return r


def m_fwrite(e, st, a, at, rt):
    r = e.arb(st, rt, 'written')
    st.assume(r <= a[2])
    return r


def w_ok(c):
    w = c.worker
    return band(w.whole(1), w.buffer_size >= 1,
                imp(w.tx_req.nn, band(w.tx_req.whole(1), w.fsk_mod.nn, w.tx_device.whole(1), w.tx_device.o != w.o, w.tx_req.o != w.o, w.tx_device.o != w.tx_req.o)),
                w.fsk_mod.f == 0, w.dopp.f == 0, w.signal.f == 0)


handle_tx_data = Contract(
    'handle_tx_data', ['worker', 'header'], file='tcp_server.c',
    requires=[('a client that is set up', w_ok), ('the header', lambda c: c.header.valid(1)),
              ('a new message', lambda c: band(c.g('tx_done') == 0, c.g('st_stage') == 0, c.g('devfail') == 0, c.g('responses') == 0))],
    ensures=[
        ('exactly one response on the client\'s connection', lambda c: band(c.g('responses') == 1, c.g('rsock') == c.pre.worker.client_socket)),
        ('success means that every byte was modulated and accepted by the device, in order', lambda c: imp(c.g('rstatus') == 0, band(c.g('msg_ok'), c.pre.worker.tx_req.nn, c.g('tx_done') == c.g('d_len'), c.g('devfail') == 0))),
        ('everything accepted means success', lambda c: imp(band(c.g('msg_ok'), c.pre.worker.tx_req.nn, c.g('devfail') == 0), band(c.g('rstatus') == 0, c.g('rdetails') == 0))),
        ('a broken message is an invalid request', lambda c: imp(bnot(c.g('msg_ok')), band(c.g('rstatus') == 1, c.g('rdetails') == 1, c.g('tx_done') == 0))),
        ('a device failure is an internal error', lambda c: imp(c.g('devfail') == 1, band(c.g('rstatus') == 1, c.g('rdetails') == 3))),
    ],
    modifies=lambda c: [('ghost', g) for g in GH], allocs=True, leak=lambda c: [],
    inv=[
        ('progress', lambda c, l, p: band(l >= 0, p >= 0, p == c.g('tx_done'), l + p == c.g('d_len'), c.g('d_len') <= 32 * 1024), {'l': 'int', 'p': 'int'}),
        ('bytes', lambda c, l: imp(l >= 0, l <= c.g('d_len')), {'l': 'int'}),
        ('no failure so far', lambda c: band(c.g('devfail') == 0, c.g('responses') == 0)),
        ('code', lambda c, k: k == 0, {'k': 'int'}),
    ])


def env():
    e = Env()
    e.ghosts = dict(GH)
    e.kinds = ['po', 'pf', 'u8', 'i32', 'u32', 'u64', 'i64']
    e.models.update({'api_utils_read_tx_data': m_read_tx_data, 'tx_data__free_unpacked': m_free_tx_data, 'api_utils_write_response': m_respond,
                     'gfsk_mod_process': m_mod, 'doppler_process_tx': m_dopp, 'sig_source_multiply': m_sig, 'fwrite': m_fwrite})
    e.indirect = indirect
    for c in (validate_rx, validate_tx, convert, is_tx, is_rx, is_stopped, handle_tx_data):
        e.contracts[c.name] = c
    return e
