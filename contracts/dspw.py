"""dsp_worker.c: the thread that turns the blocks of its queue into the outputs the client asked for.

The block in work is described by ghost state: det (taken and not given back), robj/roff/rlen (the samples), stage 1 taken, 2 corrected
for Doppler; cobj/coff/clen what the demodulator has to get; dobj/doff/dlen the soft bits.  dumped, filed, sent, demodd count what
was done with the block, failed says that a write failed.  Queue, socket, Doppler and demodulator are used through their contracts
(contracts/queue.py, net.py) or their role (stages have properties of their own).
"""
from vc.sym import *
from vc.spec import *
from vc.cast import Unsupported

HOME = {'take_buffer_for_processing': 'queue', 'complete_buffer_processing': 'queue', 'interrupt_waiting_the_data': 'queue', 'queue_put': 'queue', 'tcp_utils_write_data': 'net',
        'api_utils_convert_tle': 'api'}
GH = {k: I for k in 'robj roff rlen cobj coff clen dobj doff dlen dumped doppd demodd filed sent joined qgone ddgone ffgone df1 df2 interrupts puts pobj poff plen pwho qmade started dmade fmade'.split()}
GH.update(det=B, failed=B, ended=B, f1live=I, f2live=I, fopened=I, complete=B)
WT = 'struct dsp_worker_t'


def wk(c, n='arg'):
    return getattr(c, n).as_(ptr(c.T(WT)))


def top(e, st):
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    for n in ('data', 'arg', 'worker'):
        if n in c._args:
            return c, getattr(c, n).as_(ptr(e.top_tu.parse_type(WT)))
    raise Unsupported('no worker')


def m_take(e, st, a, at, rt):
    c, w = top(e, st)
    g = st.ghost
    e.oblige(st, a[2].obj == w.queue.o, 'blocks are taken from the queue of the worker', 'order')
    e.oblige(st, bnot(g['det']), 'a block is given back before the next one is taken', 'order')
    e.oblige(st, band(bnot(g['failed']), bnot(g['ended'])), 'nothing is taken after a failure or the end', 'order')
    o, f, n = e.fresh('blk_o'), e.fresh('blk_i'), e.fresh('blk_n')
    st.assume(band(o >= 0, o < st.brk, f >= 0, n >= 0, n < (1 << 40)))
    e.store(st, a[0], at[0].to, P(o, ite(o == 0, iv(0), f)), False)
    e.store(st, a[1], at[1].to, n, False)
    f = ite(o == 0, iv(0), f)
    g['det'] = o != 0
    g['ended'] = o == 0
    g['robj'], g['roff'], g['rlen'] = o, f, n
    g['cobj'], g['coff'], g['clen'] = o, f, n
    for k in ('dobj', 'doff', 'dlen', 'dumped', 'doppd', 'demodd', 'filed', 'sent'):
        g[k] = iv(0)
    return None


def socket_wanted(w):
    return bor(w.demod_destination == 1, w.demod_destination == 2)


def m_complete(e, st, a, at, rt):
    c, w = top(e, st)
    g = st.ghost
    e.oblige(st, a[0].obj == w.queue.o, 'the block is given back to the queue of the worker', 'order')
    e.oblige(st, g['det'], 'a block is given back once', 'order')
    ok = bnot(g['failed'])
    e.oblige(st, imp(band(ok, w.rx_dump_file.nn), g['dumped'] == 1), 'the raw samples were dumped when requested', 'order')
    e.oblige(st, imp(band(ok, w.fsk_demod.nn), g['demodd'] == 1), 'the block was demodulated', 'order')
    e.oblige(st, imp(band(ok, w.fsk_demod.nn, w.dopp.nn), g['doppd'] == 1), 'the Doppler shift was corrected when requested', 'order')
    e.oblige(st, imp(band(ok, g['dobj'] != 0, w.demod_file.nn), g['filed'] == 1), 'the soft bits went to the file when requested', 'order')
    e.oblige(st, imp(band(ok, g['dobj'] != 0, socket_wanted(w)), g['sent'] == 1), 'the soft bits went to the socket when requested', 'order')
    g['det'] = FALSE
    return None


def m_interrupt(e, st, a, at, rt):
    c, w = top(e, st)
    e.oblige(st, band(a[0].obj == w.queue.o, st.ghost['qgone'] == 0), 'the queue of the worker is interrupted', 'order')
    st.ghost['interrupts'] = st.ghost['interrupts'] + 1
    return None


def m_fwrite(e, st, a, at, rt):
    p, size, n, f = a
    c, w = top(e, st)
    g = st.ghost
    r = e.fresh('written')
    total = mul(size, n)
    st.assume(band(r >= 0, r <= n))
    e.oblige(st, g['det'], 'the block is in the hands of the worker while it is written', 'order')
    if e.entailed(st, f.obj == w.rx_dump_file.o):
        e.oblige(st, band(p.obj == g['robj'], p.off == g['roff'], total == g['rlen'] * 8), 'the dump gets exactly the samples of the block', 'order')
        e.oblige(st, g['dumped'] == 0, 'the samples are dumped once', 'order')
        g['dumped'] = g['dumped'] + 1
    else:
        e.oblige(st, f.obj == w.demod_file.o, 'the soft bits go to the file of the client', 'order')
        e.oblige(st, band(p.obj == g['dobj'], p.off == g['doff'], total == g['dlen']), 'the file gets exactly the soft bits of the block', 'order')
        e.oblige(st, g['filed'] == 0, 'the soft bits are written once', 'order')
        g['filed'] = g['filed'] + 1
    g['failed'] = bor(g['failed'], r < n)
    return r


def outbuf(e, st, a, at, nm, nullable):
    o, n = e.fresh(nm + '_o'), e.fresh(nm + '_n')
    st.assume(band(o >= 0, o < st.brk, n >= 0, n < (1 << 40)))
    if not nullable:
        st.assume(bor(o > 0, n == 0))
    e.store(st, a[2], at[2].to, P(o, iv(0)), False)
    e.store(st, a[3], at[3].to, n, False)
    return o, n


def m_doppler(e, st, a, at, rt):
    c, w = top(e, st)
    g = st.ghost
    e.oblige(st, band(a[4].obj == w.dopp.o, g['det'], g['doppd'] == 0), 'the Doppler correction of the client is applied once', 'order')
    e.oblige(st, band(a[0].obj == g['robj'], a[0].off == g['roff'], a[1] == g['rlen']), 'the Doppler correction gets the whole block', 'order')
    o, n = outbuf(e, st, a, at, 'dopp', False)
    g['cobj'], g['coff'], g['clen'] = o, iv(0), n
    g['doppd'] = g['doppd'] + 1
    return None


def m_demod(e, st, a, at, rt):
    c, w = top(e, st)
    g = st.ghost
    e.oblige(st, band(a[4].obj == w.fsk_demod.o, g['det'], g['demodd'] == 0), 'the demodulator of the client gets the block once', 'order')
    e.oblige(st, imp(w.dopp.nn, g['doppd'] == 1), 'the Doppler shift is corrected before the demodulation', 'order')
    e.oblige(st, band(a[0].obj == g['cobj'], a[0].off == g['coff'], a[1] == g['clen']), 'the demodulator gets the whole corrected block', 'order')
    o, n = outbuf(e, st, a, at, 'demod', True)
    g['dobj'], g['doff'], g['dlen'] = o, iv(0), n
    g['demodd'] = g['demodd'] + 1
    return None


def m_write(e, st, a, at, rt):
    c, w = top(e, st)
    g = st.ghost
    r = e.arb(st, rt, 'wcode')
    e.oblige(st, band(a[2] == w.client_socket), 'the socket of the client is written', 'order')
    e.oblige(st, socket_wanted(w), 'the soft bits go to the socket only when requested', 'order')
    e.oblige(st, band(g['det'], g['sent'] == 0, g['dobj'] != 0), 'the soft bits of a block are sent once', 'order')
    e.oblige(st, band(a[0].obj == g['dobj'], a[0].off == g['doff'], a[1] == g['dlen']), 'the socket gets exactly the soft bits of the block', 'order')
    g['sent'] = g['sent'] + 1
    g['failed'] = bor(g['failed'], r != 0)
    return r


def alive(c, w):
    return band(w.whole(1), imp(w.rx_dump_file.nn, w.rx_dump_file.o != w.demod_file.o))


callback = Contract(
    'dsp_worker_callback', ['arg'], file='dsp_worker.c', opts={'start': ('arg',)},
    requires=[('the worker', lambda c: alive(c, wk(c))), ('nothing taken yet', lambda c: band(bnot(c.g('det')), bnot(c.g('failed')), bnot(c.g('ended')), c.g('qgone') == 0, c.g('interrupts') == 0))],
    ensures=[('the worker ends at the end of its stream or after a failure, not before', lambda c: bor(c.g('ended'), c.g('failed'))),
             ('no block is kept', lambda c: bnot(c.g('det'))),
             ('the producer is told that nobody takes blocks any more', lambda c: c.g('interrupts') >= 1)],
    modifies=lambda c: [('ghost', g) for g in GH],
    inv=[('between blocks', lambda c: band(bnot(c.g('det')), bnot(c.g('failed')), bnot(c.g('ended'))))])


# ---------------------------------------------------------------- small ones
def m_put(e, st, a, at, rt):
    g = st.ghost
    g['puts'] = g['puts'] + 1
    g['pobj'], g['poff'], g['plen'], g['pwho'] = a[0].obj, a[0].off, a[1], a[2].obj
    return None


put = Contract(
    'dsp_worker_put', ['output', 'output_len', 'worker'], file='dsp_worker.c',
    requires=[('the worker', lambda c: wk(c, 'worker').whole(1)), ('first', lambda c: c.g('puts') == 0)],
    ensures=[('the block goes to the queue of the worker once', lambda c: band(c.g('puts') == 1, c.g('pobj') == c.output.o, c.g('poff') == c.output.f, c.g('plen') == c.output_len, c.g('pwho') == wk(c, 'worker').queue.o))],
    modifies=lambda c: [('ghost', g) for g in GH])

by_id = Contract(
    'dsp_worker_find_by_id', ['id', 'data'], file='dsp_worker.c', opts={'start': ('id', 'data')},
    requires=[('the id and the worker', lambda c: band(c.id.as_(ptr(c.T('uint32_t'))).valid(1), wk(c, 'data').whole(1)))],
    ensures=[('chosen exactly by its id', lambda c: (c.ret != 0) == (wk(c, 'data').id == c.id.as_(ptr(c.T('uint32_t')))[0]))])

shutdown = Contract(
    'dsp_worker_shutdown', ['arg', 'data'], file='dsp_worker.c', opts={'start': ('data',)},
    requires=[('the worker', lambda c: wk(c, 'data').whole(1)), ('first', lambda c: band(c.g('interrupts') == 0, c.g('qgone') == 0))],
    ensures=[('the worker is told the end', lambda c: c.g('interrupts') >= 1)], modifies=lambda c: [('ghost', g) for g in GH])


def count(name, field, early=False):
    def m(e, st, a, at, rt):
        c, w = top(e, st)
        f = getattr(w.in_(c.pre), field) if 'data' in c._args else None
        if f is not None:
            e.oblige(st, a[0].obj == f.o, 'what the worker owns is released', 'order')
        e.oblige(st, st.ghost['joined'] == 1, 'nothing is released before the thread ended', 'order')
        e.oblige(st, st.ghost[name] == 0, 'it is released once', 'order')
        st.ghost[name] = st.ghost[name] + 1
        return None
    return m


def m_fclose(e, st, a, at, rt):
    c, w = top(e, st)
    w = w.in_(c.pre)
    e.oblige(st, st.ghost['joined'] == 1, 'no file is closed before the thread ended', 'order')
    if e.entailed(st, a[0].obj == w.rx_dump_file.o):
        e.oblige(st, st.ghost['df1'] == 0, 'the dump is closed once', 'order')
        st.ghost['df1'] = iv(1)
    else:
        e.oblige(st, band(a[0].obj == w.demod_file.o, a[0].obj != 0, st.ghost['df2'] == 0), 'the file of the soft bits is closed once', 'order')
        st.ghost['df2'] = iv(1)
    return e.arb(st, rt, 'fclose')


def m_join(e, st, a, at, rt):
    c, w = top(e, st)
    e.oblige(st, a[0] == w.in_(c.pre).dsp_thread, 'the thread of the worker is joined', 'order')
    e.oblige(st, imp(w.queue.nn, st.ghost['interrupts'] >= 1), 'the thread is told to end before it is joined', 'order')
    e.oblige(st, st.ghost['joined'] == 0, 'the thread is joined once', 'order')
    st.ghost['joined'] = iv(1)
    return e.arb(st, rt, 'join')


def clean(c):
    return band(*[c.g(x) == 0 for x in ('joined', 'qgone', 'ddgone', 'ffgone', 'df1', 'df2', 'interrupts')])


def has(p):
    return ite(p.nn, iv(1), iv(0))


destroy = Contract(
    'dsp_worker_destroy', ['data'], file='dsp_worker.c', opts={'start': ('data',)},
    requires=[('the worker', lambda c: imp(c.data.nn, alive(c, wk(c, 'data')))), ('nothing released yet', clean)],
    ensures=[('everything the worker owns is released once, after its thread ended', lambda c: imp(c.data.nn, band(c.g('joined') == 1, *[c.g(x) == has(getattr(wk(c.pre, 'data'), f)) for x, f in
               (('qgone', 'queue'), ('df1', 'rx_dump_file'), ('df2', 'demod_file'), ('ddgone', 'fsk_demod'), ('ffgone', 'dopp'))]))),
             ('the memory is released', lambda c: imp(c.data.nn, bnot(sel(c.st.alive, c.data.o))))],
    frees=lambda c: [c.data], modifies=lambda c: [('ghost', g) for g in ('joined', 'qgone', 'ddgone', 'ffgone', 'df1', 'df2', 'interrupts')])


# ---------------------------------------------------------------- construction
def made(e, st, cell, t, name):
    o = e.fresh(name, heap=True)
    st.assume(band(o > 0, o < st.brk))
    e.store(st, cell, t.to, P(o, iv(0)), False)
    return o


def creator(name, check, cellarg):
    def m(e, st, a, at, rt):
        c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
        if 'req' not in c._args:
            raise Unsupported('construction outside of the constructor')
        for i, (what, f) in enumerate(check(c, a)):
            e.oblige(st, f, what, 'order')
        r = e.arb(st, rt, 'made')
        v = View(c, a[cellarg], at[cellarg])
        o = e.fresh('new_' + name)
        st.assume(band(o > 0, o < st.brk))
        old = v[0]
        e.store(st, a[cellarg], at[cellarg].to, P(ite(r == 0, o, old.o), ite(r == 0, iv(0), old.f)), False)
        st.ghost[name] = st.ghost[name] + ite(r == 0, iv(1), iv(0))
        return r
    return m


dopp_create = creator('dmade', lambda c, a: [
    ('the Doppler correction works at the rate and frequency of the request', band(a[3] == c.req.rx_sampling_freq, a[4] == c.req.rx_center_freq, a[5] == 0)),
    ('the Doppler correction starts at the time of the file or now', (lambda v: bor(a[6] == v, a[6] == v - 2 ** 64))(ite(c.req.file_settings.nn, c.req.file_settings.start_time_seconds, iv(0)))),
    ('the Doppler correction takes blocks up to the configured size', a[7] == c.server_config.buffer_size), ('once', c.g('dmade') == 0)], 9)
demod_create = creator('fmade', lambda c, a: [
    ('the demodulator has the parameters of the request', band(a[0] == c.req.rx_sampling_freq, a[1] == c.req.demod_baud_rate, a[2] == c.req.fsk_settings.demod_fsk_deviation, a[3] == c.req.demod_decimation,
                                                                a[4] == c.req.fsk_settings.demod_fsk_transition_width, (a[5] != 0) == (c.req.fsk_settings.demod_fsk_use_dc_block != 0))),
    ('the demodulator takes blocks up to the configured size', a[6] == c.server_config.buffer_size), ('once', c.g('fmade') == 0)], 7)
queue_create = creator('qmade', lambda c, a: [
    ('the queue has the configured size', band(a[0] == c.server_config.buffer_size, a[1] == c.server_config.queue_size)),
    ('the queue blocks exactly for the file device', (a[2] != 0) == (c.server_config.rx_sdr_type == 2)), ('once', c.g('qmade') == 0)], 3)


def m_fopen(e, st, a, at, rt):
    o = e.fresh('file')
    st.assume(bor(o == 0, band(o > st.ghost['f1live'], o < st.brk)))       # open handles are distinct
    st.ghost['f1live'] = ite(o == 0, st.ghost['f1live'], o)
    st.ghost['fopened'] = st.ghost['fopened'] + ite(o == 0, iv(0), iv(1))
    return P(o, iv(0))


def m_start(e, st, a, at, rt):
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    w = View(c, a[3], ptr(e.top_tu.parse_type(WT)))
    e.oblige(st, TRUE if e.fun_of(a[2].obj) == 'dsp_worker_callback' else FALSE, 'the thread processes the queue', 'order')
    e.oblige(st, complete(c, w), 'the worker is complete before its thread starts', 'order')
    r = e.arb(st, rt, 'thread')
    e.store(st, a[0], at[0].to, e.fresh('tid'), False)
    st.ghost['started'] = ite(r == 0, iv(1), iv(0))
    return r


def complete(c, w):
    r = c.req
    return band(w.whole(1), w.id == c.id, w.client_socket == c.client_socket, w.queue.nn, c.g('qmade') == 1, w.demod_destination == r.demod_destination,
                w.dopp.nn == r.doppler.nn, w.fsk_demod.nn == (r.demod_type == 1), w.rx_dump_file.nn == (r.rx_dump_file != 0),
                w.demod_file.nn == bor(r.demod_destination == 0, r.demod_destination == 2))


def m_tle(e, st, a, at, rt):
    return None


def m_snprintf(e, st, a, at, rt):
    e.oblige(st, e.valid_goal(st, a[0], a[1]), 'the path fits its buffer', 'mem')
    e.havoc_row(st, a[0].obj, ['u8'])
    return e.arb(st, rt, 'snprintf')


create = Contract(
    'dsp_worker_create', ['id', 'client_socket', 'server_config', 'req', 'worker'], file='dsp_worker.c',
    requires=[('a valid request', lambda c: band(c.req.whole(1), imp(c.req.doppler.nn, c.req.doppler.whole(1)), imp(c.req.file_settings.nn, c.req.file_settings.whole(1)), c.req.fsk_settings.nn, c.req.fsk_settings.whole(1),
                                                  c.req.demod_decimation >= 1, c.req.demod_decimation <= 255)),
              ('the configuration', lambda c: c.server_config.whole(1)), ('the result is writable', lambda c: band(c.worker.valid(1), c.worker.o != c.req.o)),
              ('nothing yet', lambda c: band(clean(c), *[c.g(x) == 0 for x in ('qmade', 'dmade', 'fmade', 'fopened', 'started', 'f1live')]))],
    ensures=[('success gives the worker with its running thread', lambda c: imp(c.ret == 0, band(c.fresh_obj(c.worker[0].o), c.worker[0].f == 0, c.g('started') == 1, c.g('joined') == 0, complete(c, c.worker[0].as_(ptr(c.T(WT))))))),
             ('nothing of a running worker is released', lambda c: imp(c.ret == 0, clean(c))),
             ('a failure releases everything that was obtained', lambda c: imp(c.ret != 0, band(c.g('started') == 0, c.g('qgone') == c.g('qmade'), c.g('ffgone') == c.g('dmade'), c.g('ddgone') == c.g('fmade'), c.g('df1') + c.g('df2') == c.g('fopened'))))],
    modifies=lambda c: [('cell', c.worker)] + [('ghost', g) for g in GH], allocs=True, leak=lambda c: [('set', lambda o: band(c.ret == 0, o == c.worker[0].o))])


def env():
    e = Env()
    e.ghosts = dict(GH)
    e.kinds = ['po', 'pf', 'u64', 'u32', 'i32']
    e.models.update(take_buffer_for_processing=m_take, complete_buffer_processing=m_complete, interrupt_waiting_the_data=m_interrupt, fwrite=m_fwrite, doppler_process_rx=m_doppler,
                    fsk_demod_process=m_demod, tcp_utils_write_data=m_write, queue_put=m_put, pthread_join=m_join, fclose=m_fclose, destroy_queue=count('qgone', 'queue'),
                    fsk_demod_destroy=count('ddgone', 'fsk_demod'), doppler_destroy=count('ffgone', 'dopp'),
                    doppler_create=dopp_create, fsk_demod_create=demod_create, create_queue=queue_create, fopen=m_fopen, pthread_create=m_start, api_utils_convert_tle=m_tle, snprintf=m_snprintf)
    e.homed = {'take_buffer_for_processing', 'complete_buffer_processing', 'interrupt_waiting_the_data', 'queue_put', 'tcp_utils_write_data', 'api_utils_convert_tle'}
    for c in (callback, put, by_id, shutdown, destroy, create):
        e.contracts[c.name] = c
    return e
