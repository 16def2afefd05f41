"""sdr_worker.c: one device thread that fans its blocks out to the receivers attached to it.

Ghost state: pend/bobj/boff/blen is the block the device returned last and that was not offered yet, ended says that the device
reported the end of the stream, told that the attached receivers were told so.  The list of receivers is protected by the mutex of
the worker; linked_list_* are used through what contracts/llist.py proves of them (every member is visited once, in order; exactly the
chosen members are removed and destroyed).
"""
from vc.sym import *
from vc.spec import *
from vc.calls import Monitor
from vc.cast import Unsupported

HOME = {'linked_list_foreach': 'llist', 'linked_list_add': 'llist', 'linked_list_destroy': 'llist', 'linked_list_destroy_by_id': 'llist'}
GH = {'pend': B, 'bobj': I, 'boff': I, 'blen': I, 'ended': B, 'told': I, 'puts': I, 'pobj': I, 'poff': I, 'plen': I, 'pwho': I,
      'stopped': I, 'joined': I, 'devgone': I, 'listgone': I, 'adds': I, 'addcode': I, 'removed': I, 'remid': I, 'lastnull': B, 'destroyed': I, 'interrupts': I}


def wk(c):
    return c.arg.as_(ptr(c.T('struct sdr_worker_t')))


def topw(e, st):
    """the worker the function under verification works on"""
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    for n in ('arg', 'sdr', 'worker', 'data'):
        if n in c._args and (n != 'data' or 'id' not in c._args):
            w = getattr(c, n)
            if n in ('worker',) and 'sdr' in c._args:
                continue
            return c, w.as_(ptr(e.top_tu.parse_type('struct sdr_worker_t')))
    raise Unsupported('no worker')


def locked(e, st):
    return TRUE if any(L.get('held') for L in st.locks.values()) else FALSE


def foot(c, d):
    return [('field', d, 'dsp_configs')]


def release(cs, c, q, why, L):
    return [('a worker that ends destroys the receivers still attached, once', imp(c.g('joined') == 1, c.g('listgone') == ite(q.in_(cs).dsp_configs.nn, iv(1), iv(0))))]


MON = Monitor('sdr_worker_t', 'mutex', foot, lambda c, d: [], release=release)


def indirect(e, st, fp, args, atypes, rt, n):
    c, w = topw(e, st)
    d = w.in_(c.pre).rx_device
    fo = fp.obj
    g = st.ghost
    if len(args) == 3:
        e.oblige(st, band(fo == d.sdr_process_rx.o, args[2].obj == d.plugin.o), 'the device of the worker is read', 'order')
        e.oblige(st, bnot(g['pend']), 'every block was offered before the next one is read', 'order')
        e.oblige(st, bnot(g['ended']), 'the device is not read again after its end', 'order')
        r = e.arb(st, rt, 'code')
        o, f, n_ = e.fresh('blk_o'), e.fresh('blk_i'), e.fresh('blk_n')
        st.assume(band(o >= 0, o < st.brk, f >= 0, n_ >= 0, n_ < (1 << 40), imp(n_ > 0, o > 0)))
        e.store(st, args[0], atypes[0].to, P(o, f), False)
        e.store(st, args[1], atypes[1].to, n_, False)
        g['pend'] = n_ > 0
        g['bobj'], g['boff'], g['blen'] = o, f, n_
        g['ended'] = band(n_ == 0, r != 0, r >= -1)
        return r
    if len(args) == 1:
        if e.entailed(st, fo == d.stop_rx.o):
            e.oblige(st, args[0].obj == d.plugin.o, 'the device of the worker is stopped', 'order')
            e.oblige(st, g['devgone'] == 0, 'the device is not used after it was destroyed', 'order')
            g['stopped'] = g['stopped'] + 1
            return None
        e.oblige(st, band(fo == d.destroy.o, args[0].obj == d.plugin.o), 'the device of the worker is destroyed', 'order')
        e.oblige(st, g['joined'] == 1, 'the device is destroyed only after its thread ended', 'order')
        e.oblige(st, g['devgone'] == 0, 'the device is destroyed once', 'order')
        g['devgone'] = g['devgone'] + 1
        return None
    raise Unsupported('indirect call')


def m_foreach(e, st, a, at, rt):
    arg, fn, lst = a
    c, w = topw(e, st)
    g = st.ghost
    e.oblige(st, locked(e, st), 'the list of receivers is visited under the mutex', 'lock')
    e.oblige(st, band(lst.obj == w.dsp_configs.o), 'the list of receivers is visited', 'order')
    name = e.fun_of(fn.obj)
    if name == 'sdr_worker_foreach_put':
        v = View(c, arg, ptr(e.top_tu.parse_type('struct array_t')))
        e.oblige(st, band(bnot(e.isnull(arg)), v.output.o == g['bobj'], v.output.f == g['boff'], v.output_len == g['blen']), 'the receivers are offered the block the device returned', 'order')
        e.oblige(st, bor(g['pend'], g['blen'] == 0), 'a block is offered once', 'order')
        e.oblige(st, g['told'] == 0, 'nothing is offered after the receivers were told the end', 'order')
        g['pend'] = FALSE
        return None
    if name == 'dsp_worker_shutdown':
        e.oblige(st, band(g['ended'], bnot(g['pend'])), 'the receivers are told the end when the device ended and every block was offered', 'order')
        g['told'] = g['told'] + 1
        return None
    raise Unsupported('visitor ' + str(name))


def m_put(e, st, a, at, rt):
    g = st.ghost
    g['puts'] = g['puts'] + 1
    g['pobj'], g['poff'], g['plen'], g['pwho'] = a[0].obj, a[0].off, a[1], a[2].obj
    return None


def m_add(e, st, a, at, rt):
    worker, destr, lst = a
    c, w = topw(e, st)
    g = st.ghost
    e.oblige(st, locked(e, st), 'the list of receivers is changed under the mutex', 'lock')
    e.oblige(st, band(worker.obj == c.worker.o, lst.obj == w.o, lst.off == w.addr('dsp_configs').f), 'the receiver is added to the list of the device', 'order')
    if e.fun_of(destr.obj) != 'dsp_worker_destroy':
        raise Unsupported('destructor of a receiver')
    r = e.arb(st, rt, 'addcode')
    e.store(st, lst, at[2].to, P(e.fresh('newhead'), iv(0)), False)
    g['adds'] = g['adds'] + 1
    g['addcode'] = r
    return r


def m_destroy_by_id(e, st, a, at, rt):
    idp, selr, lst = a
    c, w = topw(e, st)
    g = st.ghost
    e.oblige(st, locked(e, st), 'the list of receivers is changed under the mutex', 'lock')
    e.oblige(st, band(lst.obj == w.o, lst.off == w.addr('dsp_configs').f), 'the receiver is removed from the list of the device', 'order')
    if e.fun_of(selr.obj) != 'dsp_worker_find_by_id':
        raise Unsupported('selector of a receiver')
    v = View(c, idp, ptr(e.top_tu.parse_type('uint32_t')))
    g['remid'] = v[0]
    g['removed'] = g['removed'] + 1
    h = e.fresh('newhead')
    st.assume(h >= 0)
    e.store(st, lst, at[2].to, P(h, iv(0)), False)
    g['lastnull'] = h == 0
    return None


def m_list_destroy(e, st, a, at, rt):
    c, w = topw(e, st)
    e.oblige(st, a[0].obj == w.dsp_configs.o, 'the list of the worker is destroyed', 'order')
    e.oblige(st, st.ghost['joined'] == 1, 'the receivers are destroyed only after the device thread ended', 'order')
    st.ghost['listgone'] = st.ghost['listgone'] + 1
    return None


def m_join(e, st, a, at, rt):
    c, w = topw(e, st)
    e.oblige(st, imp(w.in_(c.pre).rx_device.nn, st.ghost['stopped'] >= 1), 'the device is stopped before its thread is joined', 'order')
    e.oblige(st, locked(e, st) == FALSE, 'the mutex is free while the device thread is joined', 'lock')
    e.oblige(st, st.ghost['joined'] == 0, 'the thread is joined once', 'order')
    st.ghost['joined'] = st.ghost['joined'] + 1
    return iv(0)


def alive2(c, w):
    return band(w.whole(1), imp(w.rx_device.nn, band(w.rx_device.whole(1), w.rx_device.o != w.o, w.rx_device.f == 0)))


ALL = lambda c: [('ghost', g) for g in GH]

callback = Contract(
    'sdr_worker_callback', ['arg'], file='sdr_worker.c', opts={'start': ('arg',)},
    requires=[('the worker', lambda c: band(alive2(c, wk(c)), wk(c).rx_device.nn)), ('a new stream', lambda c: band(bnot(c.g('pend')), bnot(c.g('ended')), c.g('told') == 0, c.g('joined') == 0))],
    ensures=[('every block of the device was offered to every receiver', lambda c: bnot(c.g('pend'))), ('only the end of the device ends the thread', lambda c: c.g('ended')),
             ('the receivers are told the end', lambda c: c.g('told') >= 1)],
    modifies=lambda c: ALL(c) + [('field', wk(c), 'dsp_configs')],
    inv=[('nothing pending', lambda c: band(bnot(c.g('pend')), bnot(c.g('ended')), c.g('told') == 0, c.g('joined') == 0))],
    monitors=[(MON, wk)])

put = Contract(
    'sdr_worker_foreach_put', ['arg', 'data'], file='sdr_worker.c', opts={'start': ('arg', 'data')},
    requires=[('the block', lambda c: c.arg.as_(ptr(c.T('struct array_t'))).whole(1)), ('first', lambda c: c.g('puts') == 0)],
    ensures=[('the receiver is given the block once', lambda c: band(c.g('puts') == 1, c.g('pwho') == c.data.o, c.g('pobj') == c.arg.as_(ptr(c.T('struct array_t'))).output.o,
                                                                  c.g('poff') == c.arg.as_(ptr(c.T('struct array_t'))).output.f, c.g('plen') == c.arg.as_(ptr(c.T('struct array_t'))).output_len))],
    modifies=ALL)


def closest(c):
    w = c.data.as_(ptr(c.T('struct sdr_worker_t')))
    r = c.id.as_(ptr(c.T('struct sdr_rx')))
    return band(w.rx.rx_center_freq == r.rx_center_freq, w.rx.rx_sampling_freq >= r.rx_sampling_freq, w.rx.rx_offset == r.rx_offset)


find_closest = Contract(
    'sdr_worker_find_closest', ['id', 'data'], file='sdr_worker.c', opts={'start': ('id', 'data')},
    requires=[('the request and the worker', lambda c: band(c.id.as_(ptr(c.T('struct sdr_rx'))).whole(1), imp(c.data.nn, band(c.data.as_(ptr(c.T('struct sdr_worker_t'))).whole(1), c.data.as_(ptr(c.T('struct sdr_worker_t'))).rx.whole(1)))))],
    ensures=[('shared exactly when frequency and offset agree and the rate suffices', lambda c: (c.ret != 0) == band(c.data.nn, closest(c)))])

add = Contract(
    'sdr_worker_add_dsp_worker', ['worker', 'sdr'], file='sdr_worker.c',
    requires=[('the device worker', lambda c: c.sdr.whole(1)), ('first', lambda c: band(c.g('adds') == 0, c.g('joined') == 0))],
    ensures=[('the receiver is added once and the outcome is reported', lambda c: band(c.g('adds') == 1, c.ret == c.g('addcode')))],
    modifies=lambda c: ALL(c) + [('field', c.sdr, 'dsp_configs')], monitors=[(MON, lambda c: c.sdr)])

def dw(c):
    return c.data.as_(ptr(c.T('struct sdr_worker_t')))


def sound(c, w):
    return band(alive2(c, w), w.o > 0, imp(w.rx.nn, band(w.rx.whole(1), w.rx.o > 0, w.rx.o != w.o, w.rx.o != w.rx_device.o)),
                imp(w.rx_device.nn, band(w.rx_device.o > 0, w.rx_device.stop_rx.o != w.rx_device.destroy.o)))


def none_gone(c):
    return band(c.g('stopped') == 0, c.g('joined') == 0, c.g('devgone') == 0, c.g('listgone') == 0)


destroy = Contract(
    'sdr_worker_destroy', ['data'], file='sdr_worker.c', opts={'start': ('data',)},
    requires=[('the worker', lambda c: imp(c.data.nn, sound(c, dw(c)))), ('first', none_gone)],
    ensures=[('the thread is joined and the device destroyed once', lambda c: imp(c.data.nn, band(c.g('joined') == 1, c.g('devgone') == ite(dw(c.pre).rx_device.nn, iv(1), iv(0))))),
             ('the memory is released', lambda c: imp(c.data.nn, band(bnot(sel(c.st.alive, c.data.o)), imp(dw(c.pre).rx_device.nn, bnot(sel(c.st.alive, dw(c.pre).rx_device.o))), imp(dw(c.pre).rx.nn, bnot(sel(c.st.alive, dw(c.pre).rx.o))))))],
    frees=lambda c: [c.data, dw(c).rx_device, dw(c).rx],
    modifies=lambda c: [('ghost', g) for g in ('stopped', 'joined', 'devgone', 'listgone')] + [('field', dw(c), 'dsp_configs')], monitors=[(MON, dw)])


remove = Contract(
    'sdr_worker_destroy_by_dsp_worker_id', ['id', 'worker'], file='sdr_worker.c',
    requires=[('the device worker', lambda c: imp(c.worker.nn, sound(c, c.worker))), ('first', lambda c: band(c.g('removed') == 0, none_gone(c), bnot(c.g('lastnull'))))],
    ensures=[('the receiver with the id is removed', lambda c: imp(c.g('removed') != 0, band(c.g('removed') == 1, c.g('remid') == c.id))),
             ('the device is released when its last receiver is gone, and only then', lambda c: imp(c.g('removed') == 1, (c.g('joined') == 1) == c.g('lastnull')))],
    frees=lambda c: [c.worker, c.worker.rx_device, c.worker.rx],
    modifies=lambda c: ALL(c) + [('field', c.worker, 'dsp_configs')], monitors=[(MON, lambda c: c.worker)])


def m_pthread_create(e, st, a, at, rt):
    r = e.fresh('pc')
    st.assume(r >= 0)
    st.ghost['puts'] = ite(r == 0, iv(1), iv(0))
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    e.store(st, a[0], at[0].to, e.fresh('tid'), False)
    st.ghost['pobj'] = a[3].obj
    st.ghost['threadfn'] = iv(1) if e.fun_of(a[2].obj) == 'sdr_worker_callback' else iv(0)
    w = View(c, a[3], ptr(e.top_tu.parse_type('struct sdr_worker_t')))
    e.oblige(st, band(w.whole(1), w.dsp_configs.null, w.rx_device.o == c.rx_device.o, w.rx.o == c.rx.o, w.id == c.id), 'the worker is complete before its thread starts', 'order')
    return r


create = Contract(
    'sdr_worker_create', ['id', 'rx', 'rx_device', 'worker'], file='sdr_worker.c',
    requires=[('the result is writable', lambda c: c.worker.valid(1)), ('first', lambda c: c.g('puts') == 0)],
    ensures=[('success or an error', lambda c: True and bor(c.ret == 0, c.ret != 0)),
             ('success gives the worker with its thread', lambda c: imp(c.ret == 0, band(c.fresh_obj(c.worker[0].o), c.worker[0].f == 0, c.g('puts') == 1, c.g('pobj') == c.worker[0].o))),
             ('an error starts no thread', lambda c: imp(c.ret != 0, c.g('puts') == 0))],
    modifies=lambda c: ALL(c) + [('cell', c.worker), ('ghost', 'threadfn')], allocs=True, leak=lambda c: [('set', lambda o: band(c.ret == 0, o == c.worker[0].o))])


def env():
    e = Env()
    e.ghosts = dict(GH)
    e.ghosts['threadfn'] = I
    e.indirect = indirect
    e.kinds = ['po', 'pf', 'u64', 'u32', 'i64', 'i32']
    e.models.update(linked_list_foreach=m_foreach, dsp_worker_put=m_put, linked_list_add=m_add, linked_list_destroy_by_id=m_destroy_by_id, linked_list_destroy=m_list_destroy,
                    pthread_join=m_join, pthread_create=m_pthread_create)
    e.homed = {'linked_list_foreach', 'linked_list_add', 'linked_list_destroy', 'linked_list_destroy_by_id'}
    for c in (callback, put, find_closest, add, remove, destroy, create):
        e.contracts[c.name] = c
    return e
