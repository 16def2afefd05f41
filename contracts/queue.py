"""queue.c: lock invariant of the hand-over queue and the contracts of its operations.

Ghost state (one queue instance): nodes and buffers never change owner, so
  kind[o] 1 node, 2 buffer, 0 neither; nbuf[n], owner[b]
  side[n] 1 free, 2 filled, 3 detached  pos[n] absolute index in its chain
  atf[i], bf, nf                        free chain   = atf[bf .. bf+nf)
  atq[i], bq, nq                        filled chain = atq[bq .. bq+nq)
  slen[i], srow[i]                      what the i-th accepted block contained
  det                                   the node the consumer holds (0: none)
"""
from vc.sym import *
from vc.spec import *
from vc.calls import Monitor

AI = z3.ArraySort(I, I)
AB = z3.ArraySort(I, B)
GH = {'kind': AI, 'nbuf': AI, 'owner': AI, 'side': AI, 'pos': AI, 'atf': AI, 'bf': I, 'nf': I,
      'atq': AI, 'bq': I, 'nq': I, 'slen': AI, 'srow': z3.ArraySort(I, RowC), 'det': I, 'n0': I}
CHANGING = ['side', 'pos', 'atf', 'bf', 'nf', 'atq', 'bq', 'nq', 'slen', 'srow', 'det']
FIELDS = ['first_free_node', 'last_free_node', 'first_filled_node', 'last_filled_node', 'detached_node', 'poison_pill']


def node(c, n):
    return c.obj(n, 'struct queue_node')


def G(c):
    class X:
        pass
    x = X()
    for k in GH:
        setattr(x, k, c.g(k))
    return x


S = z3.Select


def static_inv(c, q):
    """what no operation changes: the nodes, their buffers and who owns them"""
    g = G(c)

    def per(n):
        v = node(c, n)
        b = S(g.nbuf, n)
        return imp(S(g.kind, n) == 1, band(n > 0, v.valid(1), v.buffer.o == b, v.buffer.f == 0, b > 0, S(g.owner, b) == n,
                                           S(g.kind, b) == 2, sel(c.st.alive, b), sel(c.st.size, b) >= 8 * q.buffer_size))
    return ghost_static(c, q) + [
            ('every node keeps a live buffer of its own, of the configured size', c.forall(per, pat=lambda n: [S(g.side, n), S(g.nbuf, n)])),
            ('there is a node', band(S(g.kind, g.n0) == 1, S(g.side, g.n0) >= 1))]


def ghost_static(c, q):
    g = G(c)
    return [('buffers belong to nodes', band(
        c.forall(lambda b: ite(S(g.kind, b) == 2, band(S(g.kind, S(g.owner, b)) == 1, S(g.nbuf, S(g.owner, b)) == b), S(g.owner, b) == 0), pat=lambda b: S(g.owner, b)),
        c.forall(lambda n: imp(S(g.kind, n) != 1, S(g.nbuf, n) == 0), pat=lambda n: S(g.nbuf, n)),
        S(g.kind, iv(0)) == 0, S(g.nbuf, iv(0)) == 0, S(g.owner, iv(0)) == 0, S(g.kind, q.o) == 0))]


def shape(c, q):
    g = G(c)
    out = static_inv(c, q)

    def where(n):
        s = S(g.side, n); p = S(g.pos, n)
        return imp(S(g.kind, n) == 1, band(
            s >= 1, s <= 3,
            imp(s == 1, band(p >= g.bf, p < g.bf + g.nf, S(g.atf, p) == n)),
            imp(s == 2, band(p >= g.bq, p < g.bq + g.nq, S(g.atq, p) == n)),
            imp(s == 3, g.det == n)))
    out.append(('no block buffer is lost or in two places', c.forall(where, pat=lambda n: [S(g.side, n)])))

    def nxt(n):
        s = S(g.side, n); p = S(g.pos, n)
        v = node(c, n).next
        last = imp(s == 1, p == g.bf + g.nf - 1)
        last = ite(s == 1, p == g.bf + g.nf - 1, p == g.bq + g.nq - 1)
        return imp(band(S(g.kind, n) == 1, bor(s == 1, s == 2)), band(
            v.f == 0, (v.o == 0) == last,
            imp(v.o != 0, band(S(g.kind, v.o) == 1, S(g.side, v.o) == s, S(g.pos, v.o) == p + 1))))
    out.append(('the free and filled chains are linked in order', c.forall(nxt, pat=lambda n: [node(c, n).next.o, node(c, n).next.f])))
    out.append(('free chain entries are free nodes', c.forall(lambda i: imp(band(i >= g.bf, i < g.bf + g.nf), band(S(g.kind, S(g.atf, i)) == 1, S(g.side, S(g.atf, i)) == 1, S(g.pos, S(g.atf, i)) == i)), pat=lambda i: S(g.atf, i))))
    out.append(('filled chain entries are filled nodes', c.forall(lambda i: imp(band(i >= g.bq, i < g.bq + g.nq), band(S(g.kind, S(g.atq, i)) == 1, S(g.side, S(g.atq, i)) == 2, S(g.pos, S(g.atq, i)) == i)), pat=lambda i: S(g.atq, i))))
    ff, lf, fq, lq, d = q.first_free_node, q.last_free_node, q.first_filled_node, q.last_filled_node, q.detached_node
    out.append(('counts', band(g.nf >= 0, g.nq >= 0)))
    out.append(('free ends', band(ff.f == 0, lf.f == 0,
                                  imp(g.nf == 0, band(ff.o == 0, lf.o == 0)),
                                  imp(g.nf > 0, band(ff.o == S(g.atf, g.bf), lf.o == S(g.atf, g.bf + g.nf - 1), ff.o > 0, lf.o > 0)))))
    out.append(('filled ends', band(fq.f == 0, lq.f == 0,
                                    imp(g.nq == 0, band(fq.o == 0, lq.o == 0)),
                                    imp(g.nq > 0, band(fq.o == S(g.atq, g.bq), lq.o == S(g.atq, g.bq + g.nq - 1), fq.o > 0, lq.o > 0)))))
    out.append(('consumer node', band(d.o == g.det, d.f == 0, imp(g.det != 0, band(S(g.kind, g.det) == 1, S(g.side, g.det) == 3, node(c, g.det).next.o == 0, node(c, g.det).next.f == 0)), g.det >= 0)))
    return out


def content(c, q):
    """every accepted block still waiting is intact and has its length"""
    g = G(c)

    def body(i):
        n = S(g.atq, i)
        v = node(c, n)
        return imp(band(i >= g.bq, i < g.bq + g.nq), band(v.len == S(g.slen, i), S(g.slen, i) > 0, S(g.slen, i) <= q.buffer_size))
    def rows(i):
        return imp(band(i >= g.bq, i < g.bq + g.nq), S(c.st.mem['c64'], S(g.nbuf, S(g.atq, i))) == S(g.srow, i))
    f = c.forall(rows, pat=lambda i: [S(g.atq, i), S(g.srow, i)])
    return [('waiting blocks keep their length', c.forall(body, pat=lambda i: [S(g.atq, i), S(g.slen, i)])),
            ('waiting blocks keep their samples', f)]


def inv(c, q):
    return shape(c, q) + content(c, q)


def foot(c, q):
    g = G(c)
    own = c.eng.con.opts.get('consumer')
    nodes = ('set', lambda o: S(g.kind, o) == 1, ['po', 'pf', 'u64'])
    bufs = ('set', lambda o: S(g.kind, o) == 2, ['c64'])
    if own:
        # what the consumer holds is its own: no other thread may touch it (obliged of every other operation)
        held = S(g.nbuf, g.det)
        bufs = ('set', lambda o: band(S(g.kind, o) == 2, bnot(band(g.det != 0, o == held))), ['c64'])
    return [('field', q) + tuple(FIELDS), nodes, bufs]


def g_set(st, **kw):
    for k, v in kw.items():
        st.ghost[k] = v


def step_put(e, st, snap, q, why, L):
    """abstract transition of a put that takes place: append, or replace the newest block when full"""
    if why != 'unlock' or not st.ghost.get('putting', False):
        return


def release_common(cs, c, q, why, L):
    """obligations of every critical section"""
    g0, g1 = G(cs), G(c)
    qs, qn = q.in_(cs), q.in_(c)
    enabling = bor(bnot(g1.nq <= g0.nq), bnot(g1.nf <= g0.nf), qn.poison_pill != qs.poison_pill)
    out = [('a change others wait for is announced to all of them', imp(enabling, L.get('bcast', FALSE))),
           ('the shutdown mark is only ever set', bor(qn.poison_pill == qs.poison_pill, qn.poison_pill == 1))]
    return out


class QMon(Monitor):
    pass


def ghost_step(e, st, snap, q, why, L):
    step = e.con.opts.get('step')
    if step:
        step(e, st, snap, q, why, L)


def release(cs, c, q, why, L):
    out = release_common(cs, c, q, why, L)
    g0, g1 = G(cs), G(c)
    if not c.eng.con.opts.get('consumer'):
        out.append(('the block held by the consumer is not touched',
                    imp(g0.det != 0, band(g1.det == g0.det, S(c.st.mem['c64'], S(g0.nbuf, g0.det)) == S(cs.st.mem['c64'], S(g0.nbuf, g0.det))))))
    f = c.eng.con.opts.get('release')
    if f:
        out += f(cs, c, q, why, L)
    return out


MON = Monitor('queue_t', 'mutex', foot, inv, ghosts=CHANGING, ghost_step=ghost_step, release=release, cond='condition')


def acquire_ghosts(con):
    return [g for g in CHANGING if not (g == 'det' and con.opts.get('consumer'))]


Q = lambda c: c.queue


def qvalid(c):
    return c.queue.valid(1)


def immut(c):
    """before the lock is taken, only what never changes is known"""
    g = G(c)
    q = c.queue

    def per(n):
        v = node(c, n)
        b = S(g.nbuf, n)
        return imp(S(g.kind, n) == 1, band(n > 0, sel(c.st.alive, n), sel(c.st.alive, b), b > 0, S(g.owner, b) == n, S(g.kind, b) == 2))
    return band(q.valid(1), c.forall(per, pat=lambda n: [S(g.nbuf, n), S(g.side, n)]), *[f for _, f in ghost_static(c, q)])


# ---------------------------------------------------------------- put
def put_step(e, st, snap, q, why, L):
    """the only change put may make: append the block, or when full and not blocking replace the newest"""
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    g = G(c)
    s = Ctx(e, snap, e.top_args, e.top_tu, pre=e.top_pre)
    gs = G(s)
    if why == 'wait':
        return
    # decided on the abstract pre-state only; `done` says whether the path is a refusing one
    refuse = bor(band(q.in_(s).blocking != 0, q.in_(s).poison_pill == 1), band(gs.nf == 0, gs.nq == 0))
    app = band(bnot(refuse), gs.nf > 0)
    ovw = band(bnot(refuse), gs.nf == 0)
    n = S(gs.atf, gs.bf)
    at = gs.bq + gs.nq
    ln = e.top_args['len'][0]
    tgt = ite(app, n, S(gs.atq, at - 1))
    new = e.fresh('newrow', RowC)
    st.assume(new == S(st.mem['c64'], S(gs.nbuf, tgt)))
    idx = ite(app, at, at - 1)
    g_set(st,
          side=ite(app, z3.Store(gs.side, n, iv(2)), gs.side),
          pos=ite(app, z3.Store(gs.pos, n, at), gs.pos),
          bf=ite(app, gs.bf + 1, gs.bf), nf=ite(app, gs.nf - 1, gs.nf),
          atq=ite(app, z3.Store(gs.atq, at, n), gs.atq), nq=ite(app, gs.nq + 1, gs.nq),
          slen=ite(refuse, gs.slen, z3.Store(gs.slen, idx, ln)),
          srow=ite(refuse, gs.srow, z3.Store(gs.srow, idx, new)))
    st.ghost['refused'] = refuse
    st.ghost['puts'] = iv(1)
    st.ghost['p_row'] = new


def put_release(cs, c, q, why, L):
    g0 = G(cs)
    qs = q.in_(cs)
    if why == 'wait':
        return [('a producer waits only while the queue is full, in blocking mode, before shutdown',
                 band(qs.blocking != 0, g0.nf == 0, qs.poison_pill != 1)),
                ('waiting changes nothing', band(*[c.g(k) == cs.g(k) for k in CHANGING]))]
    p = c.pre.buffer
    src = c.eng.mapget(c.pre.st, 'c64', p.o)
    base = c.eng.index('c64', c.eng.top_args['buffer'][0].off)
    new = c.g('p_row')
    return [('an accepted block is a copy of what was given', imp(bnot(c.g('refused')), c.forall(
        lambda j: imp(band(j >= 0, j < c.pre.len), S(new, j) == S(src, j + base)), pat=lambda j: S(new, j)))),
            ('blocking mode never replaces a waiting block', imp(band(qs.blocking != 0, qs.poison_pill != 1), g0.nf > 0)),
            ('the shutdown mark is not touched', q.in_(c).poison_pill == qs.poison_pill)]


queue_put = Contract(
    'queue_put', ['buffer', 'len', 'queue'], file='queue.c',
    requires=[('the queue', immut), ('the block is readable', lambda c: imp(band(c.buffer.nn, c.len > 0), band(c.buffer.valid(c.len)))),
              ('the block is not inside the queue', lambda c: band(c.buffer.o != c.queue.o, S(c.g('kind'), c.buffer.o) == 0)),
              ('length fits memory', lambda c: c.len < (1 << 58))],
    ensures=[('accepted exactly when valid and neither refused nor too long',
              lambda c: (c.ret == 0) == band(c.buffer.nn, c.len > 0, c.len <= c.pre.queue.buffer_size, bnot(c.st.ghost.get('refused', FALSE)))),
             ('result is 0 or -1', lambda c: bor(c.ret == 0, c.ret == -1)),
             ('a refused or invalid block never reaches the queue', lambda c: imp(c.ret == 0, c.st.ghost.get('puts', iv(0)) == 1))],
    monitors=[(MON, Q)], frame=False, inv=[('not shut down', lambda c: c.queue.poison_pill != 1)], opts={'step': put_step, 'release': put_release})


# ---------------------------------------------------------------- take
def take_step(e, st, snap, q, why, L):
    s = Ctx(e, snap, e.top_args, e.top_tu, pre=e.top_pre)
    gs = G(s)
    if why == 'wait':
        return
    n = S(gs.atq, gs.bq)
    t = gs.nq > 0
    g_set(st, side=ite(t, z3.Store(gs.side, n, iv(3)), gs.side), bq=ite(t, gs.bq + 1, gs.bq), nq=ite(t, gs.nq - 1, gs.nq),
          det=ite(t, n, gs.det))
    st.ghost['t_taken'] = t
    st.ghost['t_len'] = S(gs.slen, gs.bq)
    st.ghost['t_row'] = S(gs.srow, gs.bq)
    st.ghost['t_poison'] = q.in_(s).poison_pill == 1


def take_release(cs, c, q, why, L):
    g0 = G(cs)
    qs = q.in_(cs)
    if why == 'wait':
        return [('the consumer waits only while nothing is waiting and before shutdown', band(g0.nq == 0, qs.poison_pill != 1)),
                ('waiting changes nothing', band(*[c.g(k) == cs.g(k) for k in CHANGING]))]
    return [('the consumer leaves empty-handed only when the queue is drained and shut down', imp(g0.nq == 0, qs.poison_pill == 1)),
            ('the shutdown mark is not touched', q.in_(c).poison_pill == qs.poison_pill)]


def taken_row(c):
    row = c.eng.mapget(c.st, 'c64', c.buffer[0].o)
    return imp(c.g('t_taken'), c.forall(lambda j: imp(band(j >= 0, j < c.g('t_len')), S(row, j) == S(c.g('t_row'), j)), pat=lambda j: S(row, j)))


take = Contract(
    'take_buffer_for_processing', ['buffer', 'len', 'queue'], file='queue.c',
    requires=[('the queue', immut), ('outputs are writable and separate', lambda c: band(c.buffer.valid(1), c.len.valid(1), c.buffer.o != c.queue.o, c.len.o != c.queue.o, c.buffer.o != c.len.o,
               S(c.g('kind'), c.buffer.o) == 0, S(c.g('kind'), c.len.o) == 0)),
              ('the consumer holds nothing', lambda c: c.g('det') == 0)],
    ensures=[('NULL exactly when drained after shutdown', lambda c: (c.buffer[0].o == 0) == bnot(c.g('t_taken'))),
             ('the oldest block is handed over', lambda c: imp(c.g('t_taken'), band(c.buffer[0].o == S(c.g('nbuf'), c.g('det')), c.buffer[0].f == 0, c.len[0] == c.g('t_len')))),
             ('with the samples that were put', taken_row)],
    monitors=[(MON, Q)], frame=False, inv=[('not shut down', lambda c: bor(c.queue.poison_pill != 1, c.g('nq') > 0))], opts={'step': take_step, 'release': take_release, 'consumer': True})


# ---------------------------------------------------------------- complete
def complete_step(e, st, snap, q, why, L):
    s = Ctx(e, snap, e.top_args, e.top_tu, pre=e.top_pre)
    gs = G(s)
    at = gs.bf + gs.nf
    g_set(st, side=z3.Store(gs.side, gs.det, iv(1)), pos=z3.Store(gs.pos, gs.det, at), atf=z3.Store(gs.atf, at, gs.det), nf=gs.nf + 1, det=iv(0))


complete = Contract(
    'complete_buffer_processing', ['queue'], file='queue.c',
    requires=[('the queue', immut), ('the consumer holds a block', lambda c: c.g('det') != 0)],
    ensures=[('the block is back in the pool', lambda c: c.g('det') == 0)],
    monitors=[(MON, Q)], frame=False,
    opts={'step': complete_step, 'consumer': True, 'release': lambda cs, c, q, why, L: [('the shutdown mark is not touched', q.in_(c).poison_pill == q.in_(cs).poison_pill)]})


# ---------------------------------------------------------------- shutdown
interrupt = Contract(
    'interrupt_waiting_the_data', ['queue'], file='queue.c',
    requires=[('the queue', lambda c: bor(c.queue.null, immut(c)))],
    ensures=[('the shutdown mark is set', lambda c: bor(c.queue.null, c.queue.poison_pill == 1))],
    monitors=[(MON, Q)], frame=False,
    opts={'release': lambda cs, c, q, why, L: [('shutdown leaves the blocks alone', band(*[c.g(k) == cs.g(k) for k in CHANGING]))]})


def env():
    e = Env()
    e.ghosts = dict(GH)
    e.kinds = ['po', 'pf', 'u64', 'i32', 'u32', 'u8', 'c64']
    for c in (queue_put, take, complete, interrupt):
        e.contracts[c.name] = c
    return e
