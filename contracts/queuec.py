"""Construction and destruction of the hand-over queue (same ghost state as contracts/queue.py, no other thread yet / any more).

Construction establishes the lock invariant of contracts/queue.py with every node in the free chain; destruction, started in any
state that satisfies that invariant, releases exactly the queue, its nodes and their buffers.
Ghost code: allocating a buffer registers it with the node allocated before it (the node enters the free chain).
"""
from vc.sym import *
from vc.spec import *
from contracts.queue import GH as QG, S, node, G, shape, content
from contracts.ctor import m_malloc as malloc_oom

GH = dict(QG, oom=B, last=I)


def m_malloc(e, st, a, at, rt):
    p = malloc_oom(e, st, a, at, rt)
    if e.con.name == 'create_queue':
        g = st.ghost
        o = st.brk - 1
        if isnum(a[0]):
            g['last'] = o
        else:
            n, ok, k = g['last'], bnot(e.isnull(p)), g['nf']
            for m, i, v in (('nbuf', n, o), ('owner', o, n), ('kind', n, iv(1)), ('side', n, iv(1)), ('pos', n, k), ('atf', k, n)):
                g[m] = z3.If(ok, z3.Store(g[m], i, v), g[m])
            g['kind'] = z3.If(ok, z3.Store(g['kind'], o, iv(2)), g['kind'])
            g['n0'] = z3.If(band(ok, k == 0), n, g['n0'])
            g['nf'] = ite(ok, k + 1, k)
    return p


def m_lock(e, st, a, at, rt):
    return iv(0)


def inside(c, s):
    g = G(c)
    return lambda o: bor(band(S(g.kind, o) == 1, S(g.side, o) == s), band(S(g.kind, o) == 2, S(g.side, S(g.owner, o)) == s))


def place(c):
    """the node a block belongs to"""
    g = G(c)
    return lambda o: ite(S(g.kind, o) == 1, o, S(g.owner, o))


def chain(c, s, size=None):
    """the nodes of side s: live, with a live buffer of their own, linked in order of their positions"""
    g = G(c)
    lo, n = ite(s == 1, g.bf, g.bq), ite(s == 1, g.nf, g.nq)
    at = lambda i: ite(s == 1, S(g.atf, i), S(g.atq, i))

    def per(x):
        v, b, p = node(c, x), S(g.nbuf, x), S(g.pos, x)
        w = v.next
        return imp(band(S(g.kind, x) == 1, S(g.side, x) == s), band(
            x > 0, v.whole(1), b > 0, v.buffer.o == b, v.buffer.f == 0, S(g.owner, b) == x, S(g.kind, b) == 2, c.alive(b), *([sel(c.st.size, b) >= 8 * size] if size is not None else []),
            p >= lo, p < lo + n, at(p) == x, w.f == 0, (w.o == 0) == (p == lo + n - 1),
            imp(w.o != 0, band(S(g.kind, w.o) == 1, S(g.side, w.o) == s, S(g.pos, w.o) == p + 1))))
    return band(c.forall(per, pat=lambda x: [S(g.side, x), S(g.nbuf, x)]), n >= 0,
                c.forall(lambda b: imp(S(g.kind, b) == 2, band(S(g.kind, S(g.owner, b)) == 1, S(g.nbuf, S(g.owner, b)) == b)), pat=lambda b: S(g.owner, b)))


def starts(c, v, s):
    """v is the first node of side s"""
    g = G(c)
    lo, n = ite(s == 1, g.bf, g.bq), ite(s == 1, g.nf, g.nq)
    return band(v.f == 0, ite(v.null, n == 0, band(n > 0, S(g.kind, v.o) == 1, S(g.side, v.o) == s, S(g.pos, v.o) == lo)))


def side_of(c, v):
    return ite(v.o == 0, iv(0), S(c.g('side'), v.o))


def left(c, cur, s):
    """released: what precedes cur"""
    g = G(c)
    p = S(g.pos, cur.o)
    q = place(c)
    return c.forall(lambda o: c.alive(o) == band(c.pre.alive(o), bnot(band(inside(c, s)(o), bor(cur.null, S(g.pos, q(o)) < p)))), pat=lambda o: c.alive(o))


N0 = lambda c: c.pre.nodes
destroy_nodes = Contract(
    'destroy_nodes', ['nodes'], file='queue.c',
    requires=[('a chain', lambda c: imp(c.nodes.nn, band(bor(side_of(c, c.nodes) == 1, side_of(c, c.nodes) == 2), chain(c, side_of(c, c.nodes)), starts(c, c.nodes, side_of(c, c.nodes)))))],
    ensures=[('every node of the chain and its buffer are released', lambda c: imp(N0(c).nn, c.forall(lambda o: imp(inside(c.pre, side_of(c.pre, N0(c)))(o), bnot(c.alive(o))), pat=lambda o: c.alive(o))))],
    frees=lambda c: [('set', lambda o: band(c.nodes.nn, inside(c, side_of(c, c.nodes))(o)))],
    inv=[('released so far', lambda c, cur: band(imp(N0(c).null, band(cur.null, c.st.alive == c.pre.st.alive)), imp(N0(c).nn, band(left(c, cur, side_of(c.pre, N0(c))), cur.f == 0, imp(cur.nn, band(S(c.g('kind'), cur.o) == 1, S(c.g('side'), cur.o) == side_of(c.pre, N0(c))))))), {'cur': 'ptr:struct queue_node'})])

QH = lambda c: c.queue[0]
NEWG = ['kind', 'nbuf', 'owner', 'side', 'pos', 'atf', 'nf', 'n0', 'last', 'oom']


def none_yet(c):
    g = G(c)
    z = lambda m: c.forall(lambda o: S(m, o) == 0, pat=lambda o: S(m, o))
    return band(z(g.kind), z(g.nbuf), z(g.owner), z(g.side), g.bf == 0, g.nf == 0, g.bq == 0, g.nq == 0, g.det == 0, bnot(c.g('oom')))


def only(c, f):
    return c.forall(lambda o: imp(band(o >= c.pre.st.brk, c.alive(o)), f(o)), pat=lambda o: c.alive(o))


def registered(c, k):
    """k nodes in the free chain, all new"""
    g = G(c)
    return band(g.nf == k, g.nf >= 0, chain(c, iv(1), c.buffer_size),
                c.forall(lambda o: imp(S(g.kind, o) == 0, band(S(g.owner, o) == 0, S(g.nbuf, o) == 0)), pat=lambda o: S(g.kind, o)),
                c.forall(lambda o: imp(S(g.kind, o) != 1, S(g.nbuf, o) == 0), pat=lambda o: S(g.nbuf, o)),
                c.forall(lambda o: imp(S(g.kind, o) != 2, S(g.owner, o) == 0), pat=lambda o: S(g.owner, o)),
                c.forall(lambda o: imp(S(g.kind, o) != 0, band(o > T0(c), bor(S(g.kind, o) == 2, band(S(g.kind, o) == 1, S(g.side, o) == 1)), o < c.st.brk)), pat=lambda o: S(g.kind, o)),
                c.forall(lambda i: imp(band(i >= 0, i < g.nf), band(S(g.kind, S(g.atf, i)) == 1, S(g.side, S(g.atf, i)) == 1, S(g.pos, S(g.atf, i)) == i)), pat=lambda i: S(g.atf, i)),
                imp(k > 0, g.n0 == S(g.atf, iv(0))))


def T0(c):
    return c.pre.st.brk


def newblocks(c):
    g = G(c)
    return lambda o: bor(o == T0(c), S(g.kind, o) != 0)


def end(c, v, k, i):
    return band(v.f == 0, ite(k == 0, v.null, band(v.o == S(c.g('atf'), i), v.nn)))


create = Contract(
    'create_queue', ['buffer_size', 'queue_size', 'blocking', 'queue'], file='queue.c', opts={'effort': 2},
    requires=[('the result is writable', lambda c: c.queue.valid(1)), ('no queue yet', none_yet)],
    ensures=[('success gives a new queue', lambda c: imp(c.ret == 0, band(c.fresh_obj(QH(c).o), QH(c).whole(1), QH(c).buffer_size == c.buffer_size, QH(c).blocking == c.blocking, QH(c).poison_pill == 0))),
             ('every block is free, none is waiting or held', lambda c: imp(c.ret == 0, band(c.g('nf') == c.queue_size, c.g('nq') == 0, c.g('det') == 0))),
             ('it fails exactly for a zero size or without memory', lambda c: (c.ret != 0) == bor(c.buffer_size == 0, c.queue_size == 0, c.g('oom'))),
             ('a failure hands out nothing', lambda c: imp(c.ret != 0, QH(c).eq(c.pre.queue[0])))],
    modifies=lambda c: [('cell', c.queue)] + [('ghost', g) for g in NEWG], allocs=True,
    leak=lambda c: [('set', lambda o: band(c.ret == 0, bor(o == QH(c).o, S(c.g('kind'), o) != 0)))],
    inv=[('nodes so far', lambda c, i: band(i >= 0, registered(c, i), bnot(c.g('oom')), QH(c).eq(c.pre.queue[0])), {'i': 'mod'}),
         ('nothing else', lambda c: band(only(c, newblocks(c)), c.alive(T0(c)), c.forall(lambda o: imp(o < T0(c), c.alive(o) == c.pre.alive(o)), pat=lambda o: c.alive(o)))),
         ('first of the chain', lambda c, a: end(c, a, c.g('nf'), iv(0)), {'a': 'ptr:struct queue_node'}),
         ('last of the chain', lambda c, b: end(c, b, c.g('nf'), c.g('nf') - 1), {'b': 'ptr:struct queue_node'})])
create.ensures += [('the invariant of the queue holds from the start (%d)' % k, lambda c, k=k: imp(c.ret == 0, (shape(c, QH(c)) + content(c, QH(c)))[k][1])) for k in range(12)]


def env():
    e = Env()
    e.ghosts = dict(GH)
    e.kinds = ['po', 'pf', 'u64', 'i32', 'u32', 'u8', 'i8', 'i16', 'i64', 'c64']
    e.models.update(malloc=m_malloc, pthread_mutex_lock=m_lock, pthread_mutex_unlock=m_lock)
    for c in (destroy_nodes, create, destroy):
        e.contracts[c.name] = c
    return e


def whole_queue(c, q):
    g = G(c)
    return lambda o: bor(band(o != 0, o == q.o), S(g.kind, o) == 1, S(g.kind, o) == 2)


destroy = Contract(
    'destroy_queue', ['queue'], file='queue.c',
    requires=[('a queue no thread uses any more', lambda c: band(c.queue.whole(1), c.queue.o > 0, *[f for _, f in shape(c, c.queue)], c.forall(lambda n: imp(S(c.g('kind'), n) == 1, band(node(c, n).whole(1), node(c, n).buffer.whole(0))), pat=lambda n: S(c.g('side'), n))))],
    ensures=[('queue, nodes and buffers are released', lambda c: c.forall(lambda o: imp(whole_queue(c.pre, c.pre.queue)(o), bnot(c.alive(o))), pat=lambda o: c.alive(o)))],
    frees=lambda c: [('set', whole_queue(c, c.queue))])
