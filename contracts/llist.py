"""linked_list.c: the registry of active streams.

The list is described by ghost functions that are fixed during a call: node(0) .. node(N-1) are its elements in order
(pos is the inverse of node), keep(i) says that the caller's selector does not choose element i, nk(i) is the first kept
index from i on (N if none).  Callbacks are modelled by what they are told: the destructor of an element counts in the
ghost gone[data], a visitor in visits.  Assumption: the callbacks do not change the list itself (they are given elements).
"""
from vc.sym import *
from vc.eng import uf
from vc.spec import *
from vc.cast import Unsupported

AI = z3.ArraySort(I, I)
S = z3.Select
GH = {'gone': AI, 'visits': I}
N = z3.Const('list_n', I)
node = uf('list_node', I, I)
pos = uf('list_pos', I, I)
pdata = uf('list_pos_of_data', I, I)
chosen = uf('selector_chooses', I, B)
nk = uf('next_kept', I, I)
LT = 'struct linked_list_t'


def nd(c, i):
    return c.obj(node(i), LT)


def keep(c, i):
    return bnot(chosen(nd(c.pre, i).data.o))


def head(c):
    return c.list if c._args['list'][1].to.k == 'struct' else c.list[0]


def rep(c, first=None):
    """the list before the call"""
    h = head(c) if first is None else first

    def el(i):
        v = nd(c, i)
        o = node(i)
        return imp(band(i >= 0, i < N), band(o > 0, o < c.st.brk, v.whole(1), pos(o) == i, v.next.f == 0))
    f = [('elements', band(N >= 0, node(N) == 0, pos(iv(0)) == N, h.o == node(iv(0)), h.f == 0, c.forall(el, pat=lambda i: node(i)))),
         ('linked in order', c.forall(lambda i: imp(band(i >= 0, i < N), nd(c, i).next.o == node(i + 1)), pat=lambda i: nd(c, i).next.o))]
    return f


def distinct(c):
    """no stream is registered twice; a stream is no list element"""
    def el(i):
        d = nd(c, i).data
        return imp(band(i >= 0, i < N), band(d.f == 0, d.o > 0, pdata(d.o) == i, bnot(band(node(pos(d.o)) == d.o, pos(d.o) >= 0, pos(d.o) < N))))
    return ('no stream is registered twice', c.forall(el, pat=lambda i: nd(c, i).data.o))


def selection(c):
    """definition of the next kept index"""
    def d1(i):
        return imp(band(i >= 0, i <= N), band(nk(i) >= i, nk(i) <= N, imp(nk(i) < N, keep(c, nk(i)))))
    j = z3.Const('sj?', I)
    k = z3.Const('sk?', I)
    return band(c.forall(d1, pat=lambda i: nk(i)),
                fa([j, k], imp(band(j >= 0, j <= k, k < N, keep(c, k)), nk(j) <= k), patterns=[z3.MultiPattern(nk(j), node(k))]),
                nk(N) == N)


def reqs(c, extra=()):
    return rep(c) + list(extra)


def R(name, sel_=False):
    out = [('the list: ' + n, (lambda n: lambda c: dict(rep(c))[n])(n)) for n in ('elements', 'linked in order')]
    out.append(('no stream is registered twice', lambda c: distinct(c)[1]))
    out.append(('nothing was destroyed yet', lambda c: band(c.g('visits') == 0, c.forall(lambda i: imp(band(i >= 0, i < N), S(c.g('gone'), nd(c, i).data.o) == 0), pat=lambda i: nd(c, i).data.o))))
    return out


def listcell(c):
    return band(c.list.valid(1), bnot(band(node(pos(c.list.o)) == c.list.o, pos(c.list.o) >= 0, pos(c.list.o) < N)))


def unchanged(c):
    """every element is alive and has what it had"""
    def el(i):
        v, w = nd(c, i), nd(c.pre, i)
        return imp(band(i >= 0, i < N), band(sel(c.st.alive, node(i)), v.next.o == w.next.o, v.data.o == w.data.o, v.data.f == w.data.f, v.destructor.o == w.destructor.o))
    return c.forall(el, pat=lambda i: node(i))


def nodes(o):
    return band(pos(o) >= 0, pos(o) < N, node(pos(o)) == o)


# ---------------------------------------------------------------- callbacks
def indirect(e, st, fp, args, atypes, rt, n):
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    names = c._args
    if 'selector' in names and rt.k == 'int':
        e.oblige(st, band(fp.obj == c.selector.o), 'the selector of the caller decides', 'order')
        if 'id' in names:
            e.oblige(st, band(args[0].obj == c.id.o, args[0].off == c.id.f), 'with the id of the caller', 'order')
        d = args[-1]
        e.oblige(st, band(S(st.ghost['gone'], d.obj) == 0, nodes_data(c, d.obj)), 'the selector is asked about a live registered stream', 'order')
        return ite(chosen(d.obj), iv(1), iv(0))
    if 'foreach' in names:
        e.oblige(st, fp.obj == c.foreach.o, 'the callback of the caller is used', 'order')
        e.oblige(st, band(args[0].obj == c.arg.o, args[0].off == c.arg.f), 'with the argument of the caller', 'order')
        v = st.ghost['visits']
        e.oblige(st, band(v < N, args[1].obj == nd(c.pre, v).data.o, args[1].off == 0), 'every stream is visited once, in order', 'order')
        st.ghost['visits'] = v + 1
        return None
    d = args[0]
    i = pdata(d.obj)
    e.oblige(st, band(nodes_data(c, d.obj), S(st.ghost['gone'], d.obj) == 0, d.off == 0), 'a registered stream is destroyed at most once', 'order')
    e.oblige(st, fp.obj == nd(c.pre, i).destructor.o, 'by its own destructor', 'order')
    st.ghost['gone'] = z3.Store(st.ghost['gone'], d.obj, S(st.ghost['gone'], d.obj) + 1)
    return None


def nodes_data(c, o):
    i = pdata(o)
    return band(i >= 0, i < N, nd(c.pre, i).data.o == o)


# ---------------------------------------------------------------- contracts
def at_cur(c, cur, sel_=True):
    i = pos(cur.o)
    return band(cur.f == 0, i >= 0, i <= N, cur.o == node(i))


def none_before(c, cur):
    return c.forall(lambda i: imp(band(i >= 0, i < pos(cur.o)), keep(c, i)), pat=lambda i: nd(c.pre, i).data.o)


first = uf('first_chosen', I)
FIRST = z3.Const('first_chosen', I)


def first_def(c):
    return band(FIRST >= 0, FIRST <= N, imp(FIRST < N, bnot(keep(c, FIRST))), c.forall(lambda i: imp(band(i >= 0, i < FIRST), keep(c, i)), pat=lambda i: nd(c.pre, i).data.o))


def gone_only(c, o=None):
    """exactly element `o` (none) was destroyed"""
    def el(x):
        return S(c.g('gone'), x) == S(c.pre.g('gone'), x) + (iv(0) if o is None else ite(x == o, iv(1), iv(0)))
    return c.forall(el, pat=lambda x: S(c.g('gone'), x))


find = Contract(
    'linked_list_find', ['id', 'selector', 'list'], file='linked_list.c',
    requires=R('find') + [('the first chosen element', first_def)],
    ensures=[('the first chosen stream, or none', lambda c: ite(FIRST < N, band(c.ret.o == nd(c.pre, FIRST).data.o, c.ret.f == 0), c.ret.o == 0))],
    inv=[('position', at_cur, {'cur': 'ptr:' + LT}), ('none before', none_before, {'cur': 'ptr:' + LT})])

foreach = Contract(
    'linked_list_foreach', ['arg', 'foreach', 'list'], file='linked_list.c',
    requires=R('foreach'),
    ensures=[('every stream was visited', lambda c: c.g('visits') == N)],
    modifies=lambda c: [('ghost', 'visits')],
    inv=[('position', lambda c, cur: band(at_cur(c, cur), c.g('visits') == pos(cur.o)), {'cur': 'ptr:' + LT})])


def add_post(c):
    new = ite(N == 0, c.list[0].o, nd(c, N - 1).next.o)
    v = c.obj(new, LT)
    return imp(c.ret == 0, band(
        c.fresh_obj(new), imp(N > 0, band(c.list[0].o == node(iv(0)), nd(c, N - 1).next.f == 0)), c.list[0].f == 0,
        v.next.o == 0, v.data.o == c.data.o, v.data.f == c.data.f, v.destructor.o == c.destructor.o))


def elements_kept(c, but_next_of=None):
    def el(i):
        v, w = nd(c, i), nd(c.pre, i)
        nx = v.next.o == w.next.o
        if but_next_of is not None:
            nx = bor(nx, i == but_next_of)
        return imp(band(i >= 0, i < N), band(sel(c.st.alive, node(i)), nx, v.data.o == w.data.o, v.data.f == w.data.f, v.destructor.o == w.destructor.o))
    return c.forall(el, pat=lambda i: node(i))


add = Contract(
    'linked_list_add', ['data', 'destructor', 'list'], file='linked_list.c',
    requires=R('add') + [('the list cell', listcell)],
    ensures=[('the stream becomes the last element', add_post), ('all others stay', lambda c: imp(c.ret == 0, elements_kept(c, N - 1))),
             ('a failed addition changes nothing', lambda c: imp(c.ret != 0, band(elements_kept(c), c.list[0].o == c.pre.list[0].o))),
             ('failure is negative', lambda c: c.ret <= 0),
             ('nothing is destroyed', lambda c: gone_only(c))],
    modifies=lambda c: [('cell', c.list), ('set', lambda o: band(N > 0, o == node(N - 1)), ['po', 'pf'])], allocs=True,
    leak=lambda c: [('set', lambda o: band(c.ret == 0, o == ite(N == 0, c.list[0].o, nd(c, N - 1).next.o)))],
    inv=[('position', lambda c, cur: band(at_cur(c, cur), pos(cur.o) < N), {'cur': 'ptr:' + LT})])


def without(c, k):
    """the list is the old one without element k"""
    def el(i):
        v, w = nd(c, i), nd(c.pre, i)
        return imp(band(i >= 0, i < N, i != k), band(sel(c.st.alive, node(i)), v.next.f == 0, v.data.o == w.data.o, v.data.f == w.data.f, v.destructor.o == w.destructor.o,
                                                    v.next.o == ite(i == k - 1, node(k + 1), w.next.o)))
    return band(c.forall(el, pat=lambda i: node(i)), c.list[0].o == ite(k == 0, node(iv(1)), node(iv(0))), c.list[0].f == 0,
                bnot(sel(c.st.alive, node(k))))


def prev_ok(c, prev, cur):
    i = pos(cur.o)
    return band(prev.f == 0, ite(i == 0, prev.o == 0, prev.o == node(i - 1)))


REMI = [('position', at_cur, {'cur': 'ptr:' + LT}), ('none before', none_before, {'cur': 'ptr:' + LT}), ('previous', prev_ok, {'prev': 'ptr:' + LT, 'cur': 'ptr:' + LT})]
RMODS = lambda c: [('cell', c.list), ('set', nodes, ['po', 'pf'])]
RFREES = lambda c: [('set', nodes)]

remove = Contract(
    'linked_list_remove_by_id', ['id', 'selector', 'list'], file='linked_list.c',
    requires=R('remove') + [('the list cell', listcell), ('the first chosen element', first_def)],
    ensures=[('the first chosen element, and only that, is taken out', lambda c: ite(FIRST < N, without(c, FIRST), band(elements_kept(c), c.list[0].o == c.pre.list[0].o))),
             ('its stream is handed to the caller', lambda c: ite(FIRST < N, band(c.ret.o == nd(c.pre, FIRST).data.o, c.ret.f == 0), c.ret.o == 0)),
             ('nothing is destroyed', lambda c: gone_only(c))],
    modifies=RMODS, frees=RFREES, inv=REMI)

destroy_by_id = Contract(
    'linked_list_destroy_by_id', ['id', 'selector', 'list'], file='linked_list.c',
    requires=R('remove') + [('the list cell', listcell), ('the first chosen element', first_def)],
    ensures=[('the first chosen element, and only that, is taken out', lambda c: ite(FIRST < N, without(c, FIRST), band(elements_kept(c), c.list[0].o == c.pre.list[0].o))),
             ('exactly its stream is destroyed', lambda c: ite(FIRST < N, gone_only(c, nd(c.pre, FIRST).data.o), gone_only(c)))],
    modifies=lambda c: RMODS(c) + [('ghost', 'gone')], frees=RFREES, inv=REMI)


# several elements may go
def filtered(c, p):
    """elements before p: the kept ones are linked among each other, the last of them leads to element p; from p on as before"""
    def el(i):
        v, w = nd(c, i), nd(c.pre, i)
        nxt = ite(i >= p, w.next.o, ite(nk(i + 1) < p, node(nk(i + 1)), node(p)))
        return imp(band(i >= 0, i < N, bor(i >= p, keep(c, i))), band(sel(c.st.alive, node(i)), v.next.f == 0, v.next.o == nxt, v.data.o == w.data.o, v.data.f == w.data.f, v.destructor.o == w.destructor.o))
    k0 = nk(iv(0))
    return [('kept elements', c.forall(el, pat=lambda i: node(i))),
            ('head', band(c.list[0].f == 0, c.list[0].o == ite(k0 < p, node(k0), node(p)))),
            ('removed elements', c.forall(lambda i: imp(band(i >= 0, i < p, bnot(keep(c, i))), bnot(sel(c.st.alive, node(i)))), pat=lambda i: node(i))),
            ('destroyed streams', c.forall(lambda i: imp(band(i >= 0, i < N), S(c.g('gone'), nd(c.pre, i).data.o) == ite(band(i < p, bnot(keep(c, i))), iv(1), iv(0))), pat=lambda i: nd(c.pre, i).data.o))]


def F(c, n, p):
    return dict(filtered(c, p))[n]


def lastkept(c, prev, cur):
    i, q = pos(cur.o), pos(prev.o)
    return band(prev.f == 0, ite(prev.o == 0, nk(iv(0)) >= i, band(q >= 0, q < i, prev.o == node(q), keep(c, q), nk(q + 1) >= i)))


def rest_alive(c):
    return c.forall(lambda o: imp(bnot(nodes(o)), sel(c.st.alive, o) == sel(c.pre.st.alive, o)), pat=lambda o: z3.Select(c.st.alive, o))


NM = ('kept elements', 'head', 'removed elements', 'destroyed streams')
destroy_by_selector = Contract(
    'linked_list_destroy_by_selector', ['selector', 'list'], file='linked_list.c',
    requires=R('remove') + [('the list cell', listcell), ('the selection', selection)],
    ensures=[(n, (lambda n: lambda c: F(c, n, N))(n)) for n in NM],
    modifies=lambda c: RMODS(c) + [('ghost', 'gone')], frees=RFREES,
    inv=[('position', at_cur, {'cur': 'ptr:' + LT}), ('previous', lastkept, {'prev': 'ptr:' + LT, 'cur': 'ptr:' + LT})] +
        [('everything else lives on', rest_alive)] + [(n, (lambda n: lambda c, cur: F(c, n, pos(cur.o)))(n), {'cur': 'ptr:' + LT}) for n in NM])


def all_before(c, p):
    return band(c.forall(lambda i: imp(band(i >= 0, i < N), sel(c.st.alive, node(i)) == (i >= p)), pat=lambda i: node(i)),
                c.forall(lambda i: imp(band(i >= 0, i < N), S(c.g('gone'), nd(c.pre, i).data.o) == ite(i < p, iv(1), iv(0))), pat=lambda i: nd(c.pre, i).data.o))


destroy = Contract(
    'linked_list_destroy', ['list'], file='linked_list.c',
    requires=R('destroy'),
    ensures=[('every element is released, every stream destroyed, once', lambda c: all_before(c, N))],
    modifies=lambda c: [('ghost', 'gone')], frees=RFREES,
    inv=[('position', at_cur, {'cur': 'ptr:' + LT}), ('everything else lives on', rest_alive), ('progress', lambda c, cur: all_before(c, pos(cur.o)), {'cur': 'ptr:' + LT})])


def env():
    e = Env()
    e.ghosts = dict(GH)
    e.kinds = ['po', 'pf']
    e.indirect = indirect
    for c in (find, foreach, add, remove, destroy_by_id, destroy_by_selector, destroy):
        e.contracts[c.name] = c
    return e
