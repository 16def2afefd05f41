"""Sockets: models of recv/write over ghost byte streams, and the contracts of tcp_utils.c."""
from vc.sym import *
from vc.eng import uf
from vc.spec import *
from vc.cast import Unsupported

ARR = z3.ArraySort(I, I)
ARR2 = z3.ArraySort(I, ARR)


def rxb(fd, pos):
    """the byte at position pos of the stream received on socket fd"""
    r = uf('rx_byte', I, I, I)(fd, pos)
    return r


def byte_row(e, st, p):
    return e.mapget(st, 'u8', p.obj)


def m_recv(e, st, a, at, rt):
    fd, p, n, fl = a
    if not (isnum(fl) and num(fl) in (0, 0x100)):
        raise Unsupported('recv flags')
    e.oblige(st, bor(eqi(n, iv(0)), e.valid_goal(st, p, n)), 'recv stays inside the buffer', 'mem')
    r = e.fresh('received')
    e.havoc_errno(st)
    st.assume(band(r >= -1, r <= n))
    got = ite(r > 0, r, iv(0)) if not isnum(r) else r
    g = e.fresh('got')
    st.assume(band(g >= 0, imp(r > 0, g == r), imp(r <= 0, g == 0)))
    pos = sel(st.ghost['rxpos'], fd)
    for k in e.kinds:
        old = e.mapget(st, k, p.obj)
        row = e.fresh('rx_' + k, z3.ArraySort(I, SORT[k]))
        lo_p, hi_p, lo_f, hi_f = e.brange(k, p.off, g)
        j = z3.Const('j', I)
        inp = band(lo_p <= j, j < hi_p)
        body = z3.Implies(bnot(inp), z3.Select(row, j) == z3.Select(old, j))
        if k == 'u8':
            body = band(body, z3.Implies(inp, z3.Select(row, j) == rxb(fd, pos + (j - p.off))))
        st.assume(fa([j], body, patterns=[z3.Select(row, j)]))
        st.mem[k] = sto(st.mem[k], p.obj, row)
    st.ghost['rxpos'] = sto(st.ghost['rxpos'], fd, add(pos, g))
    # a blocking receive that returns 0 for a non-empty buffer means that the peer has closed
    cl = sel(st.ghost['rxend'], fd)
    st.ghost['rxend'] = sto(st.ghost['rxend'], fd, ite(band(r <= 0, n > 0), ite(r == 0, iv(1), iv(2)), cl))
    return r


def m_read(e, st, a, at, rt):
    return m_recv(e, st, a + [iv(0)], at, rt)


def m_write(e, st, a, at, rt):
    fd, p, n = a[0], a[1], a[2]
    e.oblige(st, bor(eqi(n, iv(0)), e.valid_goal(st, p, n)), 'write stays inside the buffer', 'mem')
    r = e.fresh('written')
    e.havoc_errno(st)
    st.assume(band(r >= -1, r <= n, imp(n > 0, r != 0)))
    g = e.fresh('sent')
    st.assume(band(g >= 0, imp(r > 0, g == r), imp(r <= 0, g == 0)))
    pos = sel(st.ghost['txpos'], fd)
    old = sel(st.ghost['tx'], fd)
    row = e.fresh('txrow', ARR)
    src = byte_row(e, st, p)
    j = z3.Const('j', I)
    st.assume(fa([j], z3.Select(row, j) == ite(band(j >= pos, j < pos + g), z3.Select(src, j - pos + p.off), z3.Select(old, j)), patterns=[z3.Select(row, j)]))
    st.ghost['tx'] = sto(st.ghost['tx'], fd, row)
    st.ghost['txpos'] = sto(st.ghost['txpos'], fd, add(pos, g))
    return r


GHOSTS = {'rxpos': ARR, 'rxend': ARR, 'txpos': ARR, 'tx': ARR2}
MODELS = {'recv': m_recv, 'read': m_read, 'write': m_write, 'send': m_write}
EAGAIN = 11


def rx(c, fd):
    return sel(c.g('rxpos'), fd)


def delta(c):
    return sub(rx(c, c.sock), rx(c.pre, c.sock))


def bytes_are_stream(c, p, n):
    """the first n bytes at p are the next n bytes of the stream"""
    row = c.eng.mapget(c.st, 'u8', p.p.obj)
    return c.forall(lambda j: z3.Select(row, j) == rxb(c.sock, rx(c.pre, c.sock) + (j - p.p.off)),
                    p.p.off, add(p.p.off, n), pat=lambda j: z3.Select(row, j))


def only_sock(c, g):
    f = z3.Const('fd?', I)
    return fa([f], imp(f != c.sock, z3.Select(c.g(g), f) == z3.Select(c.pre.g(g), f)), patterns=[z3.Select(c.g(g), f)])


read_partially = Contract(
    'tcp_utils_read_data_partially', ['result', 'len', 'actually', 'sock'], file='tcp_utils.c',
    requires=[('the buffer holds the requested bytes', lambda c: imp(c.len > 0, c.result.valid(c.len))),
              ('the length fits a signed size', lambda c: c.len < (1 << 62)),
              ('the result counter is writable and outside the buffer', lambda c: band(c.actually.valid(1), c.actually.o != c.result.o))],
    ensures=[
        ('the counter is the number of bytes taken from the stream', lambda c: c.actually[0] == delta(c)),
        ('never more than requested is taken', lambda c: band(delta(c) >= 0, delta(c) <= c.len)),
        ('success means everything was read', lambda c: imp(c.ret == 0, delta(c) == c.len)),
        ('failure is reported when something is missing', lambda c: imp(delta(c) < c.len, c.ret < 0)),
        ('all bytes read means success', lambda c: imp(delta(c) == c.len, c.ret == 0)),
        ('the buffer holds the consumed bytes in order', lambda c: bytes_are_stream(c, c.result, delta(c))),
        ('a closed connection is never reported as a timeout', lambda c: imp(sel(c.g('rxend'), c.sock) == 1, bor(c.ret == 0, c.ret == -1))),
        ('other sockets are untouched', lambda c: band(only_sock(c, 'rxpos'), only_sock(c, 'rxend'))),
    ],
    modifies=lambda c: [('bytes', c.result, 0, c.len), ('cell', c.actually), ('ghost', 'rxpos'), ('ghost', 'rxend')],
    inv=[
        ('rest', lambda c, l: band(l >= 0, l <= c.len, delta(c) == c.len - l), {'l': 'int'}),
        ('content', lambda c: bytes_are_stream(c, c.result, delta(c))),
        ('others', lambda c: band(only_sock(c, 'rxpos'), only_sock(c, 'rxend'))),
        ('code', lambda c, k: k == 0, {'k': 'int'}),
        ('open', lambda c: bor(sel(c.g('rxend'), c.sock) != 1, eqi(delta(c), c.len) if False else FALSE, sel(c.g('rxend'), c.sock) == sel(c.pre.g('rxend'), c.sock))),
        ('rowframe', lambda c: outside_same(c)),
    ])


def outside_same(c):
    return TRUE


def le(f):
    return f(0) + 256 * f(1) + 65536 * f(2) + 16777216 * f(3)


def le_rx(c):
    if 'u32@2' not in c.eng.kinds:
        return TRUE
    w = c.eng.mapget(c.st, 'u32@2', c.result.o)
    b = lambda i: rxb(c.sock, rx(c.pre, c.sock) + 2 + i)
    return imp(band(c.result.f == 0, delta(c) >= 6), band(z3.Select(w, iv(0)) == le(b), *[band(b(i) >= 0, b(i) < 256) for i in range(4)]))


def le_tx(c):
    if 'u32@2' not in c.eng.kinds:
        return TRUE
    w = c.pre.eng.mapget(c.pre.st, 'u32@2', c.buffer.p.obj)
    row = sel(c.g('tx'), c.sock)
    p0 = sel(c.pre.g('txpos'), c.sock)
    b = lambda i: z3.Select(row, p0 + 2 + i)
    return imp(band(c.buffer.f == 0, sent(c) >= 6), band(z3.Select(w, iv(0)) == le(b), *[band(b(i) >= 0, b(i) < 256) for i in range(4)]))


read_data = Contract(
    'tcp_utils_read_data', ['result', 'len', 'sock'], file='tcp_utils.c',
    requires=[('the buffer holds the requested bytes', lambda c: imp(c.len > 0, c.result.valid(c.len))),
              ('the length fits a signed size', lambda c: c.len < (1 << 62))],
    ensures=[
        ('never more than requested is taken', lambda c: band(delta(c) >= 0, delta(c) <= c.len)),
        ('success exactly when everything was read', lambda c: (c.ret == 0) == (delta(c) == c.len)),
        ('an error is negative', lambda c: c.ret <= 0),
        ('a message cut short is never reported as an idle connection', lambda c: imp(delta(c) > 0, bor(c.ret == 0, c.ret == -1))),
        ('a closed connection is never reported as a timeout', lambda c: imp(sel(c.g('rxend'), c.sock) == 1, bor(c.ret == 0, c.ret == -1))),
        ('the buffer holds the consumed bytes in order', lambda c: bytes_are_stream(c, c.result, delta(c))),
        ('other sockets are untouched', lambda c: band(only_sock(c, 'rxpos'), only_sock(c, 'rxend'))),
    ],
    modifies=lambda c: [('bytes', c.result, 0, c.len), ('ghost', 'rxpos'), ('ghost', 'rxend')],
    bridge=[('a 32-bit field of a received header is the little-endian value of its four bytes', lambda c: le_rx(c))])


def sent(c):
    return sub(sel(c.g('txpos'), c.sock), sel(c.pre.g('txpos'), c.sock))


def tx_is_buffer(c, n):
    row = sel(c.g('tx'), c.sock)
    old = sel(c.pre.g('tx'), c.sock)
    p0 = sel(c.pre.g('txpos'), c.sock)
    buf = c.pre.eng.mapget(c.pre.st, 'u8', c.buffer.p.obj)
    return band(c.forall(lambda j: z3.Select(row, j) == z3.Select(buf, j - p0 + c.buffer.p.off), p0, add(p0, n), pat=lambda j: z3.Select(row, j)),
                c.forall(lambda j: imp(bor(j < p0, j >= p0 + n), z3.Select(row, j) == z3.Select(old, j)), pat=lambda j: z3.Select(row, j)))


write_data = Contract(
    'tcp_utils_write_data', ['buffer', 'len', 'sock'], file='tcp_utils.c',
    requires=[('the buffer holds the bytes to send', lambda c: imp(c.len > 0, c.buffer.valid(c.len))),
              ('the length fits a signed size', lambda c: c.len < (1 << 62))],
    ensures=[
        ('success exactly when all bytes went out, in order, once', lambda c: imp(c.ret == 0, sent(c) == c.len)),
        ('never more than the buffer is sent', lambda c: band(sent(c) >= 0, sent(c) <= c.len)),
        ('what went out is a prefix of the buffer', lambda c: tx_is_buffer(c, sent(c))),
        ('failure is reported', lambda c: imp(sent(c) < c.len, c.ret < 0)),
        ('result is 0 or negative', lambda c: c.ret <= 0),
        ('other sockets are untouched', lambda c: band(only_sock(c, 'txpos'), only_sock(c, 'tx'))),
    ],
    modifies=lambda c: [('ghost', 'txpos'), ('ghost', 'tx')],
    inv=[
        ('rest', lambda c, l: band(l >= 0, l <= c.len, sent(c) == c.len - l), {'l': 'int'}),
        ('content', lambda c: tx_is_buffer(c, sent(c))),
        ('others', lambda c: band(only_sock(c, 'txpos'), only_sock(c, 'tx'))),
    ],
    bridge=[('a 32-bit field of a sent header goes out as its four little-endian bytes', lambda c: le_tx(c))])


def env():
    e = Env()
    e.ghosts = dict(GHOSTS)
    e.models = dict(MODELS)
    e.uses_errno = True
    e.kinds = ['po', 'pf', 'u8', 'i32', 'u64']
    for c in (read_partially, read_data, write_data):
        e.contracts[c.name] = c
    return e
