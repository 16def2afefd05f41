"""api_utils.c: message framing. Protobuf (generated code and library) is external: its packed form is an
uninterpreted function of the message, its parser reads the given bytes and returns NULL or a new object."""
from vc.sym import *
from vc.eng import uf
from vc.spec import *
from contracts import net
from contracts.net import rx, rxb, sent, only_sock, le

HOME = {'tcp_utils_read_data': 'net', 'tcp_utils_write_data': 'net', 'tcp_utils_read_data_partially': 'net'}
MAXLEN = 32 * 1024
packed = uf('packed_byte', I, I, I, I)      # status, details, position
packlen = uf('packed_length', I, I, I)
parsed = uf('parsed_from', I, I, I, B)      # object, socket, stream position: what was parsed


def m_unpack(e, st, a, at, rt):
    alloc, n, p = a
    e.oblige(st, bor(eqi(n, iv(0)), e.valid_goal(st, p, n)), 'the parser stays inside the message', 'mem')
    r, ok = e.malloc(st, iv(256), tag='unpacked')
    st.ghost['parsed_n'] = ite(ok, n, iv(-1))
    row = e.mapget(st, 'u8', p.obj)
    st.ghost['parsed_row'] = row
    st.ghost['parsed_off'] = p.off
    st.ghost['parsed_obj'] = r.obj
    return r


def m_packed_size(e, st, a, at, rt):
    m = Ctx(e, st, {}, e.tu)
    v = View(m, a[0], at[0])
    r = packlen(v.status, v.details)
    st.assume(band(r >= 0, r <= 64))
    return r


def m_pack(e, st, a, at, rt):
    m = Ctx(e, st, {}, e.tu)
    v = View(m, a[0], at[0])
    s, d = v.status, v.details
    n = packlen(s, d)
    e.oblige(st, e.valid_goal(st, a[1], n), 'the packed response fits the buffer', 'mem')
    for k in e.kinds:
        lo_p, hi_p, lo_f, hi_f = e.brange(k, a[1].off, n)
        old = e.mapget(st, k, a[1].obj)
        row = e.fresh('pk_' + k, z3.ArraySort(I, SORT[k]))
        j = z3.Const('j', I)
        inp = band(lo_p <= j, j < hi_p)
        body = imp(bnot(inp), z3.Select(row, j) == z3.Select(old, j))
        if k == 'u8':
            body = band(body, imp(inp, z3.Select(row, j) == packed(s, d, j - a[1].off)))
        st.assume(fa([j], body, patterns=[z3.Select(row, j)]))
        st.mem[k] = sto(st.mem[k], a[1].obj, row)
    return n


def used(c):
    return sub(rx(c, c.socket), rx(c.pre, c.socket))


def others(c):
    f = z3.Const('fd?', I)
    return band(*[fa([f], imp(f != c.socket, z3.Select(c.g(g), f) == z3.Select(c.pre.g(g), f)), patterns=[z3.Select(c.g(g), f)]) for g in ('rxpos', 'rxend')])


bswap = uf('bswap32', I, I)

read_header = Contract(
    'api_utils_read_header', ['socket', 'header'], file='api_utils.c',
    requires=[('the header is writable', lambda c: c.header.whole(1))],
    ensures=[('a complete header is taken from the stream, or the failure is reported', lambda c: band(used(c) >= 0, used(c) <= 6, (c.ret == 0) == (used(c) == 6), c.ret <= 0)),
             ('a header cut short is never reported as an idle connection', lambda c: imp(used(c) > 0, bor(c.ret == 0, c.ret == -1))),
             ('a closed connection is never reported as a timeout', lambda c: imp(sel(c.g('rxend'), c.socket) == 1, bor(c.ret == 0, c.ret == -1))),
             ('version and type are the first two bytes', lambda c: imp(c.ret == 0, band(c.header.protocol_version == rxb(c.socket, rx(c.pre, c.socket)), c.header.type == rxb(c.socket, rx(c.pre, c.socket) + 1)))),
             ('the length is the next four bytes in network order', lambda c: imp(c.ret == 0, c.header.message_length == bswap(le(lambda i: rxb(c.socket, rx(c.pre, c.socket) + 2 + i))))),
             ('other sockets are untouched', others)],
    modifies=lambda c: [('bytes', c.header, 0, 6), ('ghost', 'rxpos'), ('ghost', 'rxend')])


def body_reader(name):
    def content(c):
        # the parsed bytes are exactly the message's bytes
        j = z3.Const('j?', I)
        row, off = c.st.ghost.get('parsed_row'), c.st.ghost.get('parsed_off')
        if row is None:
            return c.ret != 0
        return imp(c.ret == 0, band(c.g('parsed_n') == c.header.message_length, c.request[0].o == c.g('parsed_obj'), c.request[0].f == 0,
                                    c.forall(lambda k: z3.Select(row, k) == rxb(c.socket, rx(c.pre, c.socket) + (k - off)), off, off + c.header.message_length, pat=lambda k: z3.Select(row, k))))
    return Contract(
        name, ['socket', 'header', 'request'], file='api_utils.c',
        requires=[('the header is readable', lambda c: c.header.whole(1)), ('the result is writable, apart from the header', lambda c: band(c.request.valid(1), c.request.o != c.header.o))],
        ensures=[('an oversized message is refused without reading it', lambda c: imp(c.header.message_length > MAXLEN, band(c.ret != 0, used(c) == 0))),
                 ('never more than the message is taken', lambda c: band(used(c) >= 0, used(c) <= c.header.message_length)),
                 ('success means the whole message was taken', lambda c: imp(c.ret == 0, band(used(c) == c.header.message_length, c.request[0].alive, c.fresh_obj(c.request[0].o), c.request[0].o != 0))),
                 ('what is parsed is the message', content),
                 ('failure is negative and hands out nothing', lambda c: bor(c.ret == 0, band(c.ret < 0, c.request[0].o == c.pre.request[0].o, c.request[0].f == c.pre.request[0].f))),
                 ('other sockets are untouched', others)],
        modifies=lambda c: [('cell', c.request), ('ghost', 'rxpos'), ('ghost', 'rxend')], allocs=True, leak=lambda c: [c.request[0]])


def wsent(c):
    return sub(sel(c.g('txpos'), c.socket), sel(c.pre.g('txpos'), c.socket))


def frame_ok(c):
    row = sel(c.g('tx'), c.socket)
    p0 = sel(c.pre.g('txpos'), c.socket)
    n = packlen(c.status, c.details)
    b = lambda i: z3.Select(row, p0 + i)
    return imp(c.ret == 0, band(
        wsent(c) == 6 + n, b(0) == 0, b(1) == 2,
        le(lambda i: b(2 + i)) == bswap(n),
        c.forall(lambda j: z3.Select(row, j) == packed(c.status, c.details, j - p0 - 6), p0 + 6, p0 + 6 + n, pat=lambda j: z3.Select(row, j))))


def prev_tx(c):
    row = sel(c.g('tx'), c.socket)
    old = sel(c.pre.g('tx'), c.socket)
    p0 = sel(c.pre.g('txpos'), c.socket)
    return c.forall(lambda j: imp(j < p0, z3.Select(row, j) == z3.Select(old, j)), pat=lambda j: z3.Select(row, j))


def others_tx(c):
    f = z3.Const('fd?', I)
    return band(*[fa([f], imp(f != c.socket, z3.Select(c.g(g), f) == z3.Select(c.pre.g(g), f)), patterns=[z3.Select(c.g(g), f)]) for g in ('txpos', 'tx')])


write_response = Contract(
    'api_utils_write_response', ['socket', 'status', 'details'], file='api_utils.c',
    ensures=[('one frame: version 0, type response, length in network order, then the packed response', frame_ok),
             ('what was on the wire before stays', prev_tx),
             ('never more than the frame goes out', lambda c: band(wsent(c) >= 0, wsent(c) <= 6 + packlen(c.status, c.details))),
             ('a frame cut short is reported', lambda c: imp(wsent(c) < 6 + packlen(c.status, c.details), c.ret < 0)),
             ('other sockets are untouched', others_tx)],
    modifies=lambda c: [('ghost', 'txpos'), ('ghost', 'tx')], allocs=True, leak=lambda c: [])


def m_strncpy(e, st, a, at, rt):
    """writes exactly n bytes at dst; reads the source up to its terminator or n bytes"""
    d, s, n = a
    e.oblige(st, e.valid_goal(st, d, n), 'strncpy stays inside the destination', 'mem')
    e.oblige(st, sel(st.alive, s.obj), 'strncpy reads a live string', 'mem')
    for k in e.kinds:
        lo_p, hi_p, lo_f, hi_f = e.brange(k, d.off, n)
        old = e.mapget(st, k, d.obj)
        row = e.fresh('sc_' + k, z3.ArraySort(I, SORT[k]))
        j = z3.Const('j', I)
        st.assume(fa([j], imp(bnot(band(lo_p <= j, j < hi_p)), z3.Select(row, j) == z3.Select(old, j)), patterns=[z3.Select(row, j)]))
        st.mem[k] = sto(st.mem[k], d.obj, row)
    return d


convert_tle = Contract(
    'api_utils_convert_tle', ['tle', 'output'], file='api_utils.c',
    requires=[('three lines', lambda c: c.tle.valid(3)), ('each is a live string', lambda c: band(*[c.tle[i].alive for i in range(3)])),
              ('room for three lines of 80, apart from the input', lambda c: band(c.output.o != c.tle.o, c.eng.valid_goal(c.st, c.output.p, iv(240))))],
    ensures=[],
    modifies=lambda c: [('bytes', c.output, 0, 240)])


def env():
    e = Env()
    e.ghosts = dict(net.GHOSTS)
    e.models = dict(net.MODELS)
    for m in ('tx_data', 'tx_request', 'rx_request'):
        e.models[m + '__unpack'] = m_unpack
    e.models['response__get_packed_size'] = m_packed_size
    e.models['response__pack'] = m_pack
    e.models['strncpy'] = m_strncpy
    e.uses_errno = True
    e.kinds = ['po', 'pf', 'u8', 'i32', 'u64', 'u32', 'u32@2']
    for c in (net.read_data, net.write_data, net.read_partially, read_header, body_reader('api_utils_read_tx_data'), body_reader('api_utils_read_tx_request'),
              body_reader('api_utils_read_rx_request'), write_response, convert_tle):
        e.contracts[c.name] = c
    return e
