"""sdr_server_client.c: the stream of samples from a remote receiver.

rxb(fd, p) is the p-th byte ever received on the socket.  The samples handed out are consecutive groups of eight bytes of that
stream: a call continues exactly behind the last sample that was handed out, whatever was left over then.
"""
from vc.sym import *
from vc.spec import *
from contracts import net
from contracts.net import rx, rxb

HOME = {'tcp_utils_read_data': 'net', 'tcp_utils_write_data': 'net', 'tcp_utils_read_data_partially': 'net'}
S = z3.Select
CL = 'struct sdr_server_client_t'


def cl(c):
    return c.plugin.as_(ptr(c.T(CL)))


def outb(c):
    return cl(c).output.as_(ptr(c.T('unsigned char')))


def pos0(c):
    """stream position of the first byte that was not handed out yet"""
    return rx(c, cl(c).client_socket) - cl(c).partial_len


def rep(c):
    k = cl(c)
    row = c.eng.mapget(c.st, 'u8', k.o)
    po = c.plugin.as_(ptr(c.T(CL))).addr('partial').f
    return [('the client', band(k.whole(1), k.output_len >= 1, k.output_len < (1 << 32), outb(c).whole(8 * k.output_len), k.o != k.output.o, k.o > 0, k.output.o > 0)),
            ('less than a sample is left over', band(k.partial_len >= 0, k.partial_len < 8)),
            ('the left-over bytes are the next of the stream', c.forall(lambda j: imp(band(j >= po, j < po + k.partial_len), S(row, j) == rxb(k.client_socket, pos0(c) + (j - po))), pat=lambda j: S(row, j)))]


def given(c):
    k = cl(c)
    n = c.output_len[0]
    row = c.eng.mapget(c.st, 'u8', k.output.o)
    p0 = pos0(c.pre)
    return [('whole samples only, without gap or repetition', band(n >= 0, n <= k.output_len, pos0(c) == p0 + 8 * n)),
            ('the samples are the next bytes of the stream', c.forall(lambda j: imp(band(j >= 0, j < 8 * n), S(row, j) == rxb(k.client_socket, p0 + j)), pat=lambda j: S(row, j))),
            ('they are handed out, or nothing is', ite(n == 0, c.output[0].o == 0, band(c.output[0].o == k.output.o, c.output[0].f == 0))),
            ('success means a full buffer, anything less is reported', band(c.ret <= 0, (c.ret == 0) == (n == k.output_len))),
            ('a closed connection is never reported as a timeout', imp(sel(c.g('rxend'), k.client_socket) == 1, bor(c.ret == 0, c.ret == -1)))]


def NM(f, names):
    return [(n, (lambda n: lambda c: dict(f(c))[n])(n)) for n in names]


REPN = ('the client', 'less than a sample is left over', 'the left-over bytes are the next of the stream')

read_stream = Contract(
    'sdr_server_client_read_stream', ['output', 'output_len', 'plugin'], file='sdr/sdr_server_client.c',
    requires=NM(rep, REPN) + [('outputs', lambda c: band(c.output.valid(1), c.output_len.valid(1), *[x.o != y for x in (c.output, c.output_len) for y in (cl(c).o, cl(c).output.o)] + [c.output.o != c.output_len.o]))],
    ensures=NM(given, ('whole samples only, without gap or repetition', 'the samples are the next bytes of the stream', 'they are handed out, or nothing is', 'success means a full buffer, anything less is reported',
                       'a closed connection is never reported as a timeout')) + [('kept: ' + n, f) for n, f in NM(rep, REPN)] +
            [('the client is the same', lambda c: band(cl(c).client_socket == cl(c.pre).client_socket, cl(c).output.eq(cl(c.pre).output), cl(c).output_len == cl(c.pre).output_len))],
    modifies=lambda c: [('field', cl(c), 'partial_len'), ('bytes', cl(c).addr('partial'), 0, 8), ('obj', cl(c).output), ('cell', c.output), ('cell', c.output_len), ('ghost', 'rxpos'), ('ghost', 'rxend')])


def env():
    e = Env()
    e.ghosts = dict(net.GHOSTS)
    e.models = dict(net.MODELS)
    e.uses_errno = True
    e.kinds = ['po', 'pf', 'u8', 'i32', 'u64', 'u32']
    for c in (net.read_data, net.write_data, net.read_partially, read_stream):
        e.contracts[c.name] = c
    return e
