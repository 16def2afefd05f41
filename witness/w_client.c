// SRC: src/sdr/sdr_server_client.c src/tcp_utils.c
// WRAP: malloc free calloc volk_malloc volk_free socket setsockopt connect close recv read write send shutdown
/* the client of an sdr server against a scripted server */
#define W_MALLOC
#include "w.h"
#include <complex.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "sdr/sdr_server_client.h"
#define P "C24"
void *__real_volk_malloc(size_t n, size_t al) { return 0; }
void __real_volk_free(void *p) {}
int __real_close(int fd); ssize_t __real_read(int fd, void *b, size_t n); ssize_t __real_write(int fd, const void *b, size_t n);
static void w_init_once(void) {}
static int sock, closes, fail_at, timeo, connected; static struct sockaddr_in peer;
static uint8_t out[4096]; static size_t nout, wfail; static int short_writes;
static uint8_t in[60000]; static size_t nin, pos; static int end_kind, maxread; static size_t tmo[64]; static int ntmo, itmo, stopping;
int __wrap_socket(int d, int t, int p) { if (fail_at == 1) { errno = EMFILE; return -1; } P_CHECK(P, sock == -1, "a second connection"); P_CHECK(P, d == AF_INET && t == SOCK_STREAM, "not a tcp socket"); sock = 40; return 40; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    P_CHECK(P, fd == 40, "options of another socket");
    if (o == SO_RCVTIMEO) timeo = (int) ((struct timeval *) v)->tv_sec + 1000000 * (((struct timeval *) v)->tv_usec != 0);
    return fail_at == 2 ? -1 : 0;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n) { P_CHECK(P, fd == 40 && !closes, "connects another socket"); memcpy(&peer, a, sizeof peer); if (fail_at == 3) { errno = ECONNREFUSED; return -1; } connected = 1; return 0; }
int __wrap_close(int fd) { if (fd != 40) { P_CHECK(P, 0, "closes descriptor %d", fd); return 0; } closes++; P_CHECK(P, closes == 1, "the socket is closed twice"); return 0; }
int __wrap_shutdown(int fd, int how) { return 0; }
static ssize_t get(int fd, void *b, size_t n) {
    P_CHECK(P, fd == 40 && connected && !closes, "read from a socket that is not open");
    if (n == 0) return 0;
    if (w_chance(5)) { errno = EINTR; return -1; }
    if (itmo < ntmo && tmo[itmo] == pos) { itmo++; errno = EAGAIN; return -1; }
    if (pos == nin) { if (end_kind == 1) { errno = ECONNRESET; return -1; } return 0; }
    size_t k = w_chance(40) ? n : 1 + w_rnd(maxread); if (k > n) k = n; if (k > nin - pos) k = nin - pos;
    if (itmo < ntmo && tmo[itmo] > pos && tmo[itmo] - pos < k) k = tmo[itmo] - pos;
    memcpy(b, in + pos, k); pos += k; return (ssize_t) k;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { return get(fd, b, n); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return get(fd, b, n); }
static ssize_t put(int fd, const void *b, size_t n) {
    P_CHECK(P, fd == 40 && connected && !closes, "write to a socket that is not open");
    if (nout >= wfail) { errno = EPIPE; return -1; }
    size_t k = short_writes ? 1 + w_rnd(4) : n; if (k > n) k = n; if (nout + k > wfail) k = wfail - nout;
    if (nout + k > sizeof out) W_FAIL("endless output");
    memcpy(out + nout, b, k); nout += k; return (ssize_t) k;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { return put(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return put(fd, b, n); }
static void be32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
void w_case(uint64_t n) {
    sock = -1; closes = 0; connected = 0; nout = 0; pos = 0; nin = 0; timeo = -1; ntmo = itmo = 0; stopping = 0;
    fail_at = w_chance(10) ? 1 + (int) w_rnd(3) : 0; wfail = w_chance(8) ? w_rnd(15) : sizeof out; short_writes = w_chance(40); end_kind = (int) w_rnd(2); maxread = w_chance(50) ? 3 : 200;
    struct sdr_rx q = {w_chance(50) ? w_rnd(1ull << 31) : 437000000 + w_rnd(1000000), w_chance(50) ? w_rnd(1ull << 31) : 48000, w_range(-100000, 100000)};
    if ((int64_t) q.rx_center_freq + q.rx_offset < 0) q.rx_offset = 0;
    int status = w_chance(80) ? 0 : 1 + (int) w_rnd(255), ver = w_chance(92) ? 0 : 1 + (int) w_rnd(255), type = w_chance(92) ? 2 : (int) w_rnd(2), cut = w_chance(10), port = 1 + (int) w_rnd(65535), tmoresp = w_chance(8);
    uint32_t det = (uint32_t) w_next(), max = w_chance(40) ? 1 + (uint32_t) w_rnd(4) : 1 + (uint32_t) w_rnd(300); int secs = 1 + (int) w_rnd(30);
    char addr[32]; unsigned ip[4] = {1 + (unsigned) w_rnd(223), (unsigned) w_rnd(256), (unsigned) w_rnd(256), (unsigned) w_rnd(256)}; snprintf(addr, sizeof addr, "%u.%u.%u.%u", ip[0], ip[1], ip[2], ip[3]);
    in[nin++] = (uint8_t) ver; in[nin++] = (uint8_t) type; in[nin++] = (uint8_t) status; be32(in + nin, det); nin += 4;
    size_t data = w_chance(20) ? w_rnd(20) : w_rnd(4000);
    if (cut) { nin = w_rnd(7); data = 0; }
    size_t resp = nin;
    if (tmoresp) tmo[ntmo++] = w_rnd(7);
    int nt = w_chance(50) ? 0 : (int) w_rnd(12); size_t at = nin;
    for (size_t i = 0; i < data; i++) in[nin++] = (uint8_t) w_next();
    for (int i = 0; i < nt && data; i++) { at += w_rnd(data / (size_t) nt + 1); if (at <= nin) tmo[ntmo++] = at; }
    w_note("max=%u data=%zu status=%d version=%d type=%d cut=%d fail=%d wfail=%zu timeouts=%d@", max, data, status, ver, type, cut, fail_at, wfail, ntmo); for (int i = 0; i < ntmo; i++) w_note("%zu ", tmo[i]);
    int nomem = w_chance(10);
    w_acct_begin(nomem ? (int) w_rnd(8) : -1);
    sdr_device *d = NULL;
    int r = sdr_server_client_create(3, &q, addr, port, secs, max, &d);
    int oom = nomem && w_nalloc > w_failat;
    int bad = fail_at || wfail < 15 || cut || ver != 0 || type != 2 || status != 0 || tmoresp;
    if (oom) P_CHECK("C24,C26", r != 0, "a device is created without memory");
    if (bad) P_CHECK(P, r != 0, "a device is created although the server did not agree");
    if (!bad && !oom) P_CHECK(P, r == 0, "the device cannot be created: %d", r);
    if (r != 0) {
        P_CHECK("C24,C26", w_acct_end() == 0, "a failed connection leaves %d allocations", w_nlive);
        P_CHECK("C24,C26", closes == (sock != -1), "the socket of a failed connection is %s", closes ? "closed twice" : "not closed");
        return;
    }
    w_failat = -1;
    P_CHECK(P, timeo == secs, "the read timeout is not the configured one");
    P_CHECK(P, peer.sin_family == AF_INET && ntohs(peer.sin_port) == port && ntohl(peer.sin_addr.s_addr) == (ip[0] << 24 | ip[1] << 16 | ip[2] << 8 | ip[3]), "connects to another address");
    uint8_t want[15]; want[0] = 0; want[1] = 0; be32(want + 2, (uint32_t) (q.rx_center_freq + (uint64_t) q.rx_offset)); be32(want + 6, (uint32_t) q.rx_sampling_freq); be32(want + 10, (uint32_t) q.rx_center_freq); want[14] = 1;
    P_CHECK(P, nout == 15 && !memcmp(out, want, 15), "the request is not the documented one");
    P_CHECK(P, pos == resp, "%zu bytes were taken as the response instead of %zu", pos, resp);
    size_t got = 0; int idle = 0, calls = 0, dead = 0; int stop_after = w_chance(30) ? (int) w_rnd(10) : 100000;
    while (calls++ < 6000 && calls < stop_after) {
        float complex *o = (void *) 1; size_t on = 77; size_t p0 = pos; int t0 = itmo;
        int c = d->sdr_process_rx(&o, &on, d->plugin);
        P_CHECK(P, on <= max, "a block of %zu samples for a maximum of %u", on, max); if (on > max) break;
        P_CHECK(P, (on == 0) == (o == NULL), "a block of %zu at %p", on, (void *) o);
        P_CHECK(P, got + on <= data / 8, "%zu samples out of %zu bytes", got + on, data); if (got + on > data / 8) break;
        P_CHECK(P, on == 0 || !memcmp(o, in + resp + got * 8, on * 8), "after %zu samples others are delivered than sent", got);
        got += on;
        P_CHECK(P, got == (pos - resp) / 8, "%zu samples delivered of %zu bytes received", got, pos - resp);
        if (c == 0) P_CHECK(P, on == max, "success with a block of %zu of %u", on, max);
        else if (itmo > t0) P_CHECK(P, c < -1, "a timeout is reported as %d", c);
        else { P_CHECK(P, pos == nin, "the end is reported after %zu of %zu bytes", pos, nin); P_CHECK(P, end_kind == 1 || c == -1, "the end of the stream is reported as %d", c); dead = 1; }
        if (c != 0 && itmo == t0 && on == 0) break;
        if (c < -1 && on == 0 && pos == p0 && ++idle > 200) break;
    }
    if (stop_after == 100000) P_CHECK(P, got == data / 8 && pos == nin, "%zu of %zu samples were delivered", got, data / 8);
    (void) dead;
    d->stop_rx(d->plugin);
    P_CHECK(P, closes == 1, "stopping does not close the connection");
    P_CHECK(P, nout >= 17 && out[15] == 0 && out[16] == 1 && (nout - 15) % 2 == 0, "the shutdown message is not sent");
    for (size_t i = 15; i + 1 < nout; i += 2) P_CHECK(P, out[i] == 0 && out[i + 1] == 1, "something else than shutdown messages is sent at the end");
    d->destroy(d->plugin); free(d);
    P_CHECK(P, closes == 1, "the connection is closed twice");
    P_CHECK(P, w_acct_end() == 0, "%d allocations are never released", w_nlive);
}
