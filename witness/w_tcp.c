// SRC: src/tcp_utils.c
// WRAP: recv write send read
/* tcp_utils.c against a peer that fragments, interrupts, times out, fails or closes at every point */
#include "w.h"
#include "tcp_utils.h"
static void w_init_once(void) {}
static uint8_t stream[1 << 17]; static size_t slen, spos;
static int fail_at, fail_kind; /* after fail_at bytes: 0 close, 1 EAGAIN, 2 ECONNRESET */
static int frag, eintr, ended;
static uint8_t sent[1 << 17]; static size_t nsent; static int werr;
static ssize_t take(void *b, size_t n) {
    if (eintr && w_chance(eintr)) { errno = EINTR; return -1; }
    if (spos >= (size_t) fail_at) {
        ended = 1;
        if (fail_kind == 0) return 0;
        errno = fail_kind == 1 ? EAGAIN : ECONNRESET;
        return -1;
    }
    size_t k = frag ? 1 + w_rnd(frag) : n;
    if (k > n) k = n;
    if (k > (size_t) fail_at - spos) k = (size_t) fail_at - spos;
    W_CHECK(spos + k <= sizeof stream, "reads far beyond the requested bytes");
    memcpy(b, stream + spos, k); spos += k;
    errno = (int) w_rnd(3) == 0 ? EAGAIN : 0; /* left-over errno is meaningless after success */
    return (ssize_t) k;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { W_CHECK(fd == 7, "recv on another descriptor"); return take(b, n); }
ssize_t __wrap_read(int fd, void *b, size_t n) { W_CHECK(fd == 7, "read on another descriptor"); return take(b, n); }
static ssize_t put(int fd, const void *b, size_t n) {
    W_CHECK(fd == 7, "write on another descriptor");
    if (nsent >= (size_t) fail_at) { werr = 1; errno = fail_kind == 1 ? EAGAIN : fail_kind == 2 ? EPIPE : ECONNRESET; return -1; }
    size_t k = frag ? 1 + w_rnd(frag) : n;
    if (k > n) k = n;
    if (k > (size_t) fail_at - nsent) k = (size_t) fail_at - nsent;
    W_CHECK(nsent + k <= sizeof sent, "more bytes written than given");
    memcpy(sent + nsent, b, k); nsent += k; return (ssize_t) k;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { return put(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { return put(fd, b, n); }
void w_case(uint64_t n) {
    size_t len = n < 24 ? n % 6 : (size_t) w_size(0, w_chance(10) ? 100000 : 3000);
    frag = w_chance(30) ? 0 : w_chance(50) ? (int) w_size(1, 9) : (int) w_size(1, 3000);
    if (len > 20000 && frag && frag < 50) frag = 50;
    eintr = w_chance(50) ? 0 : (int) w_rnd(70);
    fail_kind = (int) w_rnd(3);
    fail_at = w_chance(50) ? 1 << 30 : (int) w_size(0, (int64_t) len + 2);
    int op = (int) (n % 3);
    w_note("op=%s length=%zu fragments<=%d interrupted=%d%% ", op == 0 ? "write" : op == 1 ? "read" : "read-partially", len, frag, eintr);
    if (fail_at < 1 << 30) w_note("after %d bytes: %s", fail_at, fail_kind == 0 ? "closed" : fail_kind == 1 ? "timeout" : "error");
    uint8_t *b = malloc(len ? len : 1);
    spos = nsent = 0; werr = ended = 0; errno = 0;
    for (size_t i = 0; i < sizeof stream && i < len + 64; i++) stream[i] = (uint8_t) w_next();
    if (op == 0) {
        memcpy(b, stream, len);
        int r = tcp_utils_write_data(b, len, 7);
        W_CHECK((r == 0) == (nsent == len && !werr), "write returned %d after %zu of %zu bytes were accepted", r, nsent, len);
        W_CHECK(nsent <= len && memcmp(sent, stream, nsent) == 0, "the bytes on the wire are not the given bytes in order");
    } else {
        memset(b, 0xee, len);
        size_t got = 12345; int r;
        if (op == 1) { r = tcp_utils_read_data(b, len, 7); got = spos < len ? spos : len; }
        else { r = tcp_utils_read_data_partially(b, len, &got, 7); }
        W_CHECK(spos <= len, "more bytes consumed (%zu) than requested (%zu)", spos, len);
        W_CHECK(got == spos, "reported %zu bytes, consumed %zu", got, spos);
        W_CHECK((r == 0) == (spos == len), "returned %d after %zu of %zu bytes", r, spos, len);
        W_CHECK(memcmp(b, stream, spos) == 0, "the buffer does not hold the received bytes in order");
        if (r != 0) {
            W_CHECK(ended, "gave up although the connection was fine (returned %d)", r);
            int timeout = fail_kind == 1;
            if (op == 1 && spos > 0) timeout = 0; /* cut short: not an idle connection */
            if (timeout) W_CHECK(r == -EAGAIN, "a timeout was reported as %d", r);
            else W_CHECK(r != -EAGAIN, "a dead connection was reported as a timeout");
        }
        for (size_t i = spos; i < len; i++) W_CHECK(b[i] == 0xee, "bytes behind the received ones were changed");
    }
    free(b);
}
