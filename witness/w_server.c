// SRC: src/tcp_server.c src/api_utils.c src/api.pb-c.c src/tcp_utils.c src/linked_list.c
// WRAP: malloc free calloc volk_malloc volk_free socket setsockopt bind listen accept close shutdown recv read write send fopen fwrite fclose pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast rx_request__unpack rx_request__free_unpacked tx_request__unpack tx_request__free_unpacked tx_data__unpack tx_data__free_unpacked
/* the whole server (tcp_server.c and the protocol code) with its threads under a deterministic scheduler, real
 * protocol bytes on scripted connections, and recording stand-ins for modulators, workers and devices */
#define W_MALLOC
#include "w.h"
#include "w_sched.h"
#include <sys/socket.h>
#include <math.h>
#include <complex.h>
#include "api.h"
#include "api.pb-c.h"
#include "tcp_server.h"
#include "server_config.h"
#include "dsp_worker.h"
#include "sdr_worker.h"
#include "dsp/gfsk_mod.h"
#include "dsp/doppler.h"
#include "dsp/sig_source.h"
#include "sdr/plutosdr.h"
#include "sdr/file_source.h"
#include "sdr/sdr_server_client.h"
void *__real_volk_malloc(size_t n, size_t al) { return 0; }
void __real_volk_free(void *p) {}
#define NCONN 8
#define FD0 100
enum { END_CLOSE, END_SILENT, END_RESET };
struct msg { int type, version, nreply, status[2]; uint8_t *data; size_t ndata; size_t end; };
struct conn {
    int fd, id, xid, accepted, closed, shut, after, end, kind, setsock_fail;
    uint8_t in[1 << 16]; size_t nin, pos;
    size_t tmo[8]; int ntmo, tmocnt[8];
    uint8_t out[1 << 14]; size_t nout, wfail;
    RxRequest rx; TxRequest tx; DopplerSettings dop; FskDemodulationSettings fd_; FskModulationSettings fm; FileSettings fs; char tlebuf[6][160]; char *tle[6]; char fname[64]; int reqvalid, unread;
    struct msg m[12]; int nm; size_t reqend;
    int first_status, first_details;        /* expected answer to the request; -1: not determined */
    int fail_internal, txbusy, rxbusy, started, ending, ended_by_server, txdevfail, nomem;
    int dev; int done_tx;
    float complex exp[1 << 13]; size_t nexp; float complex got[1 << 13]; size_t ngot; float complex dump[1 << 13]; size_t ndump; int dumpopen, dumpclosed;
    int mask; size_t failpos;
    int rxattached; void *sdr;
};
static struct conn C[NCONN]; static int nconn, nextacc, cur, lst_open, stop_req, mode_nomem, stop_early, protolive;
static int idcount; static struct conn *byid(uint32_t id) { for (int i = 0; i < nconn; i++) if (C[i].accepted && C[i].xid == (int) id && !C[i].setsock_fail) return &C[i]; W_FAIL("a stream with an unknown id %u", id); return NULL; }
static struct server_config cfg; static int listen_fail;
static int faultpct;
static tcp_server *srv;
static struct conn *byfd(int fd, const char *what) {
    int i = fd - FD0;
    W_CHECK(i >= 0 && i < nconn && C[i].accepted, "%s on descriptor %d that is not a connection", what, fd);
    P_CHECK("C13", !C[i].closed, "%s on the socket of connection %d after it was closed", what, i);
    return &C[i];
}
static int fault(void) { return faultpct && w_chance(faultpct); }
/* ------------------------------------------------------------ sockets */
int __wrap_socket(int a, int b, int c) { if (listen_fail == 1) { errno = EMFILE; return -1; } lst_open = 1; return 50; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    if (fd == 50) return listen_fail == 2 ? -1 : 0;
    struct conn *c = byfd(fd, "setsockopt");
    if (o == SO_RCVTIMEO) P_CHECK("C13,C03", ((struct timeval *) v)->tv_sec == cfg.read_timeout_seconds && ((struct timeval *) v)->tv_usec == 0, "the read timeout is not the configured one");
    return c->setsock_fail ? -1 : 0;
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) { return listen_fail == 3 ? -1 : 0; }
int __wrap_listen(int fd, int n) { return listen_fail == 4 ? -1 : 0; }
static int acc_ready(void *x) { return stop_req || (nextacc < nconn && (C[nextacc].after < 0 || C[C[nextacc].after].closed)); }
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) {
    sc_wait_io(acc_ready, NULL);
    if (stop_req) return -1;
    cur = nextacc++;
    struct conn *c = &C[cur];
    c->accepted = 1; c->xid = idcount; if (!c->setsock_fail) idcount++;
    memset(a, 0, sizeof(struct sockaddr));
    for (int i = 0; i < cur; i++) {
        if (C[i].dev == 1 && !C[i].done_tx) c->txbusy = 1;
        if (C[i].rxattached) c->rxbusy = 1;
    }
    return c->fd;
}
int __wrap_close(int fd) {
    if (fd == 50) { P_CHECK("C13", lst_open, "the server socket is closed twice"); lst_open = 0; return 0; }
    struct conn *c = byfd(fd, "close");
    c->closed = 1; return 0;
}
int __wrap_shutdown(int fd, int how) {
    if (fd == 50) { stop_req = 1; return 0; }
    byfd(fd, "shutdown")->shut = 1; return 0;
}
static ssize_t take(int fd, void *b, size_t n) {
    sc_yield();
    struct conn *c = byfd(fd, "read");
    if (n == 0) return 0;
    if (c->shut) { c->ending = 1; return 0; }
    for (int i = 0; i < c->ntmo; i++) if (c->tmo[i] == c->pos && c->tmocnt[i] > 0) { c->tmocnt[i]--; errno = EAGAIN; return -1; }
    if (c->reqend && c->pos >= c->reqend && c->nm && c->nout < 6 && c->wfail == 1 << 20 && !mode_nomem) { sc_switch(); errno = EAGAIN; return -1; } /* the client waits for the answer before it sends on */
    if (c->pos == c->nin) {
        if (c->end == END_SILENT) { sc_switch(); errno = EAGAIN; return -1; }
        c->ending = 1;
        if (c->end == END_RESET) { errno = ECONNRESET; return -1; }
        return 0;
    }
    if (w_chance(5)) { errno = EINTR; return -1; }
    size_t k = w_chance(50) ? n : 1 + w_rnd(w_chance(50) ? 3 : 200);
    if (k > n) k = n;
    if (k > c->nin - c->pos) k = c->nin - c->pos;
    for (int i = 0; i < c->ntmo; i++) if (c->tmo[i] > c->pos && c->tmo[i] - c->pos < k) k = c->tmo[i] - c->pos;
    memcpy(b, c->in + c->pos, k); c->pos += k;
    if (c->pos == c->nin && c->end != END_SILENT) c->ending = 1;
    return (ssize_t) k;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { return take(fd, b, n); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return take(fd, b, n); }
static ssize_t put(int fd, const void *b, size_t n) {
    struct conn *c = byfd(fd, "write");
    if (c->nout + n > c->wfail) { errno = EPIPE; return -1; }
    size_t k = w_chance(70) ? n : 1 + w_rnd(4); if (k > n) k = n;
    W_CHECK(c->nout + k <= sizeof c->out, "an endless stream of responses");
    memcpy(c->out + c->nout, b, k); c->nout += k; return (ssize_t) k;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { return put(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return put(fd, b, n); }
/* ------------------------------------------------------------ files */
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) {
    if (!sc_on) return __real_fopen(p, m);
    char want[256]; snprintf(want, sizeof want, "%s/tx.mod2sdr.%d.cf32", cfg.base_path, C[cur].xid);
    P_CHECK("C11", !strcmp(p, want), "opens %s instead of %s", p, want);
    if (fault()) { C[cur].fail_internal = 1; return NULL; }
    C[cur].dumpopen = 1;
    return (FILE *) &C[cur];
}
size_t __real_fwrite(const void *b, size_t s, size_t n, FILE *f);
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) {
    struct conn *c = (struct conn *) f;
    if (c < C || c >= C + NCONN) return __real_fwrite(b, s, n, f);
    P_CHECK("C11", c->dumpopen && !c->dumpclosed, "write to a closed dump file");
    P_CHECK("C11", s == sizeof(float complex), "wrong item size in the dump");
    if (fault()) { c->dumpopen = 2; return 0; }
    for (size_t i = 0; i < n && c->ndump < 1 << 13; i++) c->dump[c->ndump++] = ((float complex *) b)[i];
    return n;
}
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) {
    struct conn *c = (struct conn *) f;
    if (c < C || c >= C + NCONN) return __real_fclose(f);
    P_CHECK("C13", !c->dumpclosed, "the dump file is closed twice"); c->dumpclosed = 1; return 0;
}
/* ------------------------------------------------------------ protobuf objects: counted */
#define COUNTED(T, t) T *__real_##t##__unpack(ProtobufCAllocator *a, size_t n, const uint8_t *b); void __real_##t##__free_unpacked(T *m, ProtobufCAllocator *a); \
    T *__wrap_##t##__unpack(ProtobufCAllocator *a, size_t n, const uint8_t *b) { T *r = __real_##t##__unpack(a, n, b); if (r) protolive++; return r; } \
    void __wrap_##t##__free_unpacked(T *m, ProtobufCAllocator *a) { if (m) protolive--; __real_##t##__free_unpacked(m, a); }
COUNTED(RxRequest, rx_request)
COUNTED(TxRequest, tx_request)
COUNTED(TxData, tx_data)
/* ------------------------------------------------------------ modulation stand-ins */
struct mod { int magic; struct conn *c; uint32_t max; int sps; float complex *buf; size_t n; int64_t k; };
static int sps_of(struct conn *c) { return c->tx.mod_baud_rate ? (int) ((double) c->tx.tx_sampling_freq / c->tx.mod_baud_rate) : 0; }
static struct mod *mknew(int magic, uint32_t max) { struct mod *m = malloc(sizeof *m); if (!m) return NULL; memset(m, 0, sizeof *m); m->magic = magic; m->max = max; m->c = &C[cur]; return m; }
int gfsk_mod_create(float sps, float sens, float bt, uint32_t max, gfsk_mod **out) {
    struct conn *c = &C[cur];
    P_CHECK("C11", c->kind == 5, "a modulator is created for an rx request");
    P_CHECK("C04", c->reqvalid, "a modulator is created for an invalid request");
    P_CHECK("C11", sps == (float) ((double) c->tx.tx_sampling_freq / c->tx.mod_baud_rate), "samples per symbol %f", sps);
    P_CHECK("C11", fabsf(sens - (float) (2 * M_PI * (double) c->fm.mod_fsk_deviation / (double) c->tx.tx_sampling_freq)) <= 1e-5f * fabsf(sens), "modulator sensitivity %g", sens);
    P_CHECK("C11", bt == 0.5F, "modulator bt");
    P_CHECK("C11", max >= cfg.buffer_size, "the modulator is too small (%u) for the batches (%u)", max, cfg.buffer_size);
    if (fault() || sps_of(c) < 1) { c->fail_internal = 1; return -1; }
    struct mod *m = mknew(0x60d, max); if (!m) return -ENOMEM;
    m->sps = (int) sps; m->buf = malloc(sizeof(float complex) * 8 * m->sps * (max ? max : 1)); if (!m->buf) { free(m); return -ENOMEM; }
    *out = (gfsk_mod *) m; return 0;
}
static float complex sample(uint8_t byte, int bit, int j) { return byte * 8 + bit + I * j; }
void gfsk_mod_process(const uint8_t *in, size_t n, float complex **out, size_t *nout, gfsk_mod *g) {
    struct mod *m = (struct mod *) g;
    W_CHECK(m->magic == 0x60d, "the modulator is used after it was destroyed");
    W_CHECK(n <= m->max, "a batch of %zu bytes exceeds the modulator's %u", n, m->max);
    sc_yield();
    size_t k = 0;
    for (size_t i = 0; i < n; i++) for (int b = 0; b < 8; b++) for (int j = 0; j < m->sps; j++) m->buf[k++] = sample(in[i], (in[i] >> b) & 1, j);
    *out = m->buf; *nout = k;
}
void gfsk_mod_destroy(gfsk_mod *g) { struct mod *m = (struct mod *) g; if (!m) return; W_CHECK(m->magic == 0x60d, "modulator destroyed twice"); m->magic = 0; free(m->buf); free(m); }
int doppler_create(double lat, double lon, double alt, uint64_t fs, uint64_t fc, int64_t off, time_t start, uint32_t max, char tle[3][80], doppler **out) {
    struct conn *c = &C[cur];
    P_CHECK("C11", c->tx.doppler != NULL && c->kind == 5, "doppler correction nobody asked for");
    P_CHECK("C11", lat == c->dop.latitude / 10E6 && lon == c->dop.longitude / 10E6 && alt == c->dop.altitude / 10E3, "ground station");
    P_CHECK("C11", fs == c->tx.tx_sampling_freq && fc == c->tx.tx_center_freq && off == c->tx.tx_offset, "doppler frequencies");
    P_CHECK("C11", start == (c->tx.file_settings ? (time_t) c->fs.start_time_seconds : 0), "doppler start time");
    P_CHECK("C11", max >= (uint64_t) 8 * sps_of(c) * cfg.buffer_size, "doppler buffer of %u for batches of %u bytes at %d samples per symbol", max, cfg.buffer_size, sps_of(c));
    for (int i = 0; i < 3; i++) {
        P_CHECK("C11,C21", !strncmp(tle[i], c->tle[i], 70), "tle line %d is not the one sent", i);
    }
    if (fault()) { c->fail_internal = 1; return -1; }
    struct mod *m = mknew(0xd0b, max); if (!m) return -ENOMEM;
    m->buf = malloc(sizeof(float complex) * (max ? max : 1)); if (!m->buf) { free(m); return -ENOMEM; }
    *out = (doppler *) m; return 0;
}
void doppler_process_rx(float complex *in, size_t n, float complex **out, size_t *nout, doppler *d) { W_FAIL("rx doppler on a tx stream"); }
void doppler_process_tx(float complex *in, size_t n, float complex **out, size_t *nout, doppler *d) {
    struct mod *m = (struct mod *) d;
    W_CHECK(m->magic == 0xd0b, "doppler used after it was destroyed");
    if (n > m->max) { P_CHECK("C11", 0, "%zu samples given to a doppler correction for %u", n, m->max); *out = NULL; *nout = 0; return; }
    for (size_t i = 0; i < n; i++) m->buf[i] = in[i] + 10000;
    *out = m->buf; *nout = n;
}
void doppler_destroy(doppler *d) { struct mod *m = (struct mod *) d; if (!m) return; W_CHECK(m->magic == 0xd0b, "doppler destroyed twice"); m->magic = 0; free(m->buf); free(m); }
int sig_source_create(float amp, uint64_t fs, uint32_t max, sig_source **out) {
    struct conn *c = &C[cur];
    P_CHECK("C11", c->kind == 5 && c->tx.tx_offset != 0 && c->tx.doppler == NULL, "frequency shift nobody asked for");
    P_CHECK("C11", amp == 1.0F && fs == c->tx.tx_sampling_freq, "frequency shift parameters");
    P_CHECK("C11", max >= (uint64_t) 8 * sps_of(c) * cfg.buffer_size, "frequency shift buffer of %u for batches of %u bytes at %d samples per symbol", max, cfg.buffer_size, sps_of(c));
    if (fault()) { c->fail_internal = 1; return -1; }
    struct mod *m = mknew(0x516, max); if (!m) return -ENOMEM;
    m->buf = malloc(sizeof(float complex) * (max ? max : 1)); if (!m->buf) { free(m); return -ENOMEM; }
    *out = (sig_source *) m; return 0;
}
void sig_source_process(int64_t f, size_t n, float complex **out, size_t *nout, sig_source *s) { W_FAIL("unexpected tone"); }
void sig_source_multiply(int64_t f, const float complex *in, size_t n, float complex **out, size_t *nout, sig_source *s) {
    struct mod *m = (struct mod *) s;
    W_CHECK(m->magic == 0x516, "frequency shift used after it was destroyed");
    P_CHECK("C11", f == m->c->tx.tx_offset, "shifted by %lld", (long long) f);
    if (n > m->max) { P_CHECK("C11", 0, "%zu samples given to a frequency shift for %u", n, m->max); *out = NULL; *nout = 0; return; }
    for (size_t i = 0; i < n; i++) m->buf[i] = in[i] + 20000;
    *out = m->buf; *nout = n;
}
void sig_source_destroy(sig_source *s) { struct mod *m = (struct mod *) s; if (!m) return; W_CHECK(m->magic == 0x516, "frequency shift destroyed twice"); m->magic = 0; free(m->buf); free(m); }
/* ------------------------------------------------------------ devices */
struct dev { int magic, kind; struct conn *c; int failat, n; struct stream_cfg *a, *b; };
static int live_tx, live_rx;
static int dev_rx(float complex **o, size_t *n, void *p) { return -1; }
static int dev_tx(float complex *in, size_t n, void *p) {
    struct dev *d = p;
    W_CHECK(d->magic == 0xde5, "the tx device is used after it was released");
    sc_yield();
    if (n == 0) return 0;
    if (d->n++ == d->failat) { d->c->txdevfail = 1; d->c->failpos = d->c->ngot; return -1; }
    for (size_t i = 0; i < n; i++) { P_CHECK("C11", d->c->ngot < 1 << 13, "endless transmission"); d->c->got[d->c->ngot++] = in[i]; }
    return 0;
}
static void dev_destroy(void *p) { struct dev *d = p; if (!d) return; P_CHECK("C12,C13", d->magic == 0xde5, "a device is released twice"); d->magic = 0; if (d->kind == 1) { live_tx--; d->c->done_tx = 1; } if (d->kind == 2) live_rx--; if (d->a) free(d->a); if (d->b) free(d->b); free(d); }
static void dev_stop(void *p) { struct dev *d = p; W_CHECK(d->magic == 0xde5, "stop of a released device"); }
static int mkdev(int kind, struct stream_cfg *a, struct stream_cfg *b, sdr_device **out) {
    struct dev *d = malloc(sizeof *d); if (!d) { free(a); free(b); return -ENOMEM; }
    sdr_device *r = malloc(sizeof *r); if (!r) { free(d); free(a); free(b); return -ENOMEM; }
    *d = (struct dev) {0xde5, kind, &C[cur], w_chance(30) ? (int) w_rnd(6) : -1, 0, a, b};
    r->plugin = d; r->sdr_process_rx = dev_rx; r->sdr_process_tx = dev_tx; r->destroy = dev_destroy; r->stop_rx = dev_stop;
    if (kind == 1) { P_CHECK("C12", live_tx == 0, "two tx devices at the same time"); live_tx++; C[cur].dev = 1; C[cur].done_tx = 0; }
    if (kind == 2) { P_CHECK("C12", live_rx == 0, "two rx devices at the same time"); live_rx++; }
    *out = r; return 0;
}
static void reqok(void) { P_CHECK("C04", C[cur].reqvalid, "a device is opened for an invalid request"); }
int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx, struct stream_cfg *tx, unsigned to, uint32_t max, iio_lib *lib, sdr_device **out) {
    struct conn *c = &C[cur]; reqok();
    P_CHECK("C12", id == (uint32_t) C[cur].xid && to == cfg.tx_plutosdr_timeout_millis && max == cfg.buffer_size && lib == cfg.iio, "pluto parameters");
    if (c->kind == 5) {
        P_CHECK("C12", rx == NULL && tx != NULL && !rx_only, "pluto direction");
        if (tx) P_CHECK("C12", tx->sampling_freq == c->tx.tx_sampling_freq && tx->center_freq == c->tx.tx_center_freq && tx->manual_gain == cfg.tx_plutosdr_gain, "pluto tx configuration");
        P_CHECK("C12", cfg.tx_sdr_type == TX_SDR_TYPE_PLUTOSDR, "pluto is not configured");
    } else {
        P_CHECK("C12", tx == NULL && rx != NULL, "pluto direction");
        if (rx) P_CHECK("C12", rx->sampling_freq == c->rx.rx_sampling_freq && rx->center_freq == c->rx.rx_center_freq + c->rx.rx_offset && rx->manual_gain == cfg.rx_plutosdr_gain && rx->offset == c->rx.rx_offset, "pluto rx configuration");
        P_CHECK("C12", cfg.rx_sdr_type == RX_SDR_TYPE_PLUTOSDR, "pluto is not configured");
    }
    if (fault()) { c->fail_internal = 1; free(rx); free(tx); return -1; }
    return mkdev(c->kind == 5 ? 1 : 2, rx, tx, out);
}
int file_source_create(uint32_t id, const char *rxf, const char *txf, uint64_t fs, int64_t off, uint32_t max, sdr_device **out) {
    struct conn *c = &C[cur]; reqok();
    P_CHECK("C12", id == (uint32_t) C[cur].xid, "id %u", id);
    if (c->kind == 5) {
        P_CHECK("C11,C12", rxf == NULL && txf && !strcmp(txf, c->fname) && fs == c->tx.tx_sampling_freq && off == 0, "tx file parameters");
        P_CHECK("C11", max >= (uint64_t) 8 * sps_of(c) * cfg.buffer_size, "tx file buffer of %u samples for batches of %u bytes at %d samples per symbol", max, cfg.buffer_size, sps_of(c));
    } else
        P_CHECK("C12", txf == NULL && rxf && !strcmp(rxf, c->fname) && fs == c->rx.rx_sampling_freq && off == c->rx.rx_offset && max == cfg.buffer_size, "rx file parameters");
    if (fault()) { c->fail_internal = 1; return -1; }
    return mkdev(c->kind == 5 ? 1 : 3, NULL, NULL, out);
}
/* ------------------------------------------------------------ rx stand-ins */
struct dsp_worker_t { int magic; uint32_t id; struct dsp_worker_t *next; };
struct sdr_worker_t { int magic; struct sdr_rx *rx; sdr_device *dev; struct dsp_worker_t *list; };
int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int port, int to, uint32_t max, sdr_device **out) {
    struct conn *c = &C[cur]; reqok();
    P_CHECK("C12", id == (uint32_t) C[cur].xid && addr == cfg.rx_sdr_server_address && port == cfg.rx_sdr_server_port && to == cfg.read_timeout_seconds && max == cfg.buffer_size, "sdr server parameters");
    P_CHECK("C12", rx->rx_center_freq == c->rx.rx_center_freq && rx->rx_sampling_freq == c->rx.rx_sampling_freq && rx->rx_offset == c->rx.rx_offset, "sdr server request");
    for (int i = 0; i < cur; i++) {
        struct sdr_worker_t *s = C[i].sdr;
        if (mode_nomem || !C[i].rxattached || C[i].ending || C[i].shut || !s) continue;
        P_CHECK("C12,C09", !(s->rx->rx_center_freq == rx->rx_center_freq && s->rx->rx_offset == rx->rx_offset && s->rx->rx_sampling_freq >= rx->rx_sampling_freq), "connection %d does not share the stream of connection %d", cur, i);
    }
    if (fault()) { c->fail_internal = 1; return -1; }
    return mkdev(4, NULL, NULL, out);
}
int dsp_worker_create(uint32_t id, int fd, struct server_config *cf, struct RxRequest *req, dsp_worker **out) {
    struct conn *c = &C[cur]; reqok();
    P_CHECK("C12,C13", id == (uint32_t) C[cur].xid && fd == c->fd, "dsp worker of another connection");
    P_CHECK("C03", req->rx_center_freq == c->rx.rx_center_freq && req->rx_sampling_freq == c->rx.rx_sampling_freq && req->rx_offset == c->rx.rx_offset && req->demod_baud_rate == c->rx.demod_baud_rate && req->demod_decimation == c->rx.demod_decimation && req->demod_destination == c->rx.demod_destination, "the request is not the one sent");
    if (fault()) { c->fail_internal = 1; return -1; }
    struct dsp_worker_t *d = malloc(sizeof *d); if (!d) return -ENOMEM;
    *d = (struct dsp_worker_t) {0xd5b, id, NULL}; *out = d; return 0;
}
void dsp_worker_destroy(void *p) { struct dsp_worker_t *d = p; if (!d) return; P_CHECK("C13,C12", d->magic == 0xd5b, "dsp worker destroyed twice"); byid(d->id)->rxattached = 0; d->magic = 0; free(d); }
bool sdr_worker_find_closest(void *id, void *data) {
    struct sdr_rx *rx = id; struct sdr_worker_t *s = data; if (!s) return false;
    W_CHECK(s->magic == 0x5d2, "a released sdr worker is looked at");
    return s->rx->rx_center_freq == rx->rx_center_freq && s->rx->rx_sampling_freq >= rx->rx_sampling_freq && s->rx->rx_offset == rx->rx_offset;
}
int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *dev, sdr_worker **out) {
    P_CHECK("C12", rx->rx_center_freq == C[cur].rx.rx_center_freq && rx->rx_sampling_freq == C[cur].rx.rx_sampling_freq && rx->rx_offset == C[cur].rx.rx_offset, "the stream parameters are not the requested ones");
    if (fault()) { C[cur].fail_internal = 1; return -1; }
    struct sdr_worker_t *s = malloc(sizeof *s); if (!s) return -ENOMEM;
    *s = (struct sdr_worker_t) {0x5d2, rx, dev, NULL}; *out = s; return 0;
}
static void sdr_free(struct sdr_worker_t *s) {
    W_CHECK(s->magic == 0x5d2, "sdr worker destroyed twice"); s->magic = 0;
    for (struct dsp_worker_t *d = s->list; d;) { struct dsp_worker_t *n = d->next; dsp_worker_destroy(d); d = n; }
    s->dev->stop_rx(s->dev->plugin); s->dev->destroy(s->dev->plugin); free(s->dev); free(s->rx); free(s);
}
void sdr_worker_destroy(void *p) { if (p) sdr_free(p); }
void sdr_worker_destroy_by_dsp_worker_id(uint32_t id, sdr_worker *s) {
    if (!s) return;
    W_CHECK(s->magic == 0x5d2, "detach from a released sdr worker");
    sc_yield();
    W_CHECK(s->magic == 0x5d2, "detach from a released sdr worker");
    struct dsp_worker_t **pp = &s->list;
    while (*pp) { if ((*pp)->id == id) { struct dsp_worker_t *d = *pp; *pp = d->next; dsp_worker_destroy(d); break; } pp = &(*pp)->next; }
    if (!s->list) sdr_free(s);
}
int sdr_worker_add_dsp_worker(dsp_worker *d, sdr_worker *s) {
    W_CHECK(d && d->magic == 0xd5b, "a released dsp worker is attached");
    W_CHECK(s && s->magic == 0x5d2, "attached to a released sdr worker");
    sc_yield();
    W_CHECK(s->magic == 0x5d2, "attached to a released sdr worker");
    if (fault()) { C[cur].fail_internal = 1; return -ENOMEM; }
    struct dsp_worker_t **pp = &s->list; while (*pp) pp = &(*pp)->next; *pp = d; d->next = NULL;
    C[cur].rxattached = 1; C[cur].sdr = s;
    return 0;
}
/* ------------------------------------------------------------ scripts */
static void be32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static void put_msg(struct conn *c, int ver, int type, uint32_t len, const uint8_t *body, size_t nbody) {
    uint8_t *p = c->in + c->nin; p[0] = ver; p[1] = type; be32(p + 2, len); if (nbody) memcpy(p + 6, body, nbody); c->nin += 6 + nbody;
}
static void timeouts(struct conn *c) { if (w_chance(20) && c->ntmo < 8) { c->tmo[c->ntmo] = c->nin; c->tmocnt[c->ntmo++] = 1 + (int) w_rnd(3); } }
static void mkreq(struct conn *c) {
    int bad = w_chance(35);
    c->reqvalid = 1;
    doppler_settings__init(&c->dop); fsk_demodulation_settings__init(&c->fd_); fsk_modulation_settings__init(&c->fm); file_settings__init(&c->fs);
    for (int i = 0; i < 6; i++) { int n = w_chance(60) ? 69 : (int) w_rnd(150); for (int j = 0; j < n; j++) c->tlebuf[i][j] = (char) ('A' + w_rnd(40)); c->tlebuf[i][n] = 0; c->tle[i] = c->tlebuf[i]; }
    c->dop.n_tle = 3; c->dop.tle = c->tle; c->dop.latitude = (uint32_t) w_next(); c->dop.longitude = (uint32_t) w_next(); c->dop.altitude = (uint32_t) w_next();
    snprintf(c->fname, sizeof c->fname, "file%d", (int) w_rnd(1000)); c->fs.filename = c->fname; c->fs.start_time_seconds = w_rnd(2000000000);
    int hasdop = w_chance(30), hasfile = w_chance(50);
    if (c->kind == 0) {
        rx_request__init(&c->rx);
        c->rx.rx_center_freq = 1 + w_rnd(3); c->rx.rx_sampling_freq = 1 + w_rnd(3) * 48000; c->rx.rx_offset = (int64_t) w_rnd(2) - 0; c->rx.rx_dump_file = w_chance(50);
        if (w_chance(20)) { c->rx.rx_center_freq = w_next() >> w_rnd(64) | 1; c->rx.rx_offset = (int64_t) (w_next() >> w_rnd(64)); }
        c->rx.demod_type = MODEM_TYPE__GMSK; c->rx.demod_baud_rate = 1 + (uint32_t) w_rnd(10000); c->rx.demod_decimation = 1 + (uint32_t) w_rnd(255);
        c->rx.demod_destination = (DemodDestination) w_rnd(3);
        c->fd_.demod_fsk_deviation = (int64_t) w_next(); c->fd_.demod_fsk_transition_width = 1 + (uint32_t) w_rnd(5000);
        if (cfg.rx_sdr_type == RX_SDR_TYPE_FILE) hasfile = 1;
        c->rx.doppler = hasdop ? &c->dop : NULL; c->rx.file_settings = hasfile ? &c->fs : NULL; c->rx.fsk_settings = &c->fd_;
        if (bad) switch (w_rnd(11)) {
            case 0: c->rx.demod_type = w_chance(50) ? 2 : 0; c->reqvalid = 0; break;
            case 1: c->rx.rx_center_freq = 0; c->reqvalid = 0; break;
            case 2: c->rx.rx_sampling_freq = 0; c->reqvalid = 0; break;
            case 3: c->rx.demod_baud_rate = 0; c->reqvalid = 0; break;
            case 4: c->rx.doppler = &c->dop; c->dop.n_tle = (size_t[]) {0, 1, 2, 4, 5, 6}[w_rnd(6)]; c->reqvalid = 0; break;
            case 5: c->rx.demod_decimation = 0; c->reqvalid = 0; break;
            case 6: c->rx.demod_decimation = (uint32_t[]) {256, 257, 1 << 16, 512, 1u << 31}[w_rnd(5)]; c->reqvalid = 0; break;
            case 7: c->rx.demod_destination = 3 + (int) w_rnd(2); c->reqvalid = 0; break;
            case 8: c->rx.file_settings = NULL; if (cfg.rx_sdr_type == RX_SDR_TYPE_FILE) c->reqvalid = 0; break;
            case 9: c->rx.fsk_settings = NULL; c->reqvalid = 0; break;
            default: c->fd_.demod_fsk_transition_width = 0; c->reqvalid = 0;
        }
    } else {
        tx_request__init(&c->tx);
        c->tx.tx_center_freq = 1 + w_rnd(1u << 31); c->tx.mod_baud_rate = 1 + (uint32_t) w_rnd(5000); c->tx.tx_sampling_freq = c->tx.mod_baud_rate * (1 + w_rnd(3)) + w_rnd(c->tx.mod_baud_rate);
        c->tx.tx_offset = w_chance(50) ? 0 : (int64_t) w_rnd(20000) - 10000; c->tx.tx_dump_file = w_chance(30); c->tx.mod_type = MODEM_TYPE__GMSK;
        c->fm.mod_fsk_deviation = (int64_t) w_rnd(20000) - 10000;
        if (cfg.tx_sdr_type == TX_SDR_TYPE_FILE) hasfile = 1;
        c->tx.doppler = hasdop ? &c->dop : NULL; c->tx.file_settings = hasfile ? &c->fs : NULL; c->tx.fsk_settings = &c->fm;
        if (cfg.tx_sdr_type == TX_SDR_TYPE_NONE) c->reqvalid = 0;
        if (bad) switch (w_rnd(7)) {
            case 0: c->tx.mod_type = w_chance(50) ? 2 : 0; c->reqvalid = 0; break;
            case 1: c->tx.tx_center_freq = 0; c->reqvalid = 0; break;
            case 2: c->tx.tx_sampling_freq = 0; c->reqvalid = 0; break;
            case 3: c->tx.mod_baud_rate = 0; c->reqvalid = 0; break;
            case 4: c->tx.doppler = &c->dop; c->dop.n_tle = (size_t[]) {0, 1, 2, 4, 5, 6}[w_rnd(6)]; c->reqvalid = 0; break;
            case 5: c->tx.file_settings = NULL; if (cfg.tx_sdr_type == TX_SDR_TYPE_FILE) c->reqvalid = 0; break;
            default: c->tx.fsk_settings = NULL; c->reqvalid = 0;
        }
    }
}
static uint8_t body[40000];
static void mkconn(int i) {
    struct conn *c = &C[i];
    memset(c, 0, offsetof(struct conn, exp)); c->ngot = c->nexp = c->ndump = 0; c->dumpopen = c->dumpclosed = 0; c->mask = 0; c->failpos = 0; c->rxattached = 0; c->sdr = NULL;
    c->fd = FD0 + i; c->id = i; c->after = -1; c->wfail = w_chance(5) ? w_rnd(30) : 1 << 20; c->setsock_fail = w_chance(2);
    c->end = (int[]) {END_CLOSE, END_CLOSE, END_SILENT, END_RESET}[w_rnd(4)];
    if (i && w_chance(50)) { int j = (int) w_rnd(i); if (C[j].end != END_SILENT) c->after = j; }
    int k = (int) w_rnd(20);
    c->kind = k < 8 ? 5 : k < 15 ? 0 : k < 17 ? 3 : k < 18 ? (int[]) {1, 2, 4, 6, 77, 255}[w_rnd(6)] : -1;
    c->first_status = -1;
    if (c->kind == -1) { /* a header cut short, or another version */
        if (w_chance(50)) { put_msg(c, 0, 3, 0, NULL, 0); c->nin = w_rnd(6); if (c->end == END_SILENT && w_chance(50)) c->end = END_CLOSE; c->unread = 1; }
        else put_msg(c, 1 + (int) w_rnd(255), (int) w_rnd(6), 0, NULL, 0);
        c->first_status = 1; c->first_details = RESPONSE_DETAILS_INVALID_REQUEST;
        w_note(" ; [%d] broken header%s", i, c->after >= 0 ? " (after another)" : "");
        return;
    }
    if (c->kind != 0 && c->kind != 5) {
        put_msg(c, 0, c->kind, 0, NULL, 0);
        c->first_status = c->kind == 3 ? 0 : 1; c->first_details = c->kind == 3 ? 0 : RESPONSE_DETAILS_INVALID_REQUEST;
        w_note(" ; [%d] message type %d", i, c->kind);
        return;
    }
    timeouts(c); if (c->ntmo) { c->first_status = 1; c->first_details = RESPONSE_DETAILS_INVALID_REQUEST; c->ntmo = 0; c->first_status = -1; }
    mkreq(c);
    size_t n = c->kind == 0 ? rx_request__pack(&c->rx, body) : tx_request__pack(&c->tx, body);
    w_note(" ; [%d] %s%s%s end=%s", i, c->kind == 0 ? "rx" : "tx", c->reqvalid ? "" : " invalid", c->after >= 0 ? " after another" : "", c->end == END_CLOSE ? "close" : c->end == END_SILENT ? "silent" : "reset");
    if (c->after >= 0) w_note(" (%d)", c->after);
    if (w_chance(8)) { /* truncated, oversized or unparsable body */
        c->reqvalid = 0;
        switch (w_rnd(3)) {
            case 0: put_msg(c, 0, c->kind, (uint32_t) n, body, w_rnd(n)); break;
            case 1: put_msg(c, 0, c->kind, (uint32_t) (32 * 1024 + 1 + (w_chance(50) ? 0 : w_rnd(1u << 31))), NULL, 0); break;
            default: memset(body, 0xff, 12); put_msg(c, 0, c->kind, 12, body, 12);
        }
        c->first_status = 1; c->first_details = 1; c->unread = 1; w_note(" broken body"); return;
    }
    put_msg(c, 0, c->kind, (uint32_t) n, body, n);
    c->reqend = c->nin;
    if (!c->reqvalid) { c->first_status = 1; c->first_details = RESPONSE_DETAILS_INVALID_REQUEST; return; }
    int k2 = (int) w_rnd(7); int room = (1 << 13) / (8 * 4) - 40;
    for (int j = 0; j < k2; j++) {
        struct msg *m = &c->m[c->nm];
        *m = (struct msg) {0};
        timeouts(c);
        int what = (int) w_rnd(12);
        if (what < 8) {
            size_t len = w_chance(10) ? 0 : (size_t) w_size(1, w_chance(30) ? 150 : 20);
            if ((int) len > room) len = 0;
            room -= (int) len;
            uint8_t d[200]; for (size_t x = 0; x < len; x++) d[x] = (uint8_t) w_next();
            TxData t = TX_DATA__INIT; t.data.data = d; t.data.len = len;
            size_t nb = tx_data__pack(&t, body);
            m->type = 4; m->ndata = len; m->data = c->in + c->nin + 6 + nb - len;
            int bad = (int) w_rnd(20);
            if (bad == 0) { /* cut short by the end of the stream */
                put_msg(c, 0, 4, (uint32_t) nb, body, w_rnd(nb)); m->type = 40; m->end = c->nin; c->nm++; if (c->end == END_SILENT) c->end = END_CLOSE; w_note(" data!"); break;
            } else if (bad == 1) { memset(body, 0xff, 11); put_msg(c, 0, 4, 11, body, 11); m->type = 40; m->end = c->nin; c->nm++; w_note(" garbage"); }
            else if (bad == 2) { put_msg(c, 0, 4, 32 * 1024 + 1 + (uint32_t) w_rnd(100000), NULL, 0); m->type = 40; m->end = c->nin; c->nm++; w_note(" oversized"); break; }
            else { put_msg(c, 0, 4, (uint32_t) nb, body, nb); m->end = c->nin; c->nm++; w_note(" data(%zu)", len); }
        } else if (what == 8) { put_msg(c, 1 + (int) w_rnd(255), 4, 0, NULL, 0); w_note(" version"); }
        else if (what == 9) { put_msg(c, 0, (int[]) {2, 3, 6, 7, 255}[w_rnd(5)], 0, NULL, 0); w_note(" other"); }
        else if (what == 10 && c->end != END_SILENT) { put_msg(c, 0, TYPE_SHUTDOWN, 0, NULL, 0); w_note(" shutdown"); c->done_tx = 0; break; }
    }
}
/* ------------------------------------------------------------ what must have come back */
static int parse(struct conn *c, size_t *p, int *st, uint32_t *det) {
    uint8_t *o = c->out + *p; size_t left = c->nout - *p;
    if (left < 6) return 0;
    uint32_t len = (uint32_t) o[2] << 24 | o[3] << 16 | o[4] << 8 | o[5];
    P_CHECK("C03", o[0] == 0 && o[1] == TYPE_RESPONSE, "connection %d: a frame with version %d type %d", c->id, o[0], o[1]);
    if (left < 6 + (size_t) len) { P_CHECK("C03", c->wfail < 1 << 20, "connection %d: a frame announces %u bytes, %zu follow", c->id, len, left - 6); return 0; }
    Response *r = response__unpack(NULL, len, o + 6);
    P_CHECK("C03", r != NULL, "connection %d: unparsable response", c->id);
    if (!r) return 0;
    *st = r->status; *det = r->details; response__free_unpacked(r, NULL);
    *p += 6 + len;
    return 1;
}
static void judge(struct conn *c) {
    if (!c->accepted) return;
    P_CHECK("C13", c->closed, "connection %d was never closed", c->id);
    if (c->setsock_fail) { P_CHECK("C13", c->nout == 0, "a response on a refused connection"); return; }
    if (mode_nomem || c->wfail < 1 << 20) return;
    size_t p = 0; int st; uint32_t det;
    int any = parse(c, &p, &st, &det);
    if (stop_early && !any) return;
    P_CHECK("C03,C11,C04", any, "connection %d got no response", c->id);
    if (!any) return;
    if (c->first_status >= 0) {
        P_CHECK(c->kind == 0 || c->kind == 5 ? "C04" : "C03", st == c->first_status && (int) det == c->first_details, "connection %d answered %d/%u instead of %d/%d", c->id, st, det, c->first_status, c->first_details);
        P_CHECK("C03", p == c->nout, "connection %d got more than one response", c->id);
        return;
    }
    if (st != 0) {
        if (det == RESPONSE_DETAILS_TX_IS_BEING_USED) P_CHECK("C12", c->kind == 5 && c->txbusy, "connection %d is told that tx is being used, but it is not", c->id);
        else if (det == RESPONSE_DETAILS_RX_IS_BEING_USED) P_CHECK("C12", c->kind == 0 && cfg.rx_sdr_type == RX_SDR_TYPE_PLUTOSDR && c->rxbusy, "connection %d is told that rx is being used, but it is not", c->id);
        else P_CHECK("C04,C12", det == RESPONSE_DETAILS_INTERNAL_ERROR && c->fail_internal, "connection %d: a valid request is answered %d/%u", c->id, st, det);
        P_CHECK("C03", p == c->nout, "connection %d got more than one response", c->id);
        return;
    }
    P_CHECK("C04,C03", c->reqvalid, "connection %d: an invalid request is accepted", c->id);
    P_CHECK("C12,C04", !c->fail_internal, "connection %d: success although its stream could not be set up", c->id);
    P_CHECK("C03", det == (uint32_t) c->xid, "connection %d was given id %u", c->id, det);
    /* established stream: one answer per tx data message */
    size_t e = 0; int failed = 0, i;
    size_t unit = (size_t) sps_of(c) * 8;
    for (i = 0; i < c->nm; i++) {
        struct msg *m = &c->m[i];
        int ok = parse(c, &p, &st, &det);
        if (!ok) break;
        if (m->type == 40 || c->kind == 0) { P_CHECK("C11", st == 1 && det == RESPONSE_DETAILS_INVALID_REQUEST, "connection %d: broken tx data is answered %d/%u", c->id, st, det); continue; }
        size_t want = m->ndata * unit, k = 0, e0 = e;
        for (size_t x = 0; x < want; x++) {
            size_t byte = x / unit; int bit = (int) (x % unit) / sps_of(c), j = (int) (x % unit) % sps_of(c);
            float complex v = sample(m->data[byte], (m->data[byte] >> bit) & 1, j) + (c->tx.doppler ? 10000 : c->tx.tx_offset ? 20000 : 0);
            if (e < c->ngot && c->got[e] == v) { e++; k++; } else break;
        }
        if (getenv("DBG")) fprintf(w_out, "conn %d msg %d len %zu st %d k %zu want %zu e %zu ngot %zu failed %d\n", c->id, i, m->ndata, st, k, want, e, c->ngot, failed), fflush(w_out);
        if (st == 0) P_CHECK("C11", k == want, "connection %d message %d: success, but only the first %zu of %zu samples were transmitted as they are", c->id, i, k, want);
        else { P_CHECK("C11", det == RESPONSE_DETAILS_INTERNAL_ERROR && c->txdevfail && !failed, "connection %d message %d: answered %d/%u although the device accepted everything", c->id, i, st, det); failed = 1; P_CHECK("C11", c->failpos >= e0 && c->failpos - e0 <= k, "connection %d message %d: what was transmitted before the failure is not a prefix of the message", c->id, i); e = c->failpos; }
    }
    size_t tail = p;
    P_CHECK("C11,C03", !parse(c, &tail, &st, &det), "connection %d got a response to no message", c->id);
    int complete = c->pos == c->nin && !stop_early && c->end != END_SILENT;
    P_CHECK("C11", !complete || i == c->nm, "connection %d: %d of %d messages answered", c->id, i, c->nm);
    if (complete) P_CHECK("C11", e == c->ngot, "connection %d: %zu samples transmitted, %zu expected", c->id, c->ngot, e);
    if (c->txdevfail && complete) P_CHECK("C11", failed, "connection %d: a device failure was not reported", c->id);
    if (complete && c->tx.tx_dump_file && c->dumpopen == 1 && c->kind == 5) {
        P_CHECK("C11", c->dumpclosed, "the dump file stays open");
        if (!c->txdevfail) { P_CHECK("C11", c->ndump == c->ngot, "dump of %zu samples, %zu transmitted", c->ndump, c->ngot); for (size_t x = 0; x < c->ngot; x++) P_CHECK("C11", c->dump[x] == c->got[x], "dump differs at %zu", x); }
    }
}
static void state(void) { for (int i = 0; i < nconn; i++) w_note(" {%d acc=%d closed=%d shut=%d pos=%zu/%zu out=%zu end=%d after=%d}", i, C[i].accepted, C[i].closed, C[i].shut, C[i].pos, C[i].nin, C[i].nout, C[i].end, C[i].after); for (int i = 0; i < sc_n; i++) w_note(" t%d=%d", i, sc_t[i].st); }
static void w_init_once(void) { sc_init(); sc_ondead = state; w_case_secs = 10; }
static int all_over(void *x) {
    for (int i = 0; i < nconn; i++) { if (!C[i].accepted) return 0; if (!C[i].closed && C[i].end != END_SILENT) return 0; if (!C[i].closed && C[i].pos < C[i].nin) return 0; }
    return 1;
}
static int late(void *x) { return nextacc >= (int) w_rnd(nconn + 1); }
void w_case(uint64_t n) {
    memset(&cfg, 0, sizeof cfg);
    cfg.bind_address = "127.0.0.1"; cfg.port = 8090; cfg.read_timeout_seconds = (int) w_rnd(20); cfg.buffer_size = (uint32_t) w_size(1, 64); cfg.queue_size = 4;
    cfg.rx_sdr_type = (uint8_t) w_rnd(3); cfg.tx_sdr_type = (uint8_t) (w_chance(10) ? 0 : 1 + w_rnd(2)); cfg.base_path = "/base"; cfg.rx_sdr_server_address = "10.0.0.1"; cfg.rx_sdr_server_port = 8091;
    cfg.tx_plutosdr_gain = (double) w_rnd(90); cfg.rx_plutosdr_gain = (double) w_rnd(90); cfg.tx_plutosdr_timeout_millis = (unsigned) w_rnd(100000); cfg.iio = (iio_lib *) 0x1230;
    nconn = 1 + (int) w_rnd(n < 2000 ? 3 : 6); nextacc = 0; idcount = 0; stop_req = 0; lst_open = 0; cur = -1; protolive = 0; live_tx = live_rx = 0;
    mode_nomem = w_chance(10); stop_early = w_chance(10); listen_fail = w_chance(1) ? 1 + (int) w_rnd(4) : 0;
    faultpct = mode_nomem ? 0 : w_chance(60) ? 0 : w_chance(50) ? 5 : 25;
    w_note("rx=%d tx=%d buffer=%u%s%s faults=%d%%", cfg.rx_sdr_type, cfg.tx_sdr_type, cfg.buffer_size, mode_nomem ? " nomem" : "", stop_early ? " early stop" : "", faultpct);
    for (int i = 0; i < nconn; i++) mkconn(i);
    sc_begin(); sc_switchpct = (int[]) {0, 10, 40, 90}[w_rnd(4)];
    w_acct_begin(mode_nomem ? (int) w_rnd(12 * nconn) : -1);
    if (w_chance(8)) { sc_failcreate = (int) w_rnd(nconn + 1); if (sc_failcreate > 0) mode_nomem = 1; else listen_fail = 5; }
    srv = NULL;
    int code = tcp_server_create(&cfg, &srv);
    if (listen_fail) P_CHECK("C13", code != 0 && !lst_open, "a server that cannot be started returns %d%s", code, lst_open ? " and keeps its socket" : "");
    if (code != 0) { W_CHECK(listen_fail || mode_nomem, "the server does not start"); sc_end(); W_CHECK(w_acct_end() == 0, "memory is leaked when the server cannot be started"); return; }
    if (listen_fail) { w_acct_end(); sc_on = 0; return; }
    if (stop_early) sc_wait_io(late, NULL); else sc_wait_io(all_over, NULL);
    tcp_server_destroy(srv);
    tcp_server_join_thread(srv);
    sc_end();
    for (int i = 1; i < sc_n; i++) P_CHECK("C13", sc_t[i].joined, "a client thread is never joined");
    for (int i = 0; i < nconn; i++) judge(&C[i]);
    P_CHECK("C12,C13", live_tx == 0 && live_rx == 0, "a device stays open after the server stopped");
    int l = w_acct_end();
    P_CHECK("C13", l == 0, "%d allocations leaked", l);
    P_CHECK("C13,C03", protolive == 0, "%d messages leaked", protolive);
}
