// SRC: src/sdr_worker.c src/dsp_worker.c src/queue.c src/linked_list.c src/api.pb-c.c
// WRAP: malloc free calloc volk_malloc volk_free fopen fwrite fclose fflush pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast queue_put take_buffer_for_processing complete_buffer_processing create_queue destroy_queue linked_list_add linked_list_foreach linked_list_destroy_by_id linked_list_destroy
/* the receive side: sdr_worker, dsp_worker, queue and list with their threads under a deterministic scheduler, a
 * scripted device, and recording stand-ins for doppler, demodulator, files and sockets */
#define W_MALLOC
#include "w.h"
#include "w_sched.h"
#include <math.h>
#include <complex.h>
#include "api.pb-c.h"
#include "server_config.h"
#include "sdr_worker.h"
#include "dsp_worker.h"
#include "dsp/fsk_demod.h"
#include "dsp/doppler.h"
#include "queue.h"
#include "linked_list.h"
void *__real_volk_malloc(size_t n, size_t al) { return 0; }
void __real_volk_free(void *p) {}
#define NW 6
#define BS 24
#define NCALL 400
#define P9 "C09"
#define P10 "C10"
struct stream { int8_t b[NCALL * BS * 8]; size_t n; };
struct fake_file { int w, kind, open; };
struct worker {
    int used, id, sock, dest, dump, demod, dop, created, attached, gone, queue_dead;
    RxRequest rx; DopplerSettings ds; FskDemodulationSettings fs; FileSettings fi; char *tle[3];
    dsp_worker *dsp; queue *q;
    int add_at, del_at, lastput; uint8_t put[NCALL]; int nacc, ntaken, acc[NCALL];
    float complex *cur; size_t curlen; float complex *curlast; int holding;
    float complex S[NCALL * BS]; size_t ns; size_t blk_end[NCALL];
    struct stream dumped, filed, sent;
    struct fake_file df, mf;
    int dumpfail, filefail, sockfail, nd, nf, nsck, failed, failkind; size_t failblk;
    int dopp_alive, demod_alive; size_t dopn, demn; float complex dopout[BS]; int8_t demout[BS];
    int fail_create, th, early;
};
static struct worker W[NW]; static int nw, creating[SC_MAX]; static struct server_config cfg; static char base[64];
static sdr_worker *sdr; static struct sdr_rx *rxp;
static int freed_rx;
static struct worker *byq(queue *q) { for (int i = 0; i < nw; i++) if (W[i].q == q) return &W[i]; W_FAIL("an unknown queue is used"); return NULL; }
/* ---------------------------------------------------------------- device */
static int calls, len_of[NCALL], endcall, stopped, destroyed, in_rx, ended, tmopct, blkpct, maxlen; static float complex *devbuf; static int devcur;
static float complex sample(int c, int i) { return (float) (c * 64 + i) + I * (float) (i * 3 - c); }
static int dev_rx(float complex **out, size_t *n, void *plugin) {
    P_CHECK(P9, plugin == (void *) &calls, "the device is called with another plugin");
    P_CHECK(P9, !destroyed, "the device is read after it was destroyed");
    W_CHECK(!in_rx, "two reads of the device at a time");
    in_rx = 1; sc_yield(); in_rx = 0;
    for (int i = 0; i < BS; i++) devbuf[i] = NAN;
    int c = calls; if (calls < NCALL - 1) calls++;
    devcur = c; len_of[c] = 0; *out = NULL; *n = 0;
    P_CHECK(P9, !ended, "the device is read again after it reported its end");
    if (c >= endcall || stopped) {
        if (c == endcall && blkpct && !stopped) { int k = 1 + (int) w_rnd(maxlen); len_of[c] = k; for (int i = 0; i < k; i++) devbuf[i] = sample(c, i); *out = devbuf; *n = k; return -1; }
        if (stopped && c < endcall && w_chance(30)) { sc_switch(); return -11; }
        ended = 1; return -1;
    }
    if (w_chance(tmopct)) { sc_switch(); return w_chance(50) ? -11 : -2; }
    int k = 1 + (int) w_rnd(maxlen); len_of[c] = k;
    for (int i = 0; i < k; i++) devbuf[i] = sample(c, i);
    *out = devbuf; *n = k;
    return w_chance(15) ? -11 : 0;
}
static void dev_stop(void *p) { P_CHECK(P9, !destroyed, "a destroyed device is stopped"); stopped++; sc_yield(); }
static void dev_destroy(void *p) {
    P_CHECK(P9, !destroyed, "the device is destroyed twice"); P_CHECK(P9, stopped, "the device is destroyed without being stopped");
    P_CHECK(P9, !in_rx, "the device is destroyed while it is read");
    destroyed = 1;
}
/* ---------------------------------------------------------------- doppler and demodulator */
static struct worker *creator(void) { int i = creating[sc_cur]; W_CHECK(i >= 0, "a part of a worker is created outside of its creation"); return &W[i]; }
int doppler_create(double lat, double lon, double alt, uint64_t fs, uint64_t fc, int64_t off, time_t start, uint32_t max, char tle[3][80], doppler **d) {
    struct worker *w = creator();
    P_CHECK(P10, w->dop, "a doppler correction nobody asked for");
    P_CHECK(P10, fs == w->rx.rx_sampling_freq && fc == w->rx.rx_center_freq && off == 0, "wrong frequencies for the doppler correction");
    P_CHECK(P10, start == (time_t) (w->rx.file_settings ? w->fi.start_time_seconds : 0), "wrong start time of the doppler correction");
    P_CHECK(P10, max == cfg.buffer_size, "wrong buffer of the doppler correction");
    P_CHECK(P10, lat == w->ds.latitude / 10E6 && lon == w->ds.longitude / 10E6 && alt == w->ds.altitude / 10E3, "wrong place of the doppler correction");
    P_CHECK(P10, !strcmp(tle[0], w->tle[0]) && !strcmp(tle[1], w->tle[1]) && !strcmp(tle[2], w->tle[2]), "wrong elements");
    if (w->fail_create == 1) return -1;
    w->dopp_alive = 1; *d = (doppler *) &w->dopn; return 0;
}
void api_utils_convert_tle(char **tle, char (*output)[80]) { for (int i = 0; i < 3; i++) strcpy(output[i], tle[i]); }
static struct worker *bydop(void *d) { for (int i = 0; i < nw; i++) if (d == (void *) &W[i].dopn) { P_CHECK(P10, W[i].dopp_alive, "the doppler correction is used after it was destroyed"); return &W[i]; } W_FAIL("unknown doppler"); return NULL; }
static float complex dopf(float complex x, size_t n) { return x * 2 + (float) (n % 1000) * 5; }
void doppler_process_rx(float complex *in, size_t n, float complex **out, size_t *on, doppler *d) {
    struct worker *w = bydop(d);
    P_CHECK(P10, n <= BS, "the doppler correction gets more than a block"); if (n > BS) n = BS;
    for (size_t i = 0; i < n; i++) w->dopout[i] = dopf(in[i], w->dopn++);
    sc_yield(); *out = w->dopout; *on = n;
}
void doppler_process_tx(float complex *in, size_t n, float complex **out, size_t *on, doppler *d) { P_CHECK(P10, 0, "reception is corrected like a transmission"); doppler_process_rx(in, n, out, on, d); }
void doppler_destroy(doppler *d) { if (!d) return; bydop(d)->dopp_alive = 0; }
int fsk_demod_create(uint64_t fs, uint32_t baud, int64_t dev, uint8_t dec, uint32_t tw, bool dc, uint32_t max, fsk_demod **d) {
    struct worker *w = creator();
    P_CHECK(P10, w->demod, "a demodulator nobody asked for");
    P_CHECK(P10, fs == w->rx.rx_sampling_freq && baud == w->rx.demod_baud_rate && dev == w->fs.demod_fsk_deviation && dec == w->rx.demod_decimation && tw == w->fs.demod_fsk_transition_width && dc == w->fs.demod_fsk_use_dc_block && max == cfg.buffer_size, "wrong parameters of the demodulator");
    if (w->fail_create == 2) return -1;
    w->demod_alive = 1; *d = (fsk_demod *) &w->demn; return 0;
}
static struct worker *bydem(const void *d) { for (int i = 0; i < nw; i++) if (d == (void *) &W[i].demn) { P_CHECK(P10, W[i].demod_alive, "the demodulator is used after it was destroyed"); return &W[i]; } W_FAIL("unknown demodulator"); return NULL; }
static int8_t demf(float complex x, size_t n) { return (int8_t) (int) fmod(fabs(creal(x) * 3 + cimag(x) * 7 + n * 11), 251); }
void fsk_demod_process(const float complex *in, size_t n, int8_t **out, size_t *on, fsk_demod *d) {
    struct worker *w = bydem(d); size_t k = 0;
    P_CHECK(P10, n <= BS, "the demodulator gets more than a block"); if (n > BS) n = BS;
    for (size_t i = 0; i < n; i++, w->demn++) if (w->demn % 3 == 0) w->demout[k++] = demf(in[i], w->demn);
    sc_yield(); *out = w->demout; *on = k;
}
void fsk_demod_destroy(fsk_demod *d) { if (!d) return; bydem(d)->demod_alive = 0; }
/* ---------------------------------------------------------------- files and sockets */
FILE *__real_fopen(const char *p, const char *m); size_t __real_fwrite(const void *b, size_t s, size_t n, FILE *f); int __real_fclose(FILE *f); int __real_fflush(FILE *f);
FILE *__wrap_fopen(const char *p, const char *m) {
    if (!sc_on) return __real_fopen(p, m);
    struct worker *w = creator(); char a[128], b[128];
    snprintf(a, sizeof a, "%s/rx.sdr2demod.%d.cf32", base, w->id); snprintf(b, sizeof b, "%s/rx.demod2client.%d.s8", base, w->id);
    int ka = !strcmp(p, a), kb = !strcmp(p, b);
    P_CHECK(P10, (ka && w->dump) || (kb && (w->dest == DEMOD_DESTINATION__FILE || w->dest == DEMOD_DESTINATION__BOTH)), "opens %s", p);
    P_CHECK(P10, m[0] == 'w', "a result file is not created anew");
    if (w->fail_create == (ka ? 3 : 4)) return NULL;
    struct fake_file *f = ka ? &w->df : &w->mf;
    f->w = (int) (w - W); f->kind = ka ? 0 : 1; f->open = 1;
    return (FILE *) f;
}
static struct fake_file *fake(void *f) { for (int i = 0; i < nw; i++) if (f == &W[i].df || f == &W[i].mf) return f; return NULL; }
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) {
    struct fake_file *k = fake(f);
    if (!k) return __real_fwrite(b, s, n, f);
    P_CHECK(P10, k->open == 1, "write to a closed file");
    struct worker *w = &W[k->w]; struct stream *o = k->kind ? &w->filed : &w->dumped;
    P_CHECK(P10, !w->failed, "output goes on after a failed write");
    int fail = k->kind ? (w->filefail == w->nf++) : (w->dumpfail == w->nd++);
    size_t m = n; if (fail && n) { m = w_rnd(n); w->failed = 1; w->failkind = k->kind; w->failblk = (size_t) w->ntaken; }
    sc_yield();
    if (o->n + m * s > sizeof o->b) W_FAIL("more output than input");
    memcpy(o->b + o->n, b, m * s); o->n += m * s;
    return m;
}
int __wrap_fflush(FILE *f) { return f && fake(f) ? 0 : __real_fflush(f); }
int __wrap_fclose(FILE *f) { struct fake_file *k = fake(f); if (!k) return __real_fclose(f); P_CHECK(P10, k->open == 1, "a file is closed twice"); k->open = 2; return 0; }
int tcp_utils_write_data(uint8_t *b, size_t n, int sock) {
    struct worker *w = NULL;
    for (int i = 0; i < nw; i++) if (W[i].sock == sock) w = &W[i];
    P_CHECK(P10, w != NULL, "data is sent to an unknown socket"); if (!w) return -1;
    P_CHECK(P10, !w->failed, "output goes on after a failed write");
    int fail = w->sockfail == w->nsck++;
    sc_yield();
    if (fail) { w->failed = 1; w->failkind = 2; w->failblk = (size_t) w->ntaken; return -1; }
    if (w->sent.n + n > sizeof w->sent.b) W_FAIL("more output than input");
    memcpy(w->sent.b + w->sent.n, b, n); w->sent.n += n;
    return 0;
}
int tcp_utils_read_data(void *b, size_t n, int s) { return -1; }
/* ---------------------------------------------------------------- queue */
int __real_create_queue(uint32_t bs, uint16_t qs, bool bl, queue **q); int __real_queue_put(const float complex *b, const size_t n, queue *q);
void __real_take_buffer_for_processing(float complex **b, size_t *n, queue *q); void __real_complete_buffer_processing(queue *q); void __real_destroy_queue(queue *q);
int __wrap_create_queue(uint32_t bs, uint16_t qs, bool bl, queue **q) {
    struct worker *w = creator();
    P_CHECK(P10, bs == cfg.buffer_size && qs == cfg.queue_size && bl == (cfg.rx_sdr_type == RX_SDR_TYPE_FILE), "wrong queue");
    int r = __real_create_queue(bs, qs, bl, q);
    if (r == 0) w->q = *q;
    return r;
}
int __wrap_queue_put(const float complex *b, const size_t n, queue *q) {
    struct worker *w = byq(q);
    int c = devcur;
    P_CHECK(P9, !w->queue_dead && w->attached, "a block is given to a worker that is gone");
    P_CHECK(P9, len_of[c] > 0 && n == (size_t) len_of[c], "block %d of %d samples is given to worker %d as %zu samples", c, len_of[c], w->id, n);
    if (len_of[c] > 0 && n == (size_t) len_of[c]) for (size_t i = 0; i < n; i++) P_CHECK(P9, b[i] == sample(c, (int) i), "block %d is given to worker %d with other samples", c, w->id);
    P_CHECK(P9, c > w->lastput, "block %d is given to worker %d again", c, w->id);
    w->lastput = c; w->put[c] = 1;
    int r = __real_queue_put(b, n, q);
    if (r == 0) { if (w->nacc < NCALL) w->acc[w->nacc++] = c; }
    return r;
}
void __wrap_take_buffer_for_processing(float complex **b, size_t *n, queue *q) {
    struct worker *w = byq(q);
    P_CHECK(P10, !w->holding, "the next block is taken before the last one was given back");
    P_CHECK(P10, !w->failed, "a worker that failed takes another block");
    __real_take_buffer_for_processing(b, n, q);
    if (*b == NULL) return;
    w->holding = 1; w->cur = *b; w->curlen = *n;
    if (w->ns + *n > NCALL * BS || w->ntaken >= NCALL) W_FAIL("more blocks than the device gave");
    memcpy(w->S + w->ns, *b, *n * sizeof(float complex)); w->ns += *n; w->blk_end[w->ntaken++] = w->ns;
}
void __wrap_complete_buffer_processing(queue *q) {
    struct worker *w = byq(q);
    P_CHECK(P10, w->holding, "a block is given back twice");
    if (w->holding) for (size_t i = 0; i < w->curlen; i++) { P_CHECK(P10, w->cur[i] == w->S[w->ns - w->curlen + i], "the queued block was changed while it was processed"); w->cur[i] = 1e9f; }
    w->holding = 0;
    __real_complete_buffer_processing(q);
}
void __wrap_destroy_queue(queue *q) { struct worker *w = byq(q); P_CHECK(P10, !w->queue_dead, "a queue is destroyed twice"); w->queue_dead = 1; __real_destroy_queue(q); w->q = (queue *) (uintptr_t) (1 + (w - W)); }
/* ---------------------------------------------------------------- list of streams: no overlapping access */
static int lo_owner = -1, lo_depth;
static void lo_in(void) { P_CHECK(P9, lo_owner < 0 || lo_owner == sc_cur, "the list of streams is used by two threads at a time"); lo_owner = sc_cur; lo_depth++; sc_yield(); }
static void lo_out(void) { if (--lo_depth == 0) lo_owner = -1; }
int __real_linked_list_add(void *d, void (*f)(void *), linked_list **l); void __real_linked_list_foreach(void *a, void (*f)(void *, void *), linked_list *l);
void __real_linked_list_destroy_by_id(void *id, bool (*f)(void *, void *), linked_list **l); void __real_linked_list_destroy(linked_list *l);
int __wrap_linked_list_add(void *d, void (*f)(void *), linked_list **l) { lo_in(); int r = __real_linked_list_add(d, f, l); lo_out(); return r; }
void __wrap_linked_list_foreach(void *a, void (*f)(void *, void *), linked_list *l) { lo_in(); __real_linked_list_foreach(a, f, l); lo_out(); }
void __wrap_linked_list_destroy_by_id(void *id, bool (*f)(void *, void *), linked_list **l) { lo_in(); __real_linked_list_destroy_by_id(id, f, l); lo_out(); }
void __wrap_linked_list_destroy(linked_list *l) { lo_in(); __real_linked_list_destroy(l); lo_out(); }
/* ---------------------------------------------------------------- oracle of one worker, after its destruction */
static void check_worker(struct worker *w) {
    static float complex Y[NCALL * BS]; static int8_t O[NCALL * BS]; static size_t oend[NCALL + 1];
    size_t k = 0; int b = 0;
    P_CHECK(P10, !w->holding, "worker %d never gave its last block back", w->id);
    P_CHECK(P10, !w->dopp_alive && !w->demod_alive && w->df.open != 1 && w->mf.open != 1, "worker %d leaves something open", w->id);
    if (!w->created) return;
    P_CHECK(P10, w->q == NULL || w->queue_dead, "the queue of worker %d is not destroyed", w->id);
    for (size_t i = 0; i < w->ns; i++) Y[i] = w->dop ? dopf(w->S[i], i) : w->S[i];
    for (size_t i = 0; i < w->ns; i++) {
        while (b < w->ntaken && w->blk_end[b] <= i) oend[b++] = k;
        if (w->demod && i % 3 == 0) O[k++] = demf(Y[i], i);
    }
    while (b < w->ntaken) oend[b++] = k;
    size_t full = w->ntaken, part = w->failed ? w->failblk - 1 : full;     /* blocks finished for sure */
    P_CHECK(P10, !w->failed || w->failblk == (size_t) w->ntaken, "worker %d goes on after a failed write", w->id);
    size_t lo = part ? oend[part - 1] : 0, hi = k;
    size_t dlo = (part ? w->blk_end[part - 1] : 0) * sizeof(float complex), dhi = w->ns * sizeof(float complex);
    if (!w->failed || w->failkind != 0) dlo = dhi;
    if (w->failed && w->failkind == 0) hi = lo;
    size_t flo = w->failed ? lo : k, slo = flo;
    if (w->dump) {
        P_CHECK(P10, w->dumped.n >= dlo && w->dumped.n <= dhi && !memcmp(w->dumped.b, w->S, w->dumped.n), "worker %d: the dump has %zu bytes instead of %zu, or others than received", w->id, w->dumped.n, dhi);
    } else P_CHECK(P10, w->dumped.n == 0, "a dump nobody asked for");
    if (w->dest == DEMOD_DESTINATION__FILE || w->dest == DEMOD_DESTINATION__BOTH) {
        P_CHECK(P10, w->filed.n >= flo && w->filed.n <= hi && !memcmp(w->filed.b, O, w->filed.n), "worker %d: the file has %zu demodulated bytes instead of %zu, or others", w->id, w->filed.n, hi);
    } else P_CHECK(P10, w->filed.n == 0, "a file nobody asked for");
    if (w->dest == DEMOD_DESTINATION__SOCKET || w->dest == DEMOD_DESTINATION__BOTH) {
        P_CHECK(P10, w->sent.n >= slo && w->sent.n <= hi && !memcmp(w->sent.b, O, w->sent.n), "worker %d: the client got %zu demodulated bytes instead of %zu, or others", w->id, w->sent.n, hi);
    } else P_CHECK(P10, w->sent.n == 0, "data goes to a socket nobody asked for");
    if (cfg.rx_sdr_type == RX_SDR_TYPE_FILE && !w->failed && w->created) {
        P_CHECK(P10, w->ntaken == w->nacc, "worker %d processed %d of %d blocks", w->id, w->ntaken, w->nacc);
    }
    if (w->add_at >= 0) for (int c = w->add_at; c <= w->del_at - 2; c++) if (len_of[c] > 0) P_CHECK(P9, w->put[c], "block %d was not given to worker %d (attached at %d, removed at %d)", c, w->id, w->add_at, w->del_at);
}
/* ---------------------------------------------------------------- scenario */
static int main_done, removed_all;
static void make(int i) {
    struct worker *w = &W[i];
    w->used = 1; w->lastput = -1; w->add_at = -1;
    w->rx = (RxRequest) RX_REQUEST__INIT; w->ds = (DopplerSettings) DOPPLER_SETTINGS__INIT; w->fs = (FskDemodulationSettings) FSK_DEMODULATION_SETTINGS__INIT; w->fi = (FileSettings) FILE_SETTINGS__INIT;
    w->dop = w_chance(50); w->demod = w_chance(85); w->dump = w_chance(50); w->dest = (int) w_rnd(3);
    w->rx.rx_center_freq = 1 + w_rnd(1000); w->rx.rx_sampling_freq = 1000 + w_rnd(1000); w->rx.rx_dump_file = w->dump; w->rx.demod_type = w->demod ? MODEM_TYPE__GMSK : (ModemType) 77; w->rx.demod_baud_rate = 1 + w_rnd(5000);
    w->rx.demod_decimation = 1 + w_rnd(255); w->rx.demod_destination = w->dest; w->rx.fsk_settings = &w->fs;
    w->fs.demod_fsk_deviation = w_range(-5000, 5000); w->fs.demod_fsk_transition_width = 1 + w_rnd(3000); w->fs.demod_fsk_use_dc_block = w_chance(50);
    if (w->dop) { w->rx.doppler = &w->ds; w->ds.n_tle = 3; w->ds.tle = w->tle; w->tle[0] = "A"; w->tle[1] = "B1"; w->tle[2] = "C22"; w->ds.latitude = w_range(-90, 90) * 1000; w->ds.longitude = w_range(-180, 180) * 1000; w->ds.altitude = w_range(0, 100); }
    if (w_chance(50)) { w->rx.file_settings = &w->fi; w->fi.start_time_seconds = 1 + w_rnd(100000); }
    w->id = (int) w_rnd(3) * 10 + i; w->sock = 500 + i;
    w->dumpfail = w->filefail = w->sockfail = -1; w->fail_create = 0;
    if (w_chance(35)) switch (w_rnd(3)) { case 0: w->dumpfail = (int) w_rnd(5); break; case 1: w->filefail = (int) w_rnd(5); break; default: w->sockfail = (int) w_rnd(5); }
    int expect = 1, nomem = 0;
    if (w_chance(12)) { w->fail_create = 1 + (int) w_rnd(4); if ((w->fail_create == 1 && w->dop) || (w->fail_create == 2 && w->demod) || (w->fail_create == 3 && w->dump) || (w->fail_create == 4 && w->dest != DEMOD_DESTINATION__SOCKET)) expect = 0; }
    if (w_chance(8)) { nomem = 1; w_failat = w_nalloc + (int) w_rnd(4); }
    if (w_chance(5)) { sc_failcreate = sc_ncreate; nomem = 1; }
    w_note("[worker %d id %d dump=%d demod=%d doppler=%d dest=%d fails=%d,%d,%d create=%d nomem=%d] ", i, w->id, w->dump, w->demod, w->dop, w->dest, w->dumpfail, w->filefail, w->sockfail, w->fail_create, nomem);
    int before = w_nlive;
    creating[sc_cur] = i;
    dsp_worker *d = (dsp_worker *) 7;
    int r = dsp_worker_create((uint32_t) w->id, w->sock, &cfg, &w->rx, &d);
    creating[sc_cur] = -1; sc_failcreate = -1; w_failat = -1;
    (void) before;
    if (!expect) P_CHECK(P10, r != 0, "a worker is created although a part of it cannot be");
    if (expect && !nomem) P_CHECK(P10, r == 0, "a worker cannot be created");
    if (r != 0) { w->gone = 1; w->created = 0; check_worker(w); return; }
    w->created = 1; w->dsp = d; w->th = sc_n - 1;
}
static void attach(int i) {
    struct worker *w = &W[i];
    if (!w->created) return;
    int nomem = w_chance(6); if (nomem) w_failat = w_nalloc;
    w->attached = 1;
    int at = calls;
    int r = sdr_worker_add_dsp_worker(w->dsp, sdr);
    w_failat = -1;
    if (r == 0) { w->early = !ended; w->add_at = calls; w_note("[worker %d from block %d] ", i, calls); }
    else { w->attached = 0; P_CHECK(P9, nomem, "a worker cannot be attached"); (void) at; dsp_worker_destroy(w->dsp); w->gone = 1; check_worker(w); }
}
static void detach(int i) {
    struct worker *w = &W[i];
    w->del_at = calls; w_note("[worker %d until block %d] ", i, calls);
    sdr_worker_destroy_by_dsp_worker_id((uint32_t) w->id, sdr);
    P_CHECK(P9, w->queue_dead, "worker %d was not destroyed", w->id);
    w->gone = 1; w->attached = 0;
    check_worker(w);
}
static int mine[SC_MAX];
static void *leaver(void *p) { int i = (int) (intptr_t) p; int k = (int) w_rnd(20); while (k--) sc_switch(); detach(i); return NULL; }
static int all_done(void *x) { if (!ended || sc_t[1].st != SC_DONE) return 0; for (int i = 0; i < nw; i++) if (W[i].attached && W[i].early && sc_t[W[i].th].st != SC_DONE) return 0; return 1; }
static void w_init_once(void) { sc_init(); }
void w_case(uint64_t n) {
    memset(W, 0, sizeof W); nw = 0; memset(mine, 0, sizeof mine);
    for (int i = 0; i < SC_MAX; i++) creating[i] = -1;
    cfg = (struct server_config) {0};
    cfg.buffer_size = w_chance(50) ? BS : 1 + w_rnd(BS); cfg.queue_size = 1 + w_rnd(4); cfg.rx_sdr_type = w_chance(50) ? RX_SDR_TYPE_FILE : w_rnd(2); snprintf(base, sizeof base, "/b%d", (int) w_rnd(9)); cfg.base_path = base;
    lo_owner = -1; lo_depth = 0; calls = 0; stopped = destroyed = in_rx = ended = 0; devcur = 0; memset(len_of, 0, sizeof len_of);
    maxlen = (int) cfg.buffer_size; endcall = w_chance(50) ? (int) w_rnd(40) : NCALL - 10; tmopct = w_chance(50) ? 0 : 30; blkpct = w_chance(30);
    w_acct_begin(-1); sc_begin(); sc_switchpct = 5 + (int) w_rnd(40);
    static float complex dbuf[BS]; devbuf = dbuf;
    w_note("buffer=%u queue=%u type=%d end=%d ", cfg.buffer_size, cfg.queue_size, cfg.rx_sdr_type, endcall);
    sdr_device *dev = malloc(sizeof *dev); rxp = malloc(sizeof *rxp);
    if (!dev || !rxp) return;
    *dev = (sdr_device) {.plugin = &calls, .sdr_process_rx = dev_rx, .destroy = dev_destroy, .stop_rx = dev_stop};
    *rxp = (struct sdr_rx) {w_rnd(4), w_rnd(4), w_range(-1, 2)};
    sdr = NULL;
    int fail = w_chance(8); if (fail) { if (w_chance(50)) w_failat = w_nalloc; else sc_failcreate = sc_ncreate; }
    int r = sdr_worker_create(5, rxp, dev, &sdr);
    w_failat = -1; sc_failcreate = -1;
    if (fail) {
        P_CHECK(P9, r != 0, "an sdr worker is created although it cannot be");
        free(dev); free(rxp);
    } else {
        P_CHECK(P9, r == 0 && sdr, "an sdr worker cannot be created");
        for (int k = 0; k < 6; k++) {
            struct sdr_rx q = {w_rnd(4), w_rnd(4), w_range(-1, 2)};
            P_CHECK("C12,C09", sdr_worker_find_closest(&q, sdr) == (rxp->rx_center_freq == q.rx_center_freq && rxp->rx_sampling_freq >= q.rx_sampling_freq && rxp->rx_offset == q.rx_offset), "a stream of %d/%d/%d is judged wrongly for a device at %d/%d/%d", (int) q.rx_center_freq, (int) q.rx_sampling_freq, (int) q.rx_offset, (int) rxp->rx_center_freq, (int) rxp->rx_sampling_freq, (int) rxp->rx_offset);
        }
        int want = 1 + (int) w_rnd(NW), live = 0, left = 0;
        for (int i = 0; i < want; i++) {
            nw = i + 1; make(i); int pause = (int) w_rnd(10); while (pause--) sc_switch();
            if (i == 0 && !W[i].created) { }
            attach(i);
            int more = (int) w_rnd(20); while (more--) sc_switch();
            if (i + 1 < want && w_chance(25)) { /* one leaves while others stay */
                int j = (int) w_rnd(i + 1), others = 0;
                for (int x = 0; x <= i; x++) others += x != j && W[x].attached;
                if (W[j].attached && others) detach(j);
            }
        }
        if (endcall < 40 && w_chance(50)) { w_note("[wait for the end of the device] "); sc_wait_io(all_done, NULL); }
        for (int i = 0; i < nw; i++) live += W[i].attached;
        if (live == 0) { sdr_worker_destroy_by_dsp_worker_id(999, sdr); P_CHECK(P9, destroyed, "an sdr worker without streams is not destroyed"); }
        else if (live > 1 && w_chance(20)) { /* everything at once */
            for (int i = 0; i < nw; i++) W[i].del_at = calls;
            w_note("[destroy all at %d] ", calls);
            sdr_worker_destroy(sdr);
            for (int i = 0; i < nw; i++) if (W[i].attached) { P_CHECK(P9, W[i].queue_dead, "worker %d was not destroyed", W[i].id); W[i].gone = 1; check_worker(&W[i]); }
        } else {
            if (w_chance(30)) { sdr_worker_destroy_by_dsp_worker_id(999, sdr); P_CHECK(P9, !destroyed, "the device is released while streams are attached"); }
            int conc = w_chance(40);
            for (int i = 0; i < nw; i++) if (W[i].attached) {
                if (conc) { pthread_t t; mine[sc_n] = 1; __wrap_pthread_create(&t, NULL, leaver, (void *) (intptr_t) i); }
                else { left++; detach(i); P_CHECK(P9, !destroyed == (left < live), left < live ? "the device is released while streams are attached" : "the device is not released with the last stream"); int k = (int) w_rnd(6); while (k--) sc_switch(); }
            }
        }
        sc_wait_io(sc_others_done, NULL);
        P_CHECK(P9, destroyed && stopped, "the device is not released with the last stream");
    }
    for (int i = 1; i < sc_n; i++) P_CHECK("C09,C10", mine[i] || sc_t[i].joined, "a thread is never joined");
    sc_end();
    P_CHECK("C09,C10", w_acct_end() == 0, "%d allocations are never released", w_nlive);
}
