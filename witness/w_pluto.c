// SRC: src/sdr/plutosdr.c
// WRAP: malloc free calloc volk_malloc volk_free pthread_mutex_unlock
/* the Pluto device on a simulated AD9361 behind the libiio call table */
#define W_MALLOC
#include "w.h"
#include <math.h>
#include <pthread.h>
#include <complex.h>
#include "sdr/plutosdr.h"
#define P "C23"
#define PA "C23,C26"
struct iio_device { int kind; };
struct iio_channel { struct iio_device *dev; char name[16]; bool out; int enabled; };
struct iio_buffer { struct iio_device *dev; size_t cap, fill; int16_t *mem; int live; };
struct iio_context { int live; }; struct iio_scan_context { int live; }; struct iio_context_info { int dummy; };
enum { PHY, DDS, LPC };
static struct iio_device dev[3] = {{PHY}, {DDS}, {LPC}};
static struct iio_channel ch[32]; static int nch;
static struct attr { const void *on; char name[40]; double v; char s[24]; } at[64]; static int nat;
static struct iio_buffer bufs[8]; static int nbuf;
static struct iio_context ctx; static struct iio_scan_context scan; static int infolive, ctxmade; static unsigned tmo;
static struct iio_context_info inf, *infos[1] = {&inf};
static int callno, failcall, failed_powerdown, failed_any, fallback_ok; static char failedat[80];
/* hardware filter */
static int fir_on, fir_loaded, fir_dec_rx, fir_dec_tx; static int fir_rx[128], fir_tx[128];
static int refill_fail; static size_t refill_n; static int push_fail; static int16_t sentv[1 << 16]; static size_t nsent; static int pushes;
static int16_t rxraw[1 << 13];
static int inj(const char *what) { if (callno++ == failcall) { failed_any = 1; snprintf(failedat, sizeof failedat, "%s", what); return 1; } return 0; }
static struct attr *attrof(const void *on, const char *n, int mk) {
    for (int i = 0; i < nat; i++) if (at[i].on == on && !strcmp(at[i].name, n)) return &at[i];
    if (!mk || nat >= 64) return NULL;
    struct attr *a = &at[nat++]; memset(a, 0, sizeof *a); a->on = on; snprintf(a->name, sizeof a->name, "%s", n); a->v = -12345; return a;
}
static int chan_ok(const struct iio_channel *c) { return c >= ch && c < ch + nch; }
static int lowrate(void) { for (int i = 0; i < nat; i++) if (!strcmp(at[i].name, "sampling_frequency") && at[i].v >= 0 && at[i].v < 2083333) return 1; return 0; }
static int set(const struct iio_channel *c, const char *a, double v, const char *s) {
    P_CHECK(PA, chan_ok(c), "\"%s\" is written to a channel that does not exist", a); if (!chan_ok(c)) return -EINVAL;
    P_CHECK(PA, ctx.live, "the context is used after it was destroyed");
    if (inj(a)) { if (!strcmp(a, "powerdown")) failed_powerdown = 1; return -EIO; }
    if (!strcmp(a, "sampling_frequency") && !fir_on && v < 2083333) return -EINVAL;
    if (!strcmp(a, "voltage_filter_fir_en")) { if (v != 0 ? !fir_loaded : lowrate()) return -EINVAL; fir_on = v != 0; return 0; }
    struct attr *t = attrof(c, a, 1); if (!t) return -ENOMEM; t->v = v; if (s) snprintf(t->s, sizeof t->s, "%s", s);
    return 0;
}
static struct iio_channel *findc(const struct iio_device *d, const char *n, bool out, int mk) {
    for (int i = 0; i < nch; i++) if (ch[i].dev == d && !strcmp(ch[i].name, n) && ch[i].out == out) return &ch[i];
    if (!mk || nch >= 32) return NULL;
    struct iio_channel *c = &ch[nch++]; c->dev = (struct iio_device *) d; snprintf(c->name, sizeof c->name, "%s", n); c->out = out; c->enabled = 0; return c;
}
static int livebuf(const struct iio_buffer *b) { return b >= bufs && b < bufs + nbuf && b->live; }
static void *f_end(const struct iio_buffer *b) { P_CHECK(PA, livebuf(b), "a buffer that does not exist is used"); return b->mem + 2 * b->fill; }
static void *f_first(const struct iio_buffer *b, const struct iio_channel *c) {
    P_CHECK(PA, livebuf(b), "a buffer that does not exist is used"); P_CHECK(P, chan_ok(c) && c->dev == b->dev && !strcmp(c->name, "voltage0"), "the samples are not at the I channel"); return b->mem;
}
static ssize_t f_push(struct iio_buffer *b, size_t n) {
    P_CHECK(PA, livebuf(b) && b->dev == &dev[DDS], "samples are pushed to something that is not the transmit buffer");
    P_CHECK(P, n <= b->cap, "%zu samples pushed, the buffer has %zu", n, b->cap); P_CHECK(P, n > 0, "an empty batch is pushed");
    if (n > b->cap) return -EINVAL;
    if (pushes++ == push_fail) { failed_any = 1; return -EPIPE; }
    for (size_t i = 0; i < 2 * n && nsent < sizeof sentv / 2; i++) sentv[nsent++] = b->mem[i];
    for (size_t i = 0; i < 2 * b->cap; i++) b->mem[i] = 0x5a5a;
    return (ssize_t) (4 * n);
}
static ssize_t f_refill(struct iio_buffer *b) {
    P_CHECK(PA, livebuf(b) && b->dev == &dev[LPC], "something that is not the receive buffer is refilled");
    if (refill_fail) return -ETIMEDOUT;
    if (refill_n > b->cap) { __real_free(b->mem); b->mem = __real_malloc(4 * refill_n); }
    b->fill = refill_n; memcpy(b->mem, rxraw, 4 * refill_n); return (ssize_t) (4 * refill_n);
}
static struct iio_device *f_dev(const struct iio_context *c, const char *n) {
    P_CHECK(PA, c == &ctx && ctx.live, "a device is looked up in a context that does not exist");
    if (inj(n)) return NULL;
    return !strcmp(n, "ad9361-phy") ? &dev[PHY] : !strcmp(n, "cf-ad9361-dds-core-lpc") ? &dev[DDS] : !strcmp(n, "cf-ad9361-lpc") ? &dev[LPC] : NULL;
}
static struct iio_channel *f_ch(const struct iio_device *d, const char *n, bool out) {
    P_CHECK(PA, d != NULL, "channel \"%s\" is looked up in a device that was not found", n); if (!d) return NULL;
    if (inj(n)) return NULL;
    return findc(d, n, out, 1);
}
static void f_strerr(int e, char *d, size_t n) { if (n) snprintf(d, n, "error %d", e); }
static ssize_t f_wr(const struct iio_channel *c, const char *a, const char *s) { int r = set(c, a, 0, s); return r < 0 ? r : (ssize_t) strlen(s); }
static int f_wl(const struct iio_channel *c, const char *a, long long v) { return set(c, a, (double) v, NULL); }
static int f_wcb(const struct iio_channel *c, const char *a, bool v) { return set(c, a, v, NULL); }
static int f_wd(const struct iio_channel *c, const char *a, double v) { return set(c, a, v, NULL); }
static int f_dwb(const struct iio_device *d, const char *a, bool v) {
    P_CHECK(PA, d == &dev[PHY], "\"%s\" is written to a device that was not found", a); if (d != &dev[PHY]) return -EINVAL;
    if (inj(a)) return -EIO;
    if (!strcmp(a, "in_out_voltage_filter_fir_en")) {
        if (v && !fir_loaded) return -EINVAL;
        if (!v && lowrate()) return -EINVAL;
        fir_on = v; return 0;
    }
    return -ENOENT;
}
static ssize_t f_raw(const struct iio_device *d, const char *a, const void *src, size_t len) {
    P_CHECK(PA, d == &dev[PHY], "\"%s\" is written to a device that was not found", a); if (d != &dev[PHY]) return -EINVAL;
    if (inj(a)) return -EIO;
    if (strcmp(a, "filter_fir_config")) return -ENOENT;
    char *b = __real_malloc(len + 1); memcpy(b, src, len); b[len] = 0;
    fir_dec_rx = fir_dec_tx = 0; int k = 0, g; char *p = b;
    for (char *l = strtok(p, "\n"); l; l = strtok(NULL, "\n")) {
        int x, y;
        if (sscanf(l, "RX 3 GAIN %d DEC %d", &g, &x) == 2) fir_dec_rx = x;
        else if (sscanf(l, "TX 3 GAIN %d INT %d", &g, &x) == 2) fir_dec_tx = x;
        else if (sscanf(l, "%d,%d", &x, &y) == 2) { if (k < 128) { fir_tx[k] = x; fir_rx[k] = y; } k++; }
        else P_CHECK(P, 0, "the filter configuration has a line \"%s\"", l);
    }
    __real_free(b); P_CHECK(P, k == 128, "the filter configuration has %d taps", k); fir_loaded = 1; return (ssize_t) len;
}
static struct iio_scan_context *f_scan(const char *b, unsigned f) { if (inj("scan")) return NULL; scan.live++; return &scan; }
static ssize_t f_list(struct iio_scan_context *c, struct iio_context_info ***i) { if (inj("list")) return w_chance(50) ? -EIO : 0; infolive++; *i = infos; return 1; }
static void f_scanfree(struct iio_scan_context *c) { P_CHECK(PA, c == &scan && scan.live == 1, "a scan context is released twice"); scan.live--; }
static const char *f_uri(const struct iio_context_info *i) { return i == &inf && infolive ? "usb:1.2.3" : "?"; }
static struct iio_context *f_ctx(const char *u) { P_CHECK(P, !strcmp(u, "usb:1.2.3"), "the context is created for uri %s", u); P_CHECK(P, !ctx.live, "a second context is created"); if (inj("context")) return NULL; ctx.live = 1; ctxmade++; return &ctx; }
static void f_listfree(struct iio_context_info **i) { P_CHECK(PA, i == infos && infolive == 1, "the context list is released twice"); infolive--; }
static int f_tmo(struct iio_context *c, unsigned t) { P_CHECK(PA, c == &ctx && ctx.live, "timeout of a context that does not exist"); if (inj("timeout")) return -EIO; tmo = t; return 0; }
static void f_en(struct iio_channel *c) { P_CHECK(PA, chan_ok(c), "an unknown channel is enabled"); c->enabled = 1; }
static void f_dis(struct iio_channel *c) { P_CHECK(PA, chan_ok(c) && ctx.live, "an unknown channel is disabled"); if (chan_ok(c)) c->enabled = 0; }
static struct iio_buffer *f_buf(const struct iio_device *d, size_t n, bool cyc) {
    struct iio_channel *i = findc(d, "voltage0", d == &dev[DDS], 0), *q = findc(d, "voltage1", d == &dev[DDS], 0);
    P_CHECK(P, i && q && i->enabled && q->enabled, "the buffer is created without the I and Q channels"); P_CHECK(P, !cyc, "a cyclic buffer");
    if (inj("buffer")) return NULL;
    struct iio_buffer *b = &bufs[nbuf++]; b->dev = (struct iio_device *) d; b->cap = n; b->fill = 0; b->mem = __real_malloc(4 * n); b->live = 1; return b;
}
static void f_bufdel(struct iio_buffer *b) { P_CHECK(PA, livebuf(b), "a buffer is released twice"); if (livebuf(b)) { __real_free(b->mem); b->live = 0; } }
static void f_ctxdel(struct iio_context *c) { P_CHECK(PA, c == &ctx && ctx.live, "the context is released twice"); for (int i = 0; i < nbuf; i++) P_CHECK(PA, !bufs[i].live, "the context is released while a buffer is in use"); ctx.live = 0; }
static iio_lib lib;
static void w_init_once(void) {
    if (w_from & 1) setenv("VOLK_GENERIC", "1", 1);
    memset(&lib, 0, sizeof lib);
    lib.iio_buffer_end = f_end; lib.iio_buffer_first = f_first; lib.iio_buffer_push_partial = f_push; lib.iio_buffer_refill = f_refill; lib.iio_context_find_device = f_dev; lib.iio_device_find_channel = f_ch; lib.iio_strerror = f_strerr;
    lib.iio_channel_attr_write = f_wr; lib.iio_channel_attr_write_longlong = f_wl; lib.iio_device_attr_write_bool = f_dwb; lib.iio_channel_attr_write_bool = f_wcb; lib.iio_channel_attr_write_double = f_wd; lib.iio_device_attr_write_raw = f_raw;
    lib.iio_create_scan_context = f_scan; lib.iio_scan_context_get_info_list = f_list; lib.iio_scan_context_destroy = f_scanfree; lib.iio_context_info_get_uri = f_uri; lib.iio_create_context_from_uri = f_ctx; lib.iio_context_info_list_free = f_listfree; lib.iio_context_set_timeout = f_tmo;
    lib.iio_channel_enable = f_en; lib.iio_device_create_buffer = f_buf; lib.iio_buffer_destroy = f_bufdel; lib.iio_channel_disable = f_dis; lib.iio_context_destroy = f_ctxdel;
}
/* AD9361 half band filters of the vendor for decimation 2 and 4 */
static const int T4[64] = {-15,-27,-23,-6,17,33,31,9,-23,-47,-45,-13,34,69,67,21,-49,-102,-99,-32,69,146,143,48,-96,-204,-200,-69,129,278,275,97,-170,-372,-371,-135,222,494,497,187,-288,-654,-665,-258,376,875,902,363,-500,-1201,-1265,-530,699,1748,1906,845,-1089,-2922,-3424,-1697,2326,7714,12821,15921};
static const int T2[64] = {0,0,1,0,-2,0,3,0,-5,0,8,0,-11,0,17,0,-24,0,33,0,-45,0,61,0,-80,0,104,0,-134,0,169,0,-213,0,264,0,-327,0,401,0,-489,0,595,0,-724,0,880,0,-1075,0,1323,0,-1652,0,2114,0,-2819,0,4056,0,-6883,0,20837,32767};
static int taps_ok(const int *t, int dec) {
    for (int i = 0; i < 64; i++) if (t[i] != (dec == 4 ? T4[i] : T2[i])) return 0;
    for (int i = 64; i < 128; i++) if (t[i] != (dec == 4 ? T4[127 - i] : i < 127 ? T2[126 - i] : 0)) return 0;
    return 1;
}
static int decof(uint64_t f) { return f < 1041667 ? 4 : f < 2083334 ? 2 : 0; }
static void attr_is(struct iio_channel *c, const char *n, double v, const char *what) {
    struct attr *a = c ? attrof(c, n, 0) : NULL;
    P_CHECK(P, a && a->v == v, "%s: \"%s\" is %.17g instead of %.17g", what, n, a ? a->v : NAN, v);
}
static void stream_is(struct stream_cfg *c, int tx, int rx_only) {
    const char *w = tx ? "tx" : "rx";
    struct iio_channel *lo = findc(&dev[PHY], tx ? "altvoltage1" : "altvoltage0", true, 0), *v = findc(&dev[PHY], "voltage0", tx, 0);
    attr_is(lo, "frequency", (double) c->center_freq, w); attr_is(v, "rf_bandwidth", (double) c->sampling_freq, w); attr_is(v, "sampling_frequency", (double) c->sampling_freq, w);
    struct attr *g = v ? attrof(v, "gain_control_mode", 0) : NULL; static const char *gm[] = {"manual", "fast_attack", "slow_attack", "hybrid"};
    if (c->gain_control_mode == IIO_GAIN_MODE_MANUAL) { attr_is(v, "hardwaregain", c->manual_gain, w); if (!tx) P_CHECK(P, g && !strcmp(g->s, "manual"), "rx gain mode is not manual"); }
    else P_CHECK(P, g && !strcmp(g->s, gm[c->gain_control_mode]), "%s gain mode is %s instead of %s", w, g ? g->s : "?", gm[c->gain_control_mode]);
    if (tx) {
        if (!failed_powerdown) attr_is(lo, "powerdown", 0, w);
        static const char *dds[] = {"TX1_I_F1", "TX1_Q_F1", "TX1_I_F2", "TX1_Q_F2"};
        for (int i = 0; i < 4; i++) attr_is(findc(&dev[DDS], dds[i], true, 0), "raw", 0, dds[i]);
    } else if (rx_only && !failed_any) attr_is(findc(&dev[PHY], "altvoltage1", true, 0), "powerdown", 1, "rx only");
}
struct d { sdr_device *dev; struct stream_cfg rx, tx; int hasrx, hastx, stopped; uint32_t len; };
static struct stream_cfg *mk(struct stream_cfg *c) {
    static const uint64_t lim[] = {520834, 1041667, 2083334};
    c->sampling_freq = w_chance(60) ? lim[w_rnd(3)] + (uint64_t) w_range(-2, 2) : w_chance(10) ? w_rnd(520834) : 520834 + w_rnd(60000000);
    if (c->sampling_freq < 520834 && w_chance(80)) c->sampling_freq = 520834;
    c->center_freq = w_chance(50) ? 70000000 + w_rnd(6000000000ull) : w_rnd(1ull << 40); c->gain_control_mode = w_chance(50) ? 0 : w_chance(4) ? (uint8_t) w_rnd(256) : (uint8_t) w_rnd(4);
    c->offset = w_range(-100000, 100000); c->manual_gain = (double) w_range(-90, 90) + (w_chance(30) ? 0.25 : 0);
    struct stream_cfg *m = malloc(sizeof *m); if (m) *m = *c; return m;
}
static int liveb(void) { int n = 0; for (int i = 0; i < nbuf; i++) n += bufs[i].live; return n; }
static void use(struct d *d) {
    if (w_chance(50)) {
        size_t n = w_chance(20) ? w_rnd(3) : w_rnd(3 * (size_t) d->len + 10); if (n > 3000) n = 3000;
        float complex *x = __real_malloc(8 * (n ? n : 1));
        for (size_t i = 0; i < n; i++) x[i] = (float) (w_unit() * 2.2 - 1.1) + I * (float) (w_unit() * 2.2 - 1.1);
        nsent = 0; pushes = 0; push_fail = w_chance(15) ? (int) w_rnd(4) : -1; failed_any = 0;
        w_note("tx %zu ", n);
        int r = d->dev->sdr_process_tx(x, n, d->dev->plugin);
        if (!d->hastx) { P_CHECK(P, r != 0 && nsent == 0, "transmitting without a transmitter gives %d", r); __real_free(x); return; }
        P_CHECK(P, (r != 0) == (failed_any != 0), "transmission of %zu samples gives %d", n, r);
        if (!failed_any) P_CHECK(P, nsent == 2 * n, "%zu of %zu samples are pushed", nsent / 2, n);
        const float *fx = (const float *) x;
        for (size_t i = 0; i < nsent; i++) {
            double e = (double) fx[i] * 32768; if (e > 32767) e = 32767; if (e < -32768) e = -32768;
            P_CHECK(P, fabs(sentv[i] - e) <= 0.501, "value %zu (%g) is pushed as %d", i, fx[i], sentv[i]);
        }
        __real_free(x);
    } else {
        refill_fail = w_chance(10); refill_n = w_chance(50) ? d->len : w_rnd(d->len + 1); if (w_chance(5)) refill_n = d->len + 1;
        for (size_t i = 0; i < 2 * refill_n; i++) rxraw[i] = w_chance(3) ? (w_chance(50) ? -32768 : 32767) : (int16_t) w_range(-2048, 2047);
        if (d->hasrx && w_chance(10)) { d->stopped = 1; d->dev->stop_rx(d->dev->plugin); }
        w_note("rx %zu%s%s ", refill_n, refill_fail ? " fail" : "", d->stopped ? " stopped" : "");
        float complex *o = (void *) 1; size_t on = 99;
        int r = d->dev->sdr_process_rx(&o, &on, d->dev->plugin);
        if (!d->hasrx || d->stopped || refill_fail || refill_n > d->len) { P_CHECK(P, r == -1 && o == NULL && on == 0, "reading gives %d and %zu samples", r, on); return; }
        P_CHECK(P, r == 0 && on == refill_n, "reading %zu samples gives %d and %zu samples", refill_n, r, on); if (r) return;
        for (size_t i = 0; i < 2 * on; i++) P_CHECK(P, ((float *) o)[i] == (float) rxraw[i] / 2048.0f, "value %zu (%d) is read as %g", i, rxraw[i], ((float *) o)[i]);
    }
}
/* another thread creates its device as soon as this one gives the mutex back */
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
static int racing, race_failcall; static sdr_device *race_dev; static struct stream_cfg race_cfg;
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    int r = __real_pthread_mutex_unlock(m);
    if (racing == 1) {
        racing = 2; int fc = failcall, cn = callno; failcall = -1;
        race_cfg.sampling_freq = 3000000; race_cfg.center_freq = 437000000; race_cfg.gain_control_mode = 0;
        struct stream_cfg *c = malloc(sizeof *c); *c = race_cfg;
        if (plutosdr_create(8, false, NULL, c, 1000, 100, &lib, &race_dev) != 0) race_dev = NULL;
        failcall = fc; callno = cn;
    }
    return r;
}
static void race_case(void) {
    struct d A; memset(&A, 0, sizeof A); A.hasrx = 1; A.len = 100;
    w_acct_begin(-1);
    struct stream_cfg *r = mk(&A.rx); race_dev = NULL;
    callno = 0; failcall = w_chance(70) ? (int) w_rnd(3) : (int) w_rnd(40); failed_any = 0; racing = 1; w_failat = -1;
    w_note("[race with failing call %d] ", failcall);
    sdr_device *out = NULL; int c = plutosdr_create(7, false, r, NULL, 1000, A.len, &lib, &out);
    racing = 0; failcall = -1;
    P_CHECK(P, race_dev != NULL, "the device of the other thread cannot be created");
    if (c != 0) P_CHECK(PA, out == NULL, "a failure hands out a device");
    for (int k = 0; k < 2; k++) {
        P_CHECK(PA, ctx.live, "the context is released while the device of another thread uses it (%d)", c);
        sdr_device **x = k ? &race_dev : &out;
        if (*x) { (*x)->destroy((*x)->plugin); free(*x); *x = NULL; }
    }
    P_CHECK(PA, !ctx.live && liveb() == 0, "the context or a buffer is not released");
    P_CHECK(PA, w_acct_end() == 0, "%d allocations are not released", w_nlive);
}
void w_case(uint64_t n) {
    nat = 0; nch = 0; nbuf = 0; fir_loaded = fir_on = w_chance(30); ctxmade = 0; infolive = 0; scan.live = 0; ctx.live = 0; failed_any = 0;
    if (w_chance(30) && fir_on) { findc(&dev[PHY], "voltage0", true, 1); attrof(&ch[0], "sampling_frequency", 1)->v = 600000; }
    if (w_chance(10)) { fir_on = fir_loaded = 0; race_case(); return; }
    struct d D[3]; int nd = 1 + (int) w_rnd(3), ok = 0; memset(D, 0, sizeof D);
    w_acct_begin(-1);
    for (int i = 0; i < nd; i++) {
        struct d *d = &D[i]; d->hasrx = w_chance(70); d->hastx = w_chance(60); if (!d->hasrx && !d->hastx && w_chance(80)) d->hastx = 1;
        struct stream_cfg *r = d->hasrx ? mk(&d->rx) : NULL, *t = d->hastx ? mk(&d->tx) : NULL;
        d->len = w_chance(30) ? 1 + (uint32_t) w_rnd(8) : 1 + (uint32_t) w_rnd(1000); int rxonly = d->hasrx && !d->hastx && w_chance(50); unsigned to = (unsigned) w_rnd(100000);
        callno = 0; failcall = w_chance(40) ? (int) w_rnd(50) : -1; failed_any = failed_powerdown = 0; failedat[0] = 0; int nomem = w_chance(15); w_failat = nomem ? w_nalloc + (int) w_rnd(5) : -1;
        int a0 = w_nalloc, live0 = w_nlive - (r != NULL) - (t != NULL), buf0 = liveb(), ctx0 = ctx.live; if (failcall >= 0) for (int k = 0; k < nat; k++) at[k].v = strcmp(at[k].name, "sampling_frequency") ? -1 : at[k].v;
        if (failcall < 0) for (int k = 0; k < nat; k++) if (strcmp(at[k].name, "sampling_frequency")) at[k].v = -777;
        w_note("[rx %d %llu %llu %d tx %d %llu %llu %d len %u rxonly %d failcall %d failat %d", d->hasrx, (unsigned long long) d->rx.sampling_freq, (unsigned long long) d->rx.center_freq, d->rx.gain_control_mode, d->hastx, (unsigned long long) d->tx.sampling_freq, (unsigned long long) d->tx.center_freq, d->tx.gain_control_mode, d->len, rxonly, failcall, w_failat >= 0 ? w_failat - a0 : -1);
        sdr_device *out = NULL;
        int c = plutosdr_create(7, rxonly, r, t, to, d->len, &lib, &out);
        w_note(" -> %d %s] ", c, failedat);
        int oom = nomem && w_nalloc > w_failat; w_failat = -1; failcall = -1;
        int bad = (!d->hasrx && !d->hastx) || (d->hasrx && (d->rx.sampling_freq < 520834 || d->rx.gain_control_mode > 3)) || (d->hastx && (d->tx.sampling_freq < 520834 || d->tx.gain_control_mode > 3));
        P_CHECK(PA, scan.live == 0 && infolive == 0, "the scan of the contexts is not released");
        if (c != 0) {
            P_CHECK(P, bad || failed_any || oom, "the device cannot be created: %d", c);
            P_CHECK(PA, out == NULL && w_nlive == live0 && liveb() == buf0 && ctx.live == ctx0, "a device that cannot be created leaves %d allocations, %d buffers and %d contexts", w_nlive - live0, liveb() - buf0, ctx.live - ctx0);
            d->dev = NULL; continue;
        }
        P_CHECK(P, !bad, "a device is created with an impossible configuration"); P_CHECK(PA, !oom, "a device is created although there was no memory"); if (bad || oom) return;
        d->dev = out; ok++; P_CHECK(P, tmo == to, "timeout is %u instead of %u", tmo, to); P_CHECK(P, ctx.live, "no context");
        if (d->hastx) stream_is(&d->tx, 1, rxonly);
        if (d->hasrx) stream_is(&d->rx, 0, rxonly);
        int dr = d->hasrx ? decof(d->rx.sampling_freq) : 0, dt = d->hastx ? decof(d->tx.sampling_freq) : 0, need = dr || dt;
        P_CHECK(P, (fir_on != 0) == (need != 0), "the hardware filter is %s", fir_on ? "on" : "off");
        if (need) {
            int er = dr ? dr : dt, et = dt ? dt : dr;
            P_CHECK(P, fir_dec_rx == er && fir_dec_tx == et, "decimation is %d,%d instead of %d,%d", fir_dec_rx, fir_dec_tx, er, et);
            P_CHECK(P, taps_ok(fir_rx, er) && taps_ok(fir_tx, et), "the taps of the hardware filter are not those of decimation %d,%d", er, et);
        }
        for (int k = (int) w_rnd(4); k > 0; k--) use(d);
    }
    for (int k = (int) w_rnd(4); k > 0; k--) { struct d *d = &D[w_rnd((uint64_t) nd)]; if (d->dev) use(d); }
    while (ok) {
        struct d *d = &D[w_rnd((uint64_t) nd)]; if (!d->dev) continue;
        P_CHECK(PA, ctx.live, "the context is released while a device uses it");
        d->dev->destroy(d->dev->plugin); free(d->dev); d->dev = NULL; ok--;
    }
    P_CHECK(PA, !ctx.live && liveb() == 0, "the context or a buffer is not released");
    P_CHECK(PA, w_acct_end() == 0, "%d allocations are not released", w_nlive);
}
