// SRC: src/dsp/fir_filter.c src/dsp/lpf.c src/dsp/lpf_taps.c src/dsp/interp_fir_filter.c src/dsp/gfsk_mod.c src/dsp/gaussian_taps.c src/dsp/frequency_modulator.c src/dsp/quadrature_demod.c src/dsp/dc_blocker.c src/dsp/clock_recovery_mm.c src/dsp/mmse_fir_interpolator.c src/dsp/fsk_demod.c src/math/fast_atan2f.c
// WRAP: malloc free calloc volk_malloc volk_free
/* interpolator, clock recovery and the whole demodulator chain: against a reference of the clock loop, against the
 * composition of its stages on the unsplit stream, and against what the modulator sent */
#define W_MALLOC
#include "w.h"
#include <math.h>
#include <complex.h>
#include <volk/volk.h>
#include "dsp/lpf.h"
#include "dsp/gfsk_mod.h"
#include "dsp/quadrature_demod.h"
#include "dsp/dc_blocker.h"
#include "dsp/clock_recovery_mm.h"
#include "dsp/mmse_fir_interpolator.h"
#include "dsp/fsk_demod.h"
#define NMAX 40000
static int generic;
static void w_init_once(void) { w_case_secs = 30; generic = w_from & 1; if (generic) setenv("VOLK_GENERIC", "1", 1); }
static float X[NMAX + 64] __attribute__((aligned(64))); static float R[NMAX]; static float complex Z[NMAX]; static int8_t O[NMAX];
static size_t blocklen(size_t max) {
    switch (w_rnd(8)) { case 0: return 1; case 1: return 1 + w_rnd(max < 9 ? max : 9); case 2: return max; case 3: return max > 1 ? max - 1 : max; default: return 1 + w_rnd(max); }
}
static void c_mmse(void) {
    mmse_fir_interpolator *m = NULL; P_CHECK("C15", mmse_fir_interpolator_create(&m) == 0, "cannot be created");
    P_CHECK("C15", mmse_fir_interpolator_taps(m) == 8, "%d taps", mmse_fir_interpolator_taps(m));
    double f = w_unit() * 0.2, p = w_unit() * 7;
    for (int i = 0; i < 40; i++) X[i] = (float) cos(2 * M_PI * f * i + p);
    for (int k = 0; k < 40; k++) {
        int at = (int) w_rnd(30); float mu = w_chance(10) ? 0 : w_chance(10) ? 1 : (float) w_unit();
        float g = mmse_fir_interpolator_process(X + at, mu, m); double r = cos(2 * M_PI * f * (at + 3 + mu) + p);
        if (!(fabs(g - r) < 0.006)) { w_note("interpolator f=%g phase=%g at=%d mu=%g ", f, p, at, mu); P_CHECK("C15", 0, "interpolated %g instead of %g", g, r); }
    }
    mmse_fir_interpolator_destroy(m);
}
static float sl(float x) { return x < 0 ? -1.0F : 1.0F; }
static void c_clock(void) {
    float omega = (float) (2 + w_unit() * 20), gm = (float) (w_unit() * 0.1), go = (float) (w_unit() * 0.2), lim = (float) (w_unit() * 0.03);
    size_t max = (size_t) w_size(1, 800), total = max * (1 + w_rnd(12)) + w_rnd(30); if (total > 6000) total = 6000;
    w_note("clock omega=%g gain_omega=%g gain_mu=%g limit=%g max=%zu total=%zu ", omega, go, gm, lim, max, total);
    int bad = w_chance(8), kind = (int) w_rnd(3); double per = 2 * omega * (0.98 + 0.04 * w_unit());
    for (size_t i = 0; i < total; i++) X[i] = (float) (kind == 0 ? sin(2 * M_PI * (double) i / per + 1) : kind == 1 ? (w_unit() * 2 - 1) : sin(2 * M_PI * (double) i / per) * 0.7 + (w_unit() - 0.5) * 0.2);
    if (bad) { for (int k = 0; k < 5; k++) X[w_rnd(total)] = (float) (w_chance(30) ? NAN : w_chance(50) ? INFINITY : 3e38 * (w_unit() * 2 - 1)); w_note("with huge and undefined samples "); }
    mmse_fir_interpolator *m = NULL; clock_mm *c = NULL;
    P_CHECK("C15", mmse_fir_interpolator_create(&m) == 0 && clock_mm_create(omega, go, 0.5f, gm, lim, max, &c) == 0, "cannot be created");
    size_t ii = 0, nr = 0, sens = SIZE_MAX; float mu = 0.5f, om = omega, last = 0; float cl = omega * lim;
    static size_t at[NMAX];
    if (!bad) while (ii + 7 < total) {
        float o = mmse_fir_interpolator_process(X + ii, mu, m);
        if ((fabsf(o) < 1e-4f) && sens == SIZE_MAX) sens = nr;
        float mm = sl(last) * o - sl(o) * last; last = o;
        om = om + go * mm; { float d = om - omega; om = omega + 0.5F * (fabsf(d + cl) - fabsf(d - cl)); }
        mu = mu + om + gm * mm; at[nr] = ii; R[nr++] = o;
        ii += (size_t) floorf(mu); mu -= floorf(mu);
    }
    size_t in = 0, out = 0;
    while (in < total) {
        if (w_chance(3)) { float *b = calloc(max + 1, 4), *o = (void *) 1; size_t on = 7; clock_mm_process(b, max + 1, &o, &on, c); P_CHECK("C15", on == 0, "a too long block is accepted"); free(b); continue; }
        size_t k = blocklen(max); if (k > total - in) k = total - in;
        float *b = malloc(k * 4), *o = NULL; size_t on = 0; memcpy(b, X + in, k * 4); in += k;
        if (w_desclen < 2000) w_note("%zu ", k);
        clock_mm_process(b, k, &o, &on, c); free(b);
        P_CHECK("C15", on <= max, "%zu samples for at most %zu", on, max);
        if (bad) { for (size_t i = 0; i < on; i++) P_CHECK("C15", isfinite(o[i]), "an undefined sample"); continue; }
        for (size_t i = 0; i < on; i++, out++) {
            if (!generic || out >= sens) continue;
            if (out >= nr) { P_CHECK("C15", out <= nr, "more symbols than the stream has"); continue; }
            if (!(fabsf(o[i] - R[out]) <= 2e-3f)) P_CHECK("C15", 0, "symbol %zu is %g instead of %g", out, o[i], R[out]);
        }
        size_t want = 0; while (want < nr && at[want] + 7 < in) want++;
        if (sens == SIZE_MAX && generic) P_CHECK("C15", out + 1 >= want && out <= want + 1, "%zu symbols after %zu samples, %zu expected", out, in, want);
    }
    clock_mm_destroy(c); mmse_fir_interpolator_destroy(m);
}
static void c_chain(void) {
    uint32_t baud = (uint32_t) w_range(1000, 20000); uint8_t dec = (uint8_t) w_range(1, 4); double sps = 4 * dec + w_unit() * 12; uint64_t fs = (uint64_t) (sps * baud);
    int64_t dev = w_range(baud / 5, baud) * (w_chance(20) ? -1 : 1); uint32_t tw = (uint32_t) w_range(baud / 5, baud); bool dc = w_rnd(2);
    size_t max = (size_t) w_size(16, 3000), total = max * (1 + w_rnd(6)) + w_rnd(30); if (total > 9000) total = 9000;
    w_note("demodulator sampling=%llu baud=%u deviation=%lld decimation=%u transition=%u dc=%d max=%zu total=%zu ", (unsigned long long) fs, baud, (long long) dev, dec, tw, dc, max, total);
    double ph = 0, f = 0; size_t hold = 0;
    for (size_t i = 0; i < total; i++) { if (hold-- == 0) { f = w_rnd(2) ? 1 : -1; hold = (size_t) sps; } ph += 2 * M_PI * f * (double) dev / (double) fs; Z[i] = (float complex) (cexp(I * ph) * 0.8 + (w_unit() - 0.5) * 0.05); }
    double cut = (double) llabs(dev) + (double) baud / 2;
    lpf *l1 = NULL, *l2 = NULL; quadrature_demod *q = NULL; dc_blocker *d = NULL; clock_mm *c = NULL; fsk_demod *D = NULL;
    int bad = lpf_create(1, fs, (uint64_t) cut, (uint32_t) (0.1f * cut), total, 8, &l1) || quadrature_demod_create((float) ((double) fs / (2 * M_PI * (double) dev)), (uint32_t) total, &q) || lpf_create(dec, fs, baud / 2, tw, total, 4, &l2);
    float sp = (float) ((double) fs / baud / dec);
    if (!bad) bad = (dc && dc_blocker_create((int) ceilf(sp * 32), &d)) || clock_mm_create(sp, (sp * (float) M_PI) / 100, 0.5f, 0.5f / 8.0f, 0.01f, total, &c);
    int code = fsk_demod_create(fs, baud, dev, dec, tw, dc, (uint32_t) max, &D);
    P_CHECK("C15", (code != 0) == bad, "fsk_demod_create returns %d", code);
    if (code == 0 && !bad) {
        void *a; size_t an; float *b, *o; size_t bn, on;
        lpf_process(Z, total, &a, &an, l1); quadrature_demod_process(a, an, &b, &bn, q); lpf_process(b, bn, &a, &an, l2);
        o = a; on = an; if (dc) dc_blocker_process(a, an, &o, &on, d);
        clock_mm_process(o, on, &o, &on, c);
        size_t sens = SIZE_MAX; for (size_t i = 0; i < on; i++) if (fabsf(o[i]) < 1e-4f) { sens = i; break; }
        size_t in = 0, out = 0;
        while (in < total) {
            size_t k = blocklen(max); if (k > total - in) k = total - in; in += k; if (w_desclen < 2000) w_note("%zu ", k);
            float complex *z = malloc(k * 8); memcpy(z, Z + in - k, k * 8);
            int8_t *r = NULL; size_t rn = 0; fsk_demod_process(z, k, &r, &rn, D); free(z);
            P_CHECK("C15", rn <= max, "%zu soft bits from a block of at most %zu", rn, max);
            for (size_t i = 0; i < rn; i++, out++) {
                if (!generic || out >= sens) continue;
                P_CHECK("C15", out < on, "more soft bits than the stream has");
                double v = rint(o[out] * 127.0); v = v > 127 ? 127 : v < -128 ? -128 : v;
                P_CHECK("C15", fabs(r[i] - v) <= 2, "soft bit %zu is %d instead of %g", out, r[i], v);
            }
        }
        if (sens == SIZE_MAX && generic) P_CHECK("C15", out + 1 >= on && out <= on + 1, "%zu soft bits, %zu expected", out, on);
    }
    lpf_destroy(l1); lpf_destroy(l2); quadrature_demod_destroy(q); dc_blocker_destroy(d); clock_mm_destroy(c); fsk_demod_destroy(D);
}
static void c_loop(void) {
    int dec = (int) w_range(1, 2), sps = dec * (int) w_range(4, 10); uint32_t baud = (uint32_t) w_range(1200, 20000); uint64_t fs = (uint64_t) sps * baud; int64_t dev = (int64_t) (baud * (0.4 + 0.4 * w_unit()));
    size_t nb = 150; int dc = (int) w_rnd(2); uint8_t by[400]; for (size_t i = 0; i < nb; i++) by[i] = (uint8_t) w_rnd(256);
    w_note("loopback sps=%d baud=%u deviation=%lld decimation=%d dc=%d ", sps, baud, (long long) dev, dec, dc);
    gfsk_mod *m = NULL; fsk_demod *d = NULL;
    P_CHECK("C15", gfsk_mod_create((float) sps, (float) (2 * M_PI * (double) dev / (double) fs), 0.5F, (uint32_t) nb, &m) == 0, "modulator");
    size_t max = (size_t) w_range(64, 4096);
    P_CHECK("C15", fsk_demod_create(fs, baud, dev, (uint8_t) dec, baud / 5, dc, (uint32_t) max, &d) == 0, "demodulator");
    float complex *z; size_t zn, out = 0, in = 0; gfsk_mod_process(by, nb, &z, &zn, m);
    while (in < zn) { size_t k = blocklen(max); if (k > zn - in) k = zn - in; int8_t *r = NULL; size_t rn = 0; fsk_demod_process(z + in, k, &r, &rn, d); memcpy(O + out, r ? r : O, r ? rn : 0); out += rn; in += k; }
    size_t best = nb; int at = 0;
    for (int s = -20; s <= 120; s++) { size_t err = 0, n = 0; for (size_t i = 200; i < nb * 8 - 140 && i + s < out; i++, n++) err += (O[i + s] > 0) != ((by[i / 8] >> (7 - i % 8)) & 1); if (n > 500 && err < best) { best = err; at = s; } }
    (void) at;
    P_CHECK("C15", best <= 10, "%zu wrong bits of %zu", best, nb * 8 - 340);
    gfsk_mod_destroy(m); fsk_demod_destroy(d);
}
void w_case(uint64_t n) {
    w_acct_begin(-1);
    switch (w_rnd(8)) { case 0: c_mmse(); break; case 1: case 2: case 3: c_clock(); break; case 4: c_loop(); break; default: c_chain(); }
    int l = w_acct_end();
    P_CHECK("C15", l == 0, "%d allocations leaked", l);
}
