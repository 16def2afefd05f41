// SRC: src/dsp/fir_filter.c src/dsp/lpf.c src/dsp/lpf_taps.c src/dsp/interp_fir_filter.c src/dsp/gfsk_mod.c src/dsp/gaussian_taps.c src/dsp/frequency_modulator.c src/dsp/sig_source.c src/dsp/quadrature_demod.c src/dsp/dc_blocker.c src/math/fast_atan2f.c
// WRAP: malloc free calloc volk_malloc volk_free
/* every filter, modulator and demodulator stage against a double precision oracle of the whole stream, fed in
 * arbitrary blocks; block sizes up to and beyond the announced maximum */
#define W_MALLOC
#include "w.h"
#include <math.h>
#include <complex.h>
#include <volk/volk.h>
#include "dsp/fir_filter.h"
#include "dsp/lpf.h"
#include "dsp/lpf_taps.h"
#include "dsp/interp_fir_filter.h"
#include "dsp/gfsk_mod.h"
#include "dsp/gaussian_taps.h"
#include "dsp/frequency_modulator.h"
#include "dsp/sig_source.h"
#include "dsp/quadrature_demod.h"
#include "dsp/dc_blocker.h"
#define NMAX 6000
static double complex X[NMAX], REF[NMAX * 4]; static double H[40000];
static void w_init_once(void) { if (w_from & 1) setenv("VOLK_GENERIC", "1", 1); }
static size_t blocklen(size_t max) {
    switch (w_rnd(8)) { case 0: return 1; case 1: return 1 + w_rnd(max < 4 ? max : 4); case 2: return max; case 3: return max > 1 ? max - 1 : max; case 4: return 0; default: return 1 + w_rnd(max); }
}
static void fill(size_t n, int cplx) {
    double a = w_chance(20) ? 1000 : w_chance(20) ? 1e-3 : 1;
    int kind = (int) w_rnd(4);
    for (size_t i = 0; i < n; i++) {
        double re = kind == 0 ? (w_rnd(2) ? 1 : -1) : kind == 1 ? (i == n / 2) : kind == 2 ? 1 : w_unit() * 2 - 1, im = kind == 2 ? 0 : w_unit() * 2 - 1;
        X[i] = (double) (float) (a * re) + (cplx ? I * (double) (float) (a * im) : 0);
    }
    w_note("signal=%d amplitude=%g ", kind, a);
}
/* feed X through a real or complex filter in blocks and compare with ref(k), total(n) */
enum { FIR, LPF, INTERP };
static void run_filter(const char *p, int kind, void *f, int cplx, size_t D, size_t I_, size_t max, size_t nh, size_t total) {
    size_t in = 0, out = 0; int over = w_chance(20); double hs = 0, ha = 0;
    for (size_t j = 0; j < nh; j++) hs += fabs(H[j]);
    for (size_t i = 0; i < total; i++) if (cabs(X[i]) > ha) ha = cabs(X[i]);
    double tol = 2e-5 * hs * ha + 1e-30;
    while (in < total) {
        if (over && w_chance(20)) {
            size_t k = max + 1 + w_rnd(3); void *b = calloc(k, 8), *o = b; size_t on = 77;
            if (kind == FIR) fir_filter_process(b, k, &o, &on, f); else if (kind == LPF) lpf_process(b, k, &o, &on, f); else interp_fir_filter_process(b, k, (float **) &o, &on, f);
            w_note("block=%zu(too long) ", k);
            P_CHECK(p, on == 0, "a block of %zu for a filter of %zu gives %zu samples", k, max, on);
            free(b);
            continue;
        }
        size_t k = blocklen(max); if (k > total - in) k = total - in;
        float *b = malloc((k ? k : 1) * (cplx ? 8 : 4));
        for (size_t i = 0; i < k; i++) if (cplx) ((float complex *) b)[i] = (float complex) X[in + i]; else b[i] = (float) creal(X[in + i]);
        void *o = NULL; size_t on = 77; in += k;
        if (k < 400) w_note("%zu ", k);
        if (kind == FIR) fir_filter_process(b, k, &o, &on, f); else if (kind == LPF) lpf_process(b, k, &o, &on, f); else interp_fir_filter_process(b, k, (float **) &o, &on, f);
        size_t want = kind == INTERP ? in * I_ : (in + D - 1) / D;
        P_CHECK(p, out + on == want, "after %zu samples %zu results, %zu expected", in, out + on, want);
        for (size_t i = 0; i < on; i++, out++) {
            double complex r = 0;
            if (kind == INTERP) { for (size_t j = out % I_; j < nh; j += I_) if (out / I_ >= j / I_) r += H[j] * X[out / I_ - j / I_]; }
            else for (size_t j = 0; j < nh && j <= out * D; j++) r += H[j] * X[out * D - j];
            double complex g = cplx ? (double complex) ((float complex *) o)[i] : (double) ((float *) o)[i];
            if (!(cabs(g - r) <= tol)) P_CHECK(p, 0, "sample %zu is %g%+gi instead of %g%+gi", out, creal(g), cimag(g), creal(r), cimag(r));
        }
        free(b);
    }
}
static size_t pick_total(size_t max) { size_t t = max * (1 + w_rnd(6)) + w_rnd(20); return t > NMAX ? NMAX : t; }
static void c_fir(void) {
    size_t nh = (size_t) w_size(1, 200), max = (size_t) w_size(1, 700); uint8_t D = (uint8_t) (w_chance(40) ? 1 : w_chance(20) ? w_size(1, 255) : w_range(1, 12)); int cplx = (int) w_rnd(2);
    float *t = malloc(nh * sizeof(float));
    for (size_t i = 0; i < nh; i++) { t[i] = (float) (w_unit() * 2 - 1); H[i] = t[i]; }
    size_t total = pick_total(max);
    w_note("fir taps=%zu max=%zu decimation=%u complex=%d total=%zu ", nh, max, D, cplx, total);
    fill(total, cplx);
    fir_filter *f = NULL;
    P_CHECK("C14", fir_filter_create(D, t, nh, max, cplx ? 8 : 4, &f) == 0, "cannot be created");
    run_filter("C14", FIR, f, cplx, D, 1, max, nh, total);
    fir_filter_destroy(f);
}
static int ref_taps(uint64_t fs, uint64_t fc, uint32_t tw, size_t *n) {
    double q = 53 * (double) fs / (22.0 * (double) tw); if (q > 39000) return -1;
    int nt = (int) q; if (!(nt & 1)) nt++;
    double s = 0; int M = (nt - 1) / 2;
    for (int i = 0; i < nt; i++) {
        double w = nt == 1 ? 1 : 0.54 - 0.46 * cos(2 * M_PI * i / (nt - 1)), a = 2 * M_PI * (double) fc / (double) fs;
        H[i] = (i == M ? a / M_PI : sin((i - M) * a) / ((i - M) * M_PI)) * w; s += H[i];
    }
    for (int i = 0; i < nt; i++) H[i] /= s;
    *n = (size_t) nt; return fabs(s) < 0.05 ? 1 : 0;    /* badly conditioned normalisation */
}
static void c_taps(void) {
    uint64_t fs = w_chance(5) ? 0 : (uint64_t) w_size(1, 2000000), fc = w_chance(5) ? 0 : w_chance(10) ? fs / 2 + w_rnd(3) : (uint64_t) w_range(0, (int64_t) (fs / 2 + 2)); uint32_t tw = w_chance(5) ? 0 : (uint32_t) w_range((int64_t) (fs / 800 + 1), (int64_t) (fs / 2 + fs + 2));
    w_note("taps sampling=%llu cutoff=%llu transition=%u ", (unsigned long long) fs, (unsigned long long) fc, tw);
    float *t = NULL; size_t n = 0;
    int bad = fs == 0 || fc == 0 || (double) fc > (double) fs / 2 || tw == 0;
    int c = create_low_pass_filter(1.0F, fs, fc, tw, &t, &n);
    P_CHECK("C14", (c != 0) == bad, "create_low_pass_filter returns %d", c);
    if (c) return;
    size_t nr; int cond = ref_taps(fs, fc, tw, &nr);
    if (cond >= 0) {
        P_CHECK("C14", n == nr, "%zu taps instead of %zu", n, nr);
        double s = 0, m = 0; for (size_t i = 0; i < n; i++) { s += t[i]; if (fabs(H[i]) > m) m = fabs(H[i]); P_CHECK("C14", fabsf(t[i] - t[n - 1 - i]) <= 1e-5 * (fabsf(t[i]) + 1e-3), "taps are not symmetric at %zu", i); }
        if (cond == 0) { P_CHECK("C14", fabs(s - 1) < 1e-3, "the gain of the low pass filter is %g", s); for (size_t i = 0; i < n; i++) P_CHECK("C14", fabs(t[i] - H[i]) <= 3e-4 * m, "tap %zu is %g instead of %g", i, t[i], H[i]); }
    }
    free(t);
}
static void c_lpf(void) {
    uint64_t fs = (uint64_t) w_size(1000, 2000000), fc = 1 + w_rnd(fs / 2 - 1); uint32_t tw = (uint32_t) w_range((int64_t) (fs / 100 + 1), (int64_t) fs);
    size_t nh, max = (size_t) w_size(1, 700); uint8_t D = (uint8_t) w_range(1, 9); int cplx = (int) w_rnd(2);
    if (ref_taps(fs, fc, tw, &nh)) return;
    size_t total = pick_total(max);
    w_note("lpf sampling=%llu cutoff=%llu transition=%u max=%zu decimation=%u complex=%d total=%zu ", (unsigned long long) fs, (unsigned long long) fc, tw, max, D, cplx, total);
    fill(total, cplx);
    float *t; size_t n; if (create_low_pass_filter(1.0F, fs, fc, tw, &t, &n)) return;
    if (n != nh) return;                                   /* reported by c_taps */
    for (size_t i = 0; i < n; i++) H[i] = t[i]; free(t);
    lpf *f = NULL;
    P_CHECK("C14", lpf_create(D, fs, fc, tw, max, cplx ? 8 : 4, &f) == 0, "cannot be created");
    run_filter("C14", LPF, f, cplx, D, 1, max, nh, total);
    lpf_destroy(f);
}
static void c_interp(void) {
    uint8_t L = (uint8_t) (w_chance(15) ? w_size(1, 255) : w_range(1, 20)); size_t nh = (size_t) w_size(1, 300), max = (size_t) w_size(1, 300), total = pick_total(max);
    if (total * L > 40000) total = 40000 / L;
    float *t = malloc(nh * sizeof(float)); for (size_t i = 0; i < nh; i++) { t[i] = (float) (w_unit() * 2 - 1); H[i] = t[i]; }
    w_note("interpolation=%u taps=%zu max=%zu total=%zu ", L, nh, max, total);
    fill(total, 0);
    interp_fir_filter *f = NULL;
    P_CHECK("C19", interp_fir_filter_create(t, nh, L, (uint32_t) max, &f) == 0, "cannot be created");
    run_filter("C19", INTERP, f, 0, 1, L, max, nh, total);
    interp_fir_filter_destroy(f);
}
static void c_freqmod(void) {
    size_t max = (size_t) w_size(1, 600), total = pick_total(max), in = 0; float sens = (float) (w_unit() * 3);
    w_note("frequency modulator sensitivity=%g max=%zu total=%zu ", sens, max, total);
    frequency_modulator *m = NULL; P_CHECK("C16", frequency_modulator_create(sens, (uint32_t) max, &m) == 0, "cannot be created");
    double ph = 0;
    while (in < total) {
        if (w_chance(5)) { float *b = calloc(max + 1, 4); float complex *o = (void *) 1; size_t on = 7; for (size_t i = 0; i <= max; i++) b[i] = 1; frequency_modulator_process(b, max + 1, &o, &on, m); P_CHECK("C16", on == 0 && o == NULL, "a too long block is accepted"); free(b); continue; }
        size_t k = blocklen(max); if (k > total - in) k = total - in;
        float *b = malloc((k ? k : 1) * 4); for (size_t i = 0; i < k; i++) b[i] = w_chance(30) ? 1 : (float) (w_unit() * 2 - 1);
        float complex *o; size_t on; w_note("%zu ", k);
        frequency_modulator_process(b, k, &o, &on, m);
        P_CHECK("C16", on == k, "%zu samples for %zu", on, k);
        for (size_t i = 0; i < on; i++, in++) { ph += (double) sens * b[i]; double tol = 1e-3 + in * 1e-6; double complex r = cexp(I * ph); if (!(cabs(r - o[i]) < tol)) P_CHECK("C16", 0, "sample %zu is %g%+gi instead of %g%+gi", in, creal(o[i]), cimag(o[i]), creal(r), cimag(r)); }
        free(b);
    }
    frequency_modulator_destroy(m);
}
static void ref_gauss(double sps, double bt, size_t n) {
    double s = 2 * M_PI * bt / sqrt(log(2.0)), sum = 0;
    for (size_t i = 0; i < n; i++) { double t = (double) i + 1 - 0.5 * (double) n, x = s * t / sps; H[i] = exp(-0.5 * x * x); sum += H[i]; }
    for (size_t i = 0; i < n; i++) H[i] /= sum;
}
static void c_gauss(void) {
    double sps = w_unit() * 40 + 1, bt = 0.2 + w_unit(), gain = 0.5 + w_unit(); size_t n = (size_t) w_size(1, 200); float *t = NULL;
    w_note("gaussian sps=%g bt=%g gain=%g n=%zu ", sps, bt, gain, n);
    P_CHECK("C16", gaussian_taps_create(gain, sps, bt, n, &t) == 0, "cannot be created");
    ref_gauss(sps, bt, n);
    for (size_t i = 0; i < n; i++) P_CHECK("C16", fabs(t[i] - H[i] * gain) <= 1e-4 * gain, "tap %zu is %g instead of %g", i, t[i], H[i] * gain);
    free(t);
}
static void c_gfsk(void) {
    double fs = w_range(1, 40); float sps = w_chance(70) ? (float) fs : (float) (1 + w_unit() * 30); if (w_chance(5)) sps = (float) w_range(200, 255);
    size_t L = (size_t) sps, ng = (size_t) (4 * sps), max = (size_t) w_size(1, 60), nh = ng + L - 1, total = pick_total(max);
    float sens = (float) (w_unit() * 2); while (total * 8 * L > 24000) total /= 2; if (total < 1) total = 1;
    w_note("gfsk sps=%g sensitivity=%g max=%zu bytes=%zu ", sps, sens, max, total);
    static double G[2000]; ref_gauss(sps, 0.5, ng); memcpy(G, H, sizeof(double) * ng); memset(H, 0, sizeof(double) * nh);
    for (size_t i = 0; i < ng; i++) for (size_t j = 0; j < L; j++) H[i + j] += G[i];
    gfsk_mod *m = NULL; P_CHECK("C16", gfsk_mod_create(sps, sens, 0.5F, (uint32_t) max, &m) == 0, "cannot be created");
    static uint8_t by[4000]; int kind = (int) w_rnd(3); for (size_t i = 0; i < total; i++) by[i] = (uint8_t) (kind == 0 ? 0xff : kind == 1 ? 0xaa : w_rnd(256));
    size_t in = 0, out = 0; double ph = 0;
    while (in < total) {
        if (w_chance(5)) { uint8_t *b = calloc(max + 1, 1); float complex *o = (void *) 1; size_t on = 7; gfsk_mod_process(b, max + 1, &o, &on, m); P_CHECK("C16", on == 0, "a too long block is accepted"); free(b); continue; }
        size_t k = blocklen(max); if (k > total - in) k = total - in;
        uint8_t *b = malloc(k ? k : 1); memcpy(b, by + in, k); in += k; w_note("%zu ", k);
        float complex *o = NULL; size_t on = 0; gfsk_mod_process(b, k, &o, &on, m);
        P_CHECK("C16", on == k * 8 * L, "%zu samples for %zu bytes", on, k);
        for (size_t i = 0; i < on; i++, out++) {
            double v = 0; size_t bit = out / L;
            for (size_t j = out % L; j < nh; j += L) { size_t d = (j - out % L) / L; if (bit >= d) v += H[j] * ((by[(bit - d) / 8] >> (7 - (bit - d) % 8)) & 1 ? 1 : -1); }
            ph += sens * v; double complex r = cexp(I * ph);
            if (!(cabs(r - o[i]) < 1e-3 + (double) out * 2e-6)) P_CHECK("C16", 0, "sample %zu is %g%+gi instead of %g%+gi", out, creal(o[i]), cimag(o[i]), creal(r), cimag(r));
        }
        free(b);
    }
    gfsk_mod_destroy(m);
    if (w_chance(10)) { float bad = w_chance(50) ? (float) w_unit() * 0.99f : 256 + (float) w_rnd(100); m = NULL; P_CHECK("C16", gfsk_mod_create(bad, 1, 0.5f, 10, &m) != 0, "%g samples per symbol are accepted", bad); }
}
static void c_sig(void) {
    uint64_t fs = (uint64_t) w_size(8, 3000000); size_t max = (size_t) w_size(1, 600), total = pick_total(max), in = 0; float amp = w_chance(50) ? 1 : (float) (w_unit() * 4);
    w_note("signal source sampling=%llu amplitude=%g max=%zu total=%zu ", (unsigned long long) fs, amp, max, total);
    sig_source *s = NULL; P_CHECK("C18", sig_source_create(amp, fs, (uint32_t) max, &s) == 0, "cannot be created");
    double ph = 0; int64_t f = w_range(-(int64_t) fs / 2, (int64_t) fs / 2);
    while (in < total) {
        if (w_chance(30)) f = w_chance(30) ? -f : w_chance(10) ? 0 : w_range(-(int64_t) fs, (int64_t) fs);
        if (w_chance(5)) { float complex *b = calloc(max + 1, 8), *o = (void *) 1; size_t on = 7; sig_source_multiply(f, b, max + 1, &o, &on, s); P_CHECK("C18", on == 0 && o == NULL, "a too long block is accepted"); free(b); continue; }
        size_t k = blocklen(max); if (k > total - in) k = total - in;
        w_note("%lld*%zu ", (long long) f, k);
        float complex *b = malloc((k ? k : 1) * 8), *o = NULL; size_t on = 0; for (size_t i = 0; i < k; i++) b[i] = (float) (w_unit() * 2 - 1) + I * (float) (w_unit() * 2 - 1);
        int mul = (int) w_rnd(2);
        if (mul) sig_source_multiply(f, b, k, &o, &on, s); else sig_source_process(f, k, &o, &on, s);
        P_CHECK("C18", on == k, "%zu samples for %zu", on, k);
        for (size_t i = 0; i < on; i++, in++) {
            double complex r = amp * cexp(I * ph); if (mul) r *= b[i]; ph += 2 * M_PI * (double) f / (double) fs;
            if (!(cabs(r - o[i]) < (amp + 0.01) * (2e-3 + (double) in * 2e-6))) P_CHECK("C18", 0, "sample %zu is %g%+gi instead of %g%+gi", in, creal(o[i]), cimag(o[i]), creal(r), cimag(r));
        }
        free(b);
    }
    sig_source_destroy(s);
}
static void c_quad(void) {
    float gain = (float) (w_unit() * 8 - 4); size_t max = (size_t) w_size(1, 600), total = pick_total(max), in = 0;
    w_note("quadrature demodulator gain=%g max=%zu total=%zu ", gain, max, total);
    fill(total, 1);
    quadrature_demod *q = NULL; P_CHECK("C15", quadrature_demod_create(gain, (uint32_t) max, &q) == 0, "cannot be created");
    while (in < total) {
        if (w_chance(5)) { float complex *b = calloc(max + 1, 8); float *o = (void *) 1; size_t on = 7; quadrature_demod_process(b, max + 1, &o, &on, q); P_CHECK("C15", on == 0, "a too long block is accepted"); free(b); continue; }
        size_t k = blocklen(max); if (k > total - in) k = total - in; w_note("%zu ", k);
        float complex *b = malloc((k ? k : 1) * 8); for (size_t i = 0; i < k; i++) b[i] = (float complex) X[in + i];
        float *o = NULL; size_t on = 0; quadrature_demod_process(b, k, &o, &on, q);
        P_CHECK("C15", on == k, "%zu samples for %zu", on, k);
        for (size_t i = 0; i < on; i++, in++) {
            double complex z = in ? X[in] * conj(X[in - 1]) : 0; double e = fabs(o[i] - gain * carg(z)), m = in ? cabs(X[in]) * cabs(X[in - 1]) : 0;
            if (m > 0 && m < 1e-9) continue;
            e = fmin(e, fabs(e - 2 * M_PI * fabs(gain)));
            if (!(e <= fabs(gain) * 2e-4 + 1e-9)) P_CHECK("C15", 0, "sample %zu is %g instead of %g", in, o[i], gain * carg(z));
        }
        free(b);
    }
    quadrature_demod_destroy(q);
}
static void c_dc(void) {
    int L = (int) w_size(2, 200); size_t total = (size_t) w_size(1, 2500), in = 0; double a = w_chance(20) ? 1000 : 1, off = w_chance(50) ? 0 : w_unit() * 5 * a;
    w_note("dc blocker length=%d total=%zu amplitude=%g offset=%g ", L, total, a, off);
    for (size_t i = 0; i < total; i++) X[i] = (double) (float) ((w_unit() * 2 - 1) * a + off);
    static double A[NMAX], B[NMAX]; for (size_t i = 0; i < total; i++) A[i] = creal(X[i]);
    for (int r = 0; r < 4; r++) { double s = 0; for (size_t i = 0; i < total; i++) { s += A[i]; if (i >= (size_t) L) s -= A[i - L]; B[i] = s / L; } memcpy(A, B, sizeof(double) * total); }
    dc_blocker *d = NULL; P_CHECK("C15", dc_blocker_create(L, &d) == 0, "cannot be created");
    while (in < total) {
        size_t k = blocklen(300); if (k > total - in) k = total - in; w_note("%zu ", k);
        float *b = malloc((k ? k : 1) * 4), *o = NULL; size_t on = 0; for (size_t i = 0; i < k; i++) b[i] = (float) creal(X[in + i]);
        dc_blocker_process(b, k, &o, &on, d);
        P_CHECK("C15", on == k, "%zu samples for %zu", on, k);
        for (size_t i = 0; i < on; i++, in++) {
            size_t del = 2 * ((size_t) L - 1); double r = (in >= del ? creal(X[in - del]) : 0) - A[in];
            if (!(fabs(r - o[i]) <= (a + off) * 3e-3)) P_CHECK("C15", 0, "sample %zu is %g instead of %g", in, o[i], r);
        }
        free(b);
    }
    dc_blocker_destroy(d);
    d = NULL; if (w_chance(5)) P_CHECK("C15", dc_blocker_create((int) w_range(-3, 1), &d) != 0, "an empty delay line is accepted");
}
static struct { const char *p; void (*f)(void); } K[] = { {"C14", c_fir}, {"C14", c_fir}, {"C14", c_taps}, {"C14", c_lpf}, {"C15", c_quad}, {"C15", c_dc}, {"C16", c_gfsk}, {"C16", c_gfsk}, {"C16", c_freqmod}, {"C16", c_gauss}, {"C18", c_sig}, {"C19", c_interp} };
void w_case(uint64_t n) {
    unsigned k; int any = 0; const unsigned N = sizeof K / sizeof *K;
    for (unsigned i = 0; i < N; i++) any |= w_prop && !strcmp(w_prop, K[i].p);
    do k = (unsigned) w_rnd(N); while (any && strcmp(K[k].p, w_prop));
    w_acct_begin(-1);
    K[k].f();
    int l = w_acct_end();
    P_CHECK(K[k].p, l == 0, "%d allocations leaked", l);
}
