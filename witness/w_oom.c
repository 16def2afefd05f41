// SRC: src/dsp/fir_filter.c src/dsp/lpf.c src/dsp/lpf_taps.c src/dsp/interp_fir_filter.c src/dsp/gfsk_mod.c src/dsp/gaussian_taps.c src/dsp/frequency_modulator.c src/dsp/quadrature_demod.c src/dsp/dc_blocker.c src/dsp/clock_recovery_mm.c src/dsp/mmse_fir_interpolator.c src/dsp/fsk_demod.c src/dsp/sig_source.c src/dsp/doppler.c src/math/fast_atan2f.c src/sgpsdp/sgp_in.c src/sgpsdp/sgp_math.c src/sgpsdp/sgp_obs.c src/sgpsdp/sgp_time.c src/sgpsdp/sgp4sdp4.c src/sgpsdp/solar.c src/queue.c src/linked_list.c src/sdr/iio_lib.c
// WRAP: malloc free calloc volk_malloc volk_free dlopen dlsym dlclose
/* every constructor with every single allocation failing: an error is returned, nothing stays allocated, nothing is
 * released twice, and the next attempt gives the same object as if nothing happened */
#define W_MALLOC
#include "w.h"
#include <math.h>
#include <complex.h>
#include "dsp/fir_filter.h"
#include "dsp/lpf.h"
#include "dsp/lpf_taps.h"
#include "dsp/interp_fir_filter.h"
#include "dsp/gaussian_taps.h"
#include "dsp/gfsk_mod.h"
#include "dsp/frequency_modulator.h"
#include "dsp/quadrature_demod.h"
#include "dsp/dc_blocker.h"
#include "dsp/clock_recovery_mm.h"
#include "dsp/mmse_fir_interpolator.h"
#include "dsp/fsk_demod.h"
#include "dsp/sig_source.h"
#include "dsp/doppler.h"
#include "queue.h"
#include "linked_list.h"
#include "sdr/iio_lib.h"
#define P "C26"
static int handles, symno, symfail, symtotal, openfails;
void *__wrap_dlopen(const char *f, int fl) { if (openfails) return NULL; handles++; return (void *) 0x5550; }
static void dummy(void) {}
void *__wrap_dlsym(void *h, const char *s) { P_CHECK(P, h == (void *) 0x5550 && handles == 1, "a symbol of a library that is not open"); return symno++ == symfail ? NULL : (void *) dummy; }
int __wrap_dlclose(void *h) { P_CHECK(P, h == (void *) 0x5550 && handles == 1, "the library is closed twice"); handles--; return 0; }
static void w_init_once(void) { w_case_secs = 20; if (w_from & 1) setenv("VOLK_GENERIC", "1", 1); }
static int kind, cplx, destroyed; static size_t nh, max, L; static uint8_t D; static float fa, fb, fc_; static uint64_t fs, fc; static char tle[3][80]; static float H[64];
static float X[600] __attribute__((aligned(64))), X0[600];
static const char *N[] = {"fir_filter", "lpf", "lpf_taps", "interp_fir_filter", "gaussian_taps", "gfsk_mod", "frequency_modulator", "quadrature_demod", "dc_blocker", "clock_mm", "mmse_fir_interpolator", "fsk_demod", "sig_source", "doppler", "queue", "linked_list", "convolve", "iio_lib"};
static void dtor(void *p) { destroyed++; }
static int make(void **o, size_t *len) {
    float *t; int r;
    switch (kind) {
        case 0: case 3: { /* the caller gives the taps away: to the filter always, to the interpolator when it was created */
            t = __real_malloc(nh * 4); w_add(t); memcpy(t, H, nh * 4);
            if (kind == 0) return fir_filter_create(D, t, nh, max, cplx ? 8 : 4, (fir_filter **) o);
            r = interp_fir_filter_create(t, nh, (uint8_t) L, (uint32_t) max, (interp_fir_filter **) o); if (r != 0) free(t); return r;
        }
        case 1: return lpf_create(D, fs, fs / 5, (uint32_t) (fs / 10), max, cplx ? 8 : 4, (lpf **) o);
        case 2: return create_low_pass_filter(1.0F, fs, fs / 5, (uint32_t) (fs / 10), (float **) o, len);
        case 4: *len = nh; return gaussian_taps_create(1, 4, 0.5, nh, (float **) o);
        case 5: return gfsk_mod_create((float) L, fa, 0.5F, (uint32_t) max, (gfsk_mod **) o);
        case 6: return frequency_modulator_create(fa, (uint32_t) max, (frequency_modulator **) o);
        case 7: return quadrature_demod_create(fa, (uint32_t) max, (quadrature_demod **) o);
        case 8: return dc_blocker_create((int) nh + 1, (dc_blocker **) o);
        case 9: return clock_mm_create(fb, 0.01f, 0.5f, 0.1f, 0.01f, max, (clock_mm **) o);
        case 10: return mmse_fir_interpolator_create((mmse_fir_interpolator **) o);
        case 11: return fsk_demod_create(48000, 4800, 5000, 2, 2000, cplx, (uint32_t) max, (fsk_demod **) o);
        case 12: return sig_source_create(fa, fs, (uint32_t) max, (sig_source **) o);
        case 13: return doppler_create(50, 10, 0.1, 2000, 400000000, 10, 1500000000, (uint32_t) max, tle, (doppler **) o);
        case 14: return create_queue((uint32_t) max, (uint16_t) (1 + nh % 9), cplx, (queue **) o);
        case 15: { linked_list *l = NULL; for (size_t i = 0; i < 1 + nh % 9; i++) if ((r = linked_list_add((void *) (i + 1), dtor, &l)) != 0) { int d0 = destroyed; linked_list_destroy(l); P_CHECK(P, (size_t) (destroyed - d0) == i, "%d of %zu elements are destroyed", destroyed - d0, i); return r; } *o = l; return 0; }
        case 16: return gfsk_mod_convolve(H, nh, H, 1 + nh / 2, (float **) o, len);
        default: return iio_lib_create((iio_lib **) o);
    }
}
static void *get(void *o, size_t *n, size_t len, float *copy) {
    memcpy(X, X0, sizeof X); /* some filters work in place */
    size_t k = max < 200 ? max : 200; float *r = NULL; int8_t *r8 = NULL; float complex *rc = NULL, *z = (float complex *) X; *n = 0; size_t b = 0;
    switch (kind) {
        case 0: fir_filter_process(X, k, (void **) &r, n, o); b = *n * (cplx ? 8 : 4); break;
        case 1: lpf_process(X, k, (void **) &r, n, o); b = *n * (cplx ? 8 : 4); break;
        case 2: case 4: case 16: memcpy(copy, o, len * 4); *n = len; return copy;
        case 3: interp_fir_filter_process(X, k, &r, n, o); b = *n * 4; break;
        case 5: { size_t kk = k < 6 ? k : 6; gfsk_mod_process((uint8_t *) X, kk, &rc, n, o); b = *n * 8; r = (float *) rc; break; }
        case 6: frequency_modulator_process(X, k, &rc, n, o); b = *n * 8; r = (float *) rc; break;
        case 7: quadrature_demod_process(z, k, &r, n, o); b = *n * 4; break;
        case 8: dc_blocker_process(X, k, &r, n, o); b = *n * 4; break;
        case 9: clock_mm_process(X, k, &r, n, o); b = *n * 4; break;
        case 10: for (int i = 0; i < 16; i++) copy[i] = mmse_fir_interpolator_process(X + i, (float) i / 16, o); *n = 16; return copy;
        case 11: fsk_demod_process(z, k, &r8, n, o); b = *n; r = (float *) r8; break;
        case 12: sig_source_multiply(123, z, k, &rc, n, o); b = *n * 8; r = (float *) rc; break;
        case 13: doppler_process_rx(z, k, &rc, n, o); b = *n * 8; r = (float *) rc; break;
        case 14: { size_t q = 1 + nh % 9; for (size_t i = 0; i < q; i++) queue_put(z, k - (i && k > 1 ? 1 : 0), o); for (size_t i = 0; i < q; i++) { float complex *bb = NULL; size_t l = 0; take_buffer_for_processing(&bb, &l, o); P_CHECK(P, l == k - (i && k > 1 ? 1 : 0) && !memcmp(bb, z, l * 8), "the queue returns %zu samples", l); complete_buffer_processing(o); } return copy; }
        default: return copy;
    }
    if (b > 4000) b = 4000; memcpy(copy, r, b); return copy;
}
static void drop(void *o) {
    switch (kind) {
        case 0: fir_filter_destroy(o); break; case 1: lpf_destroy(o); break; case 2: case 4: case 16: free(o); break; case 3: interp_fir_filter_destroy(o); break; case 5: gfsk_mod_destroy(o); break; case 6: frequency_modulator_destroy(o); break;
        case 7: quadrature_demod_destroy(o); break; case 8: dc_blocker_destroy(o); break; case 9: clock_mm_destroy(o); break; case 10: mmse_fir_interpolator_destroy(o); break; case 11: fsk_demod_destroy(o); break; case 12: sig_source_destroy(o); break;
        case 13: doppler_destroy(o); break; case 14: destroy_queue(o); break; case 15: { int d0 = destroyed; linked_list_destroy(o); P_CHECK(P, destroyed - d0 == (int) (1 + nh % 9), "%d elements are destroyed", destroyed - d0); break; } case 17: iio_lib_destroy(o); break;
    }
}
static void destroy_null(void) {
    void *o = NULL;
    if (kind != 2 && kind != 4 && kind != 16 && kind != 15 && kind != 14) drop(o); else if (kind == 15) linked_list_destroy(NULL);
}
void w_case(uint64_t n) {
    kind = (int) (n % 18); cplx = (int) w_rnd(2); nh = 1 + w_rnd(60); max = 1 + w_rnd(280); L = 1 + w_rnd(w_chance(10) ? 255 : 12); D = (uint8_t) (1 + w_rnd(8)); fa = (float) w_unit() * 2 + 0.1f; fb = 2 + (float) w_unit() * 10; fs = 1000 + w_rnd(100000);
    if (kind == 5) max = 1 + max % 12;
    for (size_t i = 0; i < 64; i++) H[i] = (float) w_unit() - 0.5f; for (size_t i = 0; i < 600; i++) X0[i] = (float) w_unit() - 0.5f;
    strcpy(tle[0], "LUCKY-7"); strcpy(tle[1], "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992"); strcpy(tle[2], "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524");
    w_note("%s taps=%zu max=%zu factor=%zu decimation=%u ", N[kind], nh, max, L, D);
    static float A[1100], B[1100]; memset(A, 0, sizeof A); memset(B, 0, sizeof B); size_t na = 0, nb = 0, len = 0; symfail = -1; symno = 0; handles = 0; openfails = 0;
    w_acct_begin(-1); void *o = NULL; errno = 0;
    int r = make(&o, &len); int total = w_nalloc; symtotal = symno;
    P_CHECK(P, r == 0 && o != NULL, "%s cannot be created: %d", N[kind], r); if (r || !o) return;
    get(o, &na, len, A); drop(o); P_CHECK(P, w_acct_end() == 0 && handles == 0, "%s leaves %d allocations after it is destroyed", N[kind], w_nlive);
    destroy_null();
    for (int k = 0; k < total + (kind == 17 ? symtotal + 1 : 0); k++) {
        if (total > 40 && k > 12 && k < total - 5 && w_rnd((uint64_t) total) > 12) continue;
        w_acct_begin(k < total ? k : -1); if (k >= total) { openfails = k == total; symno = 0; symfail = k - total - 1; }
        o = NULL; r = make(&o, &len);
        if (w_nalloc > k || k >= total) {
            P_CHECK(P, r != 0, "%s is created although %s %d failed", N[kind], k < total ? "allocation" : "symbol", k); if (r == 0) return;
            P_CHECK(P, w_acct_end() == 0 && handles == 0, "%s leaves %d allocations and %d libraries when %s %d of %d fails", N[kind], w_nlive, handles, k < total ? "allocation" : "symbol", k, total);
        } else { if (r == 0) drop(o); w_acct_end(); }
        symfail = -1; openfails = 0;
    }
    w_acct_begin(-1); o = NULL; symno = 0; r = make(&o, &len); /* errno keeps what the failures left there */
    P_CHECK(P, r == 0, "%s cannot be created after a failure: %d", N[kind], r); if (r) return;
    get(o, &nb, len, B); drop(o); P_CHECK(P, w_acct_end() == 0, "leak");
    P_CHECK(P, na == nb && !memcmp(A, B, sizeof A), "%s works differently after a failure", N[kind]);
}
