// SRC: src/sdr/file_source.c src/dsp/sig_source.c
// WRAP: malloc free calloc volk_malloc volk_free fopen fclose pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
/* the file device on real files in a scratch directory */
#define W_MALLOC
#include "w.h"
#include "w_sched.h"
#include <math.h>
#include <complex.h>
#include <sys/stat.h>
#include "sdr/file_source.h"
#define P "C25"
#define NM 4096
static char rx[300], tx[300], dir[300]; static FILE *openf[8]; static int nopen, openfail = -1, opens;
FILE *__real_fopen(const char *p, const char *m); int __real_fclose(FILE *f);
FILE *__wrap_fopen(const char *p, const char *m) {
    if (w_acct && opens++ == openfail) { errno = EMFILE; return NULL; }
    int a = w_acct; w_acct = 0; FILE *f = __real_fopen(p, m); w_acct = a;
    if (f && w_acct && nopen < 8) openf[nopen++] = f;
    return f;
}
int __wrap_fclose(FILE *f) {
    int k = -1; for (int i = 0; i < nopen; i++) if (openf[i] == f) k = i;
    if (w_acct) { P_CHECK(P, k >= 0, "a file is closed twice"); }
    if (k >= 0) openf[k] = openf[--nopen];
    int a = w_acct; w_acct = 0; int r = __real_fclose(f); w_acct = a; return r;
}
static void w_init_once(void) {
    if (w_from & 1) setenv("VOLK_GENERIC", "1", 1);
    const char *s = getenv("W_SCRATCH"); if (!s) s = ".";
    snprintf(rx, sizeof rx, "%s/rx.bin", s); snprintf(tx, sizeof tx, "%s/tx.bin", s); snprintf(dir, sizeof dir, "%s/adir", s); mkdir(dir, 0700);
    sc_init();
}
static float complex X[NM], Y[NM]; static sdr_device *dev; static int stopped;
static void *stopper(void *p) { int k = (int) (intptr_t) p; while (k--) sc_switch(); stopped = 1; dev->stop_rx(dev->plugin); return NULL; }
static void shifted(const char *what, const float complex *got, size_t at, size_t n, const float complex *in, int64_t f, uint64_t fs) {
    for (size_t i = 0; i < n; i++) {
        float complex x = in[at + i];
        double ph = fmod(2 * M_PI * (double) f / (double) fs * (double) (at + i), 2 * M_PI); double complex e = f == 0 ? x : (double complex) x * (cos(ph) + I * sin(ph));
        double tol = f == 0 ? 0 : cabs(x) * (1e-4 + 4e-6 * (double) (at + i) * (1 + fabs((double) f / fs))) + 1e-30;
        P_CHECK(P, f == 0 ? (got[i] == x || memcmp(&got[i], &x, 8) == 0) : cabs((double complex) got[i] - e) <= tol, "%s sample %zu is %g%+gi instead of %g%+gi", what, at + i, creal(got[i]), cimag(got[i]), creal(e), cimag(e));
    }
}
void w_case(uint64_t n) {
    size_t ns = w_chance(20) ? w_rnd(3) : w_rnd(600), tail = w_rnd(8); uint32_t max = w_chance(30) ? 1 + (uint32_t) w_rnd(4) : 1 + (uint32_t) w_rnd(200);
    uint64_t fs = w_chance(50) ? 1000 + w_rnd(1000000) : 48000; int64_t off = w_chance(40) ? 0 : w_range(-(int64_t) fs, (int64_t) fs); if (w_chance(20)) off = w_range(-20, 20);
    int usedir = w_chance(8), norx = w_chance(8), notx = w_chance(15); openfail = w_chance(10) ? (int) w_rnd(2) : -1; opens = 0; nopen = 0;
    for (size_t i = 0; i < ns + 1; i++) X[i] = (float) (w_unit() * 2 - 1) + I * (float) (w_unit() * 2 - 1);
    w_note("samples=%zu+%zu bytes max=%u fs=%llu offset=%lld dir=%d norx=%d notx=%d ", ns, tail, max, (unsigned long long) fs, (long long) off, usedir, norx, notx);
    FILE *f = __real_fopen(rx, "wb"); if (!f) return; fwrite(X, 1, ns * 8 + tail, f); __real_fclose(f);
    f = __real_fopen(tx, "wb"); if (!f) return; fwrite("stale", 1, 5, f); __real_fclose(f);
    int nomem = w_chance(15);
    w_acct_begin(nomem ? (int) w_rnd(5) : -1); stopped = 0;
    sc_begin(); sc_switchpct = 30;
    dev = (sdr_device *) 5;
    int willopen = (norx ? 0 : 1) + (notx ? 0 : 1), nallocs = off ? 5 : 3;
    int r = file_source_create(7, norx ? NULL : usedir ? dir : rx, notx ? NULL : tx, fs, off, max, &dev);
    int must_fail = (openfail >= 0 && openfail < willopen) || (nomem && w_failat < nallocs);
    if (must_fail) {
        P_CHECK("C25,C26", r != 0, "a device is created although %s", nomem ? "there was no memory" : "a file cannot be opened");
        if (r != 0) { sc_on = 0; P_CHECK("C25,C26", w_acct_end() == 0 && nopen == 0, "a failed creation leaves %d allocations and %d files", w_nlive, nopen); return; }
    }
    P_CHECK(P, r == 0, "the device cannot be created: %d", r); if (r) { sc_on = 0; w_acct_end(); return; }
    w_failat = -1;
    pthread_t t; int spawned = 0, stop_after = (int) w_rnd(40);
    size_t pos = 0, sent = 0; float complex *o; size_t on;
    if (usedir && !norx) { o = (void *) 1; on = 77; int c = dev->sdr_process_rx(&o, &on, dev->plugin); P_CHECK(P, c == -1 && on == 0, "a read error gives %d, %zu", c, on); } /* without waiting for a stop */
    __wrap_pthread_create(&t, NULL, stopper, (void *) (intptr_t) stop_after); spawned = 1;
    for (int calls = 0;; calls++) {
        o = (void *) 1; on = 77;
        int c = dev->sdr_process_rx(&o, &on, dev->plugin);
        if (norx) { P_CHECK(P, c == -1 && on == 0, "reading without a file gives %d, %zu", c, on); break; }
        if (usedir) { P_CHECK(P, c == -1 && on == 0, "a read error gives %d, %zu", c, on); break; }
        if (c != 0) {
            P_CHECK(P, c == -1 && on == 0, "at the end of the file the device returns %d and %zu samples", c, on);
            P_CHECK(P, pos == ns, "the device ends after %zu of %zu samples", pos, ns);
            P_CHECK(P, stopped, "the device ends before it is stopped");
            break;
        }
        P_CHECK(P, on > 0 && on <= max && pos + on <= ns, "a block of %zu samples after %zu of %zu (max %u)", on, pos, ns, max);
        if (on == 0 || pos + on > ns) break;
        P_CHECK(P, on == max || pos + on == ns, "a short block of %zu in the middle", on);
        shifted("received", o, pos, on, X, off, fs);
        pos += on; sc_yield();
        if (calls > 2000) break;
    }
    P_CHECK(P, norx || usedir || pos == ns, "%zu of %zu samples were delivered", pos, ns);
    (void) spawned;
    sc_wait_io(sc_others_done, NULL);
    __wrap_pthread_join(t, NULL);
    /* transmission: a device of its own, as the server does */
    dev->destroy(dev->plugin); free(dev);
    P_CHECK(P, nopen == 0, "a file is left open");
    opens = 0; openfail = -1;
    if (!notx) {
        r = file_source_create(8, NULL, tx, fs, off, max, &dev);
        P_CHECK(P, r == 0, "the device cannot be created: %d", r);
        if (r == 0) {
            int nb = (int) w_rnd(8);
            for (int i = 0; i < nb; i++) {
                size_t k = w_chance(15) ? max + 1 + w_rnd(3) : w_chance(10) ? 0 : w_chance(30) ? max : 1 + w_rnd(max);
                float complex *b = malloc((k + 1) * 8); if (!b) break;
                for (size_t j = 0; j < k; j++) b[j] = (float) (w_unit() * 2 - 1) + I * (float) (w_unit() * 2 - 1);
                if (k <= max && sent + k < NM) memcpy(Y + sent, b, k * 8);
                int c = dev->sdr_process_tx(b, k, dev->plugin);
                if (k > max) P_CHECK(P, c != 0, "a block of %zu for a maximum of %u is accepted", k, max); else { P_CHECK(P, c == 0, "a block of %zu is refused: %d", k, c); sent += k; }
                free(b);
            }
            float complex *o2; size_t on2; int c = dev->sdr_process_rx(&o2, &on2, dev->plugin);
            P_CHECK(P, c == -1 && on2 == 0, "reading without a file gives %d, %zu", c, on2);
            dev->stop_rx(dev->plugin); dev->destroy(dev->plugin); free(dev);
            P_CHECK(P, nopen == 0, "a file is left open");
            static float complex Z[NM + 2]; f = __real_fopen(tx, "rb"); size_t z = fread(Z, 1, sizeof Z, f); __real_fclose(f);
            P_CHECK(P, z == sent * 8, "the file has %zu bytes after %zu samples", z, sent);
            if (z == sent * 8) shifted("transmitted", Z, 0, sent, Y, off, fs);
        }
    } else {
        r = file_source_create(8, rx, NULL, fs, off, max, &dev);
        if (r == 0) { float complex b[1] = {1}; P_CHECK(P, dev->sdr_process_tx(b, 1, dev->plugin) != 0, "transmission without a file succeeds"); dev->destroy(dev->plugin); free(dev); P_CHECK(P, nopen == 0, "a file is left open"); }
    }
    sc_on = 0;
    P_CHECK(P, w_acct_end() == 0, "%d allocations are never released", w_nlive);
}
