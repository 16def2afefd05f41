/* Bounded witness search: shared driver. A case is a deterministic function of (seed, case number).
 * Usage: prog [--seed S] [--secs T] [--max N] [--from N --stride K] [--case N]
 * Exit 0: nothing found. Exit 1: "FAIL ..." was printed, `--seed S --case N` replays it. */
#ifndef W_H
#define W_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <time.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>

static uint64_t w_seed = 1, w_cur = 0, w_x = 1, w_from = 0;
static unsigned w_case_secs = 10;
static FILE *w_out; static const char *w_prop;
static char w_desc[8192];
static size_t w_desclen;
void w_case(uint64_t n);
void __sanitizer_set_death_callback(void (*cb)(void));

static inline uint64_t w_next(void) {
    uint64_t z = (w_x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t w_rnd(uint64_t n) { return n ? w_next() % n : 0; }
static inline int64_t w_range(int64_t lo, int64_t hi) { return lo + (int64_t) w_rnd((uint64_t) (hi - lo + 1)); }
static inline int w_chance(int pct) { return (int) w_rnd(100) < pct; }
static inline double w_unit(void) { return (double) (w_next() >> 11) / 9007199254740992.0; }

/* integer literals of the sources under test: sizes and thresholds a change may depend on */
static int64_t w_dict[4096];
static int w_ndict;
static inline void w_load_dict(void) {
    const char *p = getenv("W_DICT");
    FILE *f = p ? fopen(p, "r") : NULL;
    if (!f) return;
    long long v;
    while (w_ndict < 4096 && fscanf(f, "%lld", &v) == 1) w_dict[w_ndict++] = v;
    fclose(f);
}
/* a size in [lo,hi]: small, near a literal of the source, a power of two, or anything */
static inline int64_t w_size(int64_t lo, int64_t hi) {
    int64_t v;
    switch (w_rnd(6)) {
        case 0: case 1: v = lo + (int64_t) w_rnd(hi - lo + 1 < 9 ? hi - lo + 1 : 9); break;
        case 2: if (w_ndict) { v = w_dict[w_rnd(w_ndict)] + w_range(-1, 1); break; } /* fallthrough */
        case 3: v = ((int64_t) 1 << w_rnd(32)) + w_range(-1, 1); break;
        case 4: v = hi - (int64_t) w_rnd(4); break;
        default: v = w_range(lo, hi);
    }
    if (v < lo || v > hi) v = w_range(lo, hi);
    return v;
}
static inline void w_note(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (w_desclen < sizeof(w_desc) - 1) {
        int k = vsnprintf(w_desc + w_desclen, sizeof(w_desc) - w_desclen, fmt, ap);
        if (k > 0) w_desclen += (size_t) k;
        if (w_desclen > sizeof(w_desc) - 1) w_desclen = sizeof(w_desc) - 1;
    }
    va_end(ap);
}
static void w_where(void) {
    char b[9000];
    int k = snprintf(b, sizeof b, "\nFAIL seed=%llu case=%llu input: %s\n", (unsigned long long) w_seed, (unsigned long long) w_cur, w_desc);
    if (k > (int) sizeof b - 1) k = sizeof b - 1;
    if (syscall(SYS_write, 1, b, (size_t) k) < 0) {}
}
#define W_FAIL(...) do { fprintf(w_out, "\nWHY: "); fprintf(w_out, __VA_ARGS__); fprintf(w_out, "\n"); fflush(w_out); w_where(); _exit(1); } while (0)
#define W_CHECK(c, ...) do { if (!(c)) W_FAIL(__VA_ARGS__); } while (0)
/* a check that belongs to one property: silent when another property is being decided */
#define P_CHECK(p, c, ...) do { if (!(c) && (!w_prop || strstr(p, w_prop))) W_FAIL(__VA_ARGS__); } while (0)
static void w_sig(int s) {
    const char *m = s == SIGALRM ? "\nWHY: no progress (the call does not return)\n" : s == SIGFPE ? "\nWHY: arithmetic fault (SIGFPE)\n" : s == SIGILL || s == SIGTRAP ? "\nWHY: undefined behaviour (overflow, bounds, shift, alignment or null)\n" : s == SIGABRT ? "\nWHY: abort\n" : "\nWHY: invalid memory access\n";
    if (syscall(SYS_write, 1, m, strlen(m)) < 0) {}
    w_where();
    _exit(1);
}
static void w_death(void) {
    const char *m = "\nWHY: memory or arithmetic error reported by the sanitizer (see stderr)\n";
    if (syscall(SYS_write, 1, m, strlen(m)) < 0) {}
    w_where();
}
static void w_init_once(void);
int main(int argc, char **argv) {
    double secs = 5; uint64_t from = 0, stride = 1, max = UINT64_MAX, one = UINT64_MAX;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--seed")) w_seed = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--secs")) secs = atof(argv[i + 1]);
        else if (!strcmp(argv[i], "--max")) max = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--from")) from = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--stride")) stride = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--case")) one = strtoull(argv[i + 1], 0, 10);
    }
    if (!freopen("/dev/null", "w", stderr) && 0) return 2;
    if (getenv("W_STDERR")) { if (!freopen(getenv("W_STDERR"), "a", stderr)) return 2; }
    /* what the code under test prints is dropped; the sanitizer and the driver keep their descriptors */
    w_out = fdopen(dup(1), "w");
    { FILE *z = fopen("/dev/null", "w"); if (z) { stdout = z; stderr = z; } }
    w_prop = getenv("W_PROP");
    signal(SIGALRM, w_sig); signal(SIGPIPE, SIG_IGN);
    signal(SIGFPE, w_sig); signal(SIGILL, w_sig); signal(SIGTRAP, w_sig); signal(SIGABRT, w_sig);
    __sanitizer_set_death_callback(w_death);
    w_from = one != UINT64_MAX ? one : from;
    w_load_dict();
    w_init_once();
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t done = 0;
    if (one != UINT64_MAX) { from = one; max = 1; stride = 1; secs = 1e9; }
    for (uint64_t n = from; done < max; n += stride, done++) {
        w_cur = n; w_x = w_seed * 0x2545f4914f6cdd1dull + n * 0x9e3779b97f4a7c15ull; w_next();
        w_desclen = 0; w_desc[0] = 0;
        alarm(w_case_secs);
        w_case(n);
        clock_gettime(CLOCK_MONOTONIC, &t);
        if ((double) (t.tv_sec - t0.tv_sec) + (double) (t.tv_nsec - t0.tv_nsec) / 1e9 > secs) { done++; break; }
    }
    alarm(0);
    fprintf(w_out, "CASES %llu\n", (unsigned long long) done);
    fflush(w_out);
    _exit(0);
}

#ifdef W_MALLOC
/* allocation accounting and fault injection for the objects of this program (--wrap) */
void *__real_malloc(size_t n); void __real_free(void *p); void *__real_calloc(size_t a, size_t b);
void *__real_volk_malloc(size_t n, size_t al); void __real_volk_free(void *p);
static volatile int w_acct, w_failat = -1, w_nalloc; static void *w_livep[1 << 16]; static volatile int w_nlive;
static size_t w_maxalloc = (size_t) 1 << 31;
static void w_add(void *p) { if (w_acct && p) { if (w_nlive < (1 << 16)) w_livep[w_nlive++] = p; } }
static int w_del(void *p) {
    for (int i = w_nlive - 1; i >= 0; i--) if (w_livep[i] == p) { w_livep[i] = w_livep[--w_nlive]; return 1; }
    return 0;
}
static int w_deny(size_t n) { if (!w_acct) return 0; int k = w_nalloc++; return k == w_failat || n > w_maxalloc; }
void *__wrap_malloc(size_t n) { if (w_deny(n)) { errno = ENOMEM; return NULL; } void *p = __real_malloc(n); if (p && w_acct) memset(p, 0xa5, n); w_add(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (w_deny(a * b)) { errno = ENOMEM; return NULL; } void *p = __real_calloc(a, b); w_add(p); return p; }
void __wrap_free(void *p) { if (p && w_acct) w_del(p); __real_free(p); }
/* through malloc, so that the sanitizer sees the exact bounds */
void *__wrap_volk_malloc(size_t n, size_t al) { if (w_deny(n)) return NULL; void *p = NULL; if (posix_memalign(&p, al < 8 ? 8 : al, n ? n : 1)) return NULL; memset(p, 0xa5, n); w_add(p); return p; }
void __wrap_volk_free(void *p) { if (p && w_acct) w_del(p); __real_free(p); }
static void w_acct_begin(int failat) { w_nlive = 0; w_nalloc = 0; w_failat = failat; w_acct = 1; }
static int w_acct_end(void) { w_acct = 0; w_failat = -1; return w_nlive; }
#endif
#endif
