// SRC: src/dsp/doppler.c src/dsp/sig_source.c src/sgpsdp/sgp_in.c src/sgpsdp/sgp_math.c src/sgpsdp/sgp_obs.c src/sgpsdp/sgp_time.c src/sgpsdp/sgp4sdp4.c src/sgpsdp/solar.c
// WRAP: malloc free calloc volk_malloc volk_free SGP4 SDP4 Convert_Sat_State Calculate_Obs UTC_Calendar_Now
/* doppler correction with a scripted satellite, orbital elements, and the calendar */
#define W_MALLOC
#include "w.h"
#include <math.h>
#include <complex.h>
#include <time.h>
#include "sgpsdp/sgp4sdp4.h"
#include "dsp/doppler.h"
static int fake, stage, isdeep, calls; static double A, P, JD0, LAT, LON, ALT, EPOCH; static time_t now;
static double rr(double jd) { return A * sin(2 * M_PI * (jd - JD0) * 86400.0 / P + 0.3); }
void __real_SGP4(sat_t *s, double t); void __real_SDP4(sat_t *s, double t); void __real_Convert_Sat_State(vector_t *p, vector_t *v); void __real_Calculate_Obs(double t, vector_t *p, vector_t *v, geodetic_t *g, obs_set_t *o); void __real_UTC_Calendar_Now(struct tm *t);
static void prop(sat_t *s, double t, int deep) {
    P_CHECK("C17", deep == isdeep, "the %s propagator for this orbit", deep ? "deep space" : "near earth");
    P_CHECK("C17", fabs(t - (s->jul_utc - EPOCH) * 1440) < 1e-4, "propagated by %f minutes instead of %f", t, (s->jul_utc - EPOCH) * 1440);
    stage = 1;
}
void __wrap_SGP4(sat_t *s, double t) { if (!fake) { __real_SGP4(s, t); return; } prop(s, t, 0); }
void __wrap_SDP4(sat_t *s, double t) { if (!fake) { __real_SDP4(s, t); return; } prop(s, t, 1); }
void __wrap_Convert_Sat_State(vector_t *p, vector_t *v) { if (!fake) { __real_Convert_Sat_State(p, v); return; } P_CHECK("C17", stage == 1, "unit conversion before propagation"); stage = 2; }
void __wrap_Calculate_Obs(double t, vector_t *p, vector_t *v, geodetic_t *g, obs_set_t *o) {
    if (!fake) { __real_Calculate_Obs(t, p, v, g, o); return; }
    P_CHECK("C17", stage == 2, "observation before propagation"); stage = 0;
    P_CHECK("C17", fabs(t - (JD0 + calls / 86400.0)) < 2e-8 + calls * 2e-9, "observation %d at %f instead of %f", calls, t, JD0 + calls / 86400.0);
    P_CHECK("C17", fabs(g->lat - LAT * M_PI / 180) < 1e-6 && fabs(g->lon - LON * M_PI / 180) < 1e-6 && g->alt == ALT, "another ground station");
    calls++;
    o->range_rate = rr(t); o->az = o->el = o->range = 0;
}
void __wrap_UTC_Calendar_Now(struct tm *t) { if (!fake) { __real_UTC_Calendar_Now(t); return; } *t = *gmtime(&now); t->tm_year += 1900; t->tm_mon += 1; }
static void w_init_once(void) { setenv("TZ", w_from & 1 ? "Asia/Tokyo" : "America/New_York", 1); tzset(); }
static double jd_of(time_t t) { return 2440587.5 + (double) t / 86400.0; }
/* ------------------------------------------------------------------ elements */
struct el { int sat, sat2, yy, elset, rev, ecc, ndot, ndd, ndde, bs, bse; char cls, intl[9], s1, s2, s3, e2, e3; double day, incl, raan, argp, ma, mm; };
static void ck(char *l) { int s = 0; for (int i = 0; i < 68; i++) s += l[i] >= '0' && l[i] <= '9' ? l[i] - '0' : l[i] == '-'; l[68] = (char) ('0' + s % 10); l[69] = 0; }
static void gen(char tle[3][80], struct el *e, int pad) {
    memset(tle, 0, 240);
    e->sat = (int) w_rnd(100000); e->cls = "USC"[w_rnd(3)]; for (int i = 0; i < 8; i++) e->intl[i] = (char) ('A' + w_rnd(26)); e->intl[8] = 0;
    e->yy = (int) w_rnd(100); e->day = 1 + (double) w_rnd(36600000000ull) / 1e8; if (e->day > 366.99) e->day = 366.5; if (pad) e->day = 1 + w_unit() * 80;
    e->s1 = w_rnd(2) ? '-' : ' '; e->ndot = (int) w_rnd(100000000); e->s2 = w_rnd(2) ? '-' : ' '; e->ndd = (int) w_rnd(100000); e->e2 = w_rnd(2) ? '-' : '+'; e->ndde = (int) w_rnd(9);
    e->s3 = w_rnd(2) ? '-' : ' '; e->bs = (int) w_rnd(100000); e->e3 = w_rnd(2) ? '-' : '+'; e->bse = (int) w_rnd(9); e->elset = (int) w_rnd(10000);
    e->incl = (double) w_rnd(1800000) / 1e4; e->raan = (double) w_rnd(3600000) / 1e4; e->ecc = (int) w_rnd(w_chance(20) ? 20 : 9000000); e->argp = (double) w_rnd(3600000) / 1e4; e->ma = (double) w_rnd(3600000) / 1e4; e->mm = (double) (w_range(100000000, 1700000000)) / 1e8; e->rev = (int) w_rnd(100000);
    char d[40]; snprintf(d, sizeof d, pad ? "%12.8f" : "%012.8f", e->day);
    snprintf(tle[1], 80, "1 %05d%c %s %02d%s %c.%08d %c%05d%c%d %c%05d%c%d 0 %4d", e->sat, e->cls, e->intl, e->yy, d, e->s1, e->ndot, e->s2, e->ndd, e->e2, e->ndde, e->s3, e->bs, e->e3, e->bse, e->elset);
    snprintf(tle[2], 80, "2 %05d %8.4f %8.4f %07d %8.4f %8.4f %11.8f%5d", e->sat, e->incl, e->raan, e->ecc, e->argp, e->ma, e->mm, e->rev);
    ck(tle[1]); ck(tle[2]);
    strcpy(tle[0], "LUCKY-7");
}
static int good(char t[3][80]) {
    char *l[2] = {t[1], t[2]};
    if (strnlen(l[0], 80) < 69 || strnlen(l[1], 80) < 69) return 0;         /* the text ends earlier */
    for (int k = 0; k < 2; k++) { int s = 0; for (int i = 0; i < 68; i++) { unsigned char c = (unsigned char) l[k][i]; s += c >= '0' && c <= '9' ? c - '0' : c == '-'; } if (l[k][68] != '0' + s % 10) return 0; if (l[k][0] != '1' + k) return 0; }
    if (memcmp(l[0] + 2, l[1] + 2, 5)) return 0;
    return l[0][23] == '.' && l[0][34] == '.' && l[1][11] == '.' && l[1][20] == '.' && l[1][37] == '.' && l[1][46] == '.' && l[1][54] == '.' && l[0][61] == ' ' && l[0][62] == '0' && l[0][63] == ' ';
}
#define NEAR(a, b, t) (fabs((double) (a) - (double) (b)) <= (t))
static void c_tle(void) {
    char t[3][80]; struct el e; gen(t, &e, w_chance(15));
    int mut = (int) w_rnd(4);
    for (int i = 0; i < mut && w_chance(50); i++) {
        int l = (int) w_range(1, 2);
        switch (w_rnd(6)) { case 0: t[l][w_rnd(69)] = (char) w_range(32, 126); break; case 1: t[l][w_rnd(69)] = (char) w_range('0', '9'); break; case 2: t[l][w_rnd(69)] = ' '; break; case 3: { char x[80]; memcpy(x, t[1], 80); memcpy(t[1], t[2], 80); memcpy(t[2], x, 80); break; } case 4: { int a = (int) w_rnd(68); char x = t[l][a]; t[l][a] = t[l][a + 1]; t[l][a + 1] = x; break; } default: { size_t k = w_rnd(69); memset(t[l] + k, 0, 80 - k); } }
        if (w_chance(60) && strlen(t[l]) == 69) ck(t[l]);
    }
    int plain = w_chance(60); char nm[40]; memset(t[0], 0, 80);
    size_t nl = plain ? 2 + w_rnd(23) : w_rnd(80); for (size_t i = 0; i < nl; i++) t[0][i] = (char) (plain ? "ABCDEFGHIJ-0123456789&"[w_rnd(22)] : w_chance(40) ? "[]+-PBSX \r\n&"[w_rnd(12)] : (char) w_range(33, 126));
    for (int i = 0; i < 3; i++) w_note("|%s|\n", t[i]);
    tle_t *r = malloc(sizeof *r); memset(r, 0x5a, sizeof *r);
    int ok = good(t), c = Get_Next_Tle_Set(t, r);
    P_CHECK("C21", (c == 1) == ok && c != 0, "elements %s, but the answer is %d", ok ? "are good" : "are not good", c);
    P_CHECK("C21", memchr(r->sat_name, 0, 25) != NULL, "the satellite name has no end");
    if (plain) { for (size_t i = 0; i <= nl; i++) nm[i] = t[0][i] == '&' ? '/' : t[0][i]; P_CHECK("C21", !strcmp(nm, r->sat_name), "the satellite is named %s", r->sat_name); }
    if (c == 1 && mut == 0) {
        double fl = floor(e.day);
        P_CHECK("C21", r->catnr == e.sat && !strcmp(r->idesg, e.intl) && r->elset == e.elset && r->revnum == e.rev, "catalogue number %d, designator %s, set %d, revolution %d", r->catnr, r->idesg, r->elset, r->revnum);
        P_CHECK("C21", NEAR(r->epoch, e.yy * 1000 + e.day, 2e-8) && r->epoch_year == (unsigned) e.yy + 2000 && NEAR(r->epoch_day, fl, 0) && NEAR(r->epoch_fod, e.day - fl, 2e-8), "epoch %f year %u day %u fraction %f", r->epoch, r->epoch_year, r->epoch_day, r->epoch_fod);
        P_CHECK("C21", NEAR(r->xndt2o, (e.s1 == '-' ? -1 : 1) * e.ndot * 1e-8, 1e-12) && NEAR(r->xndd6o, (e.s2 == '-' ? -1 : 1) * e.ndd * 1e-5 * pow(10, e.e2 == '-' ? -e.ndde : e.ndde), 1e-9 * pow(10, e.e2 == '-' ? 0 : e.ndde)), "mean motion derivatives %g %g", r->xndt2o, r->xndd6o);
        P_CHECK("C21", NEAR(r->bstar, (e.s3 == '-' ? -1 : 1) * e.bs * 1e-5 * pow(10, e.e3 == '-' ? -e.bse : e.bse), 1e-9 * pow(10, e.e3 == '-' ? 0 : e.bse)), "bstar %g", r->bstar);
        P_CHECK("C21", NEAR(r->xincl, e.incl, 1e-9) && NEAR(r->xnodeo, e.raan, 1e-9) && NEAR(r->eo, fmax(e.ecc * 1e-7, 1e-6), 1e-12) && NEAR(r->omegao, e.argp, 1e-9) && NEAR(r->xmo, e.ma, 1e-9) && NEAR(r->xno, e.mm, 1.1e-7), "orbit %f %f %f %f %f %f", r->xincl, r->xnodeo, r->eo, r->omegao, r->xmo, r->xno);
        sat_t *s = calloc(1, sizeof *s); s->tle = *r; select_ephemeris(s);
        double per = 1440 / e.mm;
        if (fabs(per - 225) > 3) P_CHECK("C21", !!(s->flags & DEEP_SPACE_EPHEM_FLAG) == (per > 225), "a period of %f minutes is%s deep space", per, s->flags & DEEP_SPACE_EPHEM_FLAG ? "" : " not");
        free(s);
    }
    free(r);
}
/* ------------------------------------------------------------------ calendar */
static void c_cal(void) {
    time_t t = (time_t) w_range(-410227200, 2745532799ll);         /* 1957 .. 2056 */
    switch (w_rnd(5)) { case 0: t -= t % 86400; break; case 1: t -= t % 86400 - 86399; break; case 2: { struct tm x = {0}; x.tm_year = (int) w_range(57, 156); x.tm_mon = w_rnd(2) ? 0 : (int) w_rnd(12); x.tm_mday = w_rnd(2) ? 1 : (int) w_range(28, 31); t = timegm(&x) - (time_t) w_rnd(2); break; } default: ; }
    if (t < -410227200 || t > 2745532799ll) t = 0;
    struct tm g; gmtime_r(&t, &g); int yd = g.tm_yday + 1; struct tm c = g; c.tm_year += 1900; c.tm_mon += 1;
    w_note("%04d-%02d-%02d %02d:%02d:%02d ", c.tm_year, c.tm_mon, c.tm_mday, c.tm_hour, c.tm_min, c.tm_sec);
    double jd = Julian_Date(&c);
    P_CHECK("C22", fabs(jd - jd_of(t)) < 2e-9, "julian date %.9f instead of %.9f", jd, jd_of(t));
    P_CHECK("C22", DOY(c.tm_year, c.tm_mon, c.tm_mday) == yd, "day %d of the year instead of %d", DOY(c.tm_year, c.tm_mon, c.tm_mday), yd);
    P_CHECK("C22", fabs(Fraction_of_Day(c.tm_hour, c.tm_min, c.tm_sec) - (c.tm_hour * 3600 + c.tm_min * 60 + c.tm_sec) / 86400.0) < 1e-12, "fraction of the day");
    struct tm y = {0}; y.tm_year = g.tm_year; y.tm_mday = 1; double j0 = jd_of(timegm(&y)) - 1;
    P_CHECK("C22", fabs(Julian_Date_of_Year(c.tm_year) - j0) < 1e-9, "year %d starts at %f instead of %f", c.tm_year, Julian_Date_of_Year(c.tm_year), j0);
    double ep = (c.tm_year % 100) * 1000 + yd + (c.tm_hour * 3600 + c.tm_min * 60 + c.tm_sec) / 86400.0;
    P_CHECK("C22", fabs(Julian_Date_of_Epoch(ep) - jd_of(t)) < 1e-7, "epoch %f is %f instead of %f", ep, Julian_Date_of_Epoch(ep), jd_of(t));
    struct tm b; memset(&b, 0x11, sizeof b); Time_of_Day(jd, &b);
    P_CHECK("C22", b.tm_hour == c.tm_hour && b.tm_min == c.tm_min && b.tm_sec == c.tm_sec, "time of day %02d:%02d:%02d", b.tm_hour, b.tm_min, b.tm_sec);
    Calendar_Date(jd, &b);
    P_CHECK("C22", b.tm_year == c.tm_year && b.tm_mon == c.tm_mon && b.tm_mday == c.tm_mday, "calendar date %d-%d-%d", b.tm_year, b.tm_mon, b.tm_mday);
    P_CHECK("C22", fabs(Epoch_Time(jd) - ep) < 1e-6, "epoch %f instead of %f", Epoch_Time(jd), ep);
    if (t < 0) { b = g; } else Date_Time(jd + 1e-6, &b);
    P_CHECK("C22", b.tm_year == g.tm_year && b.tm_yday == g.tm_yday && b.tm_hour == g.tm_hour && b.tm_min == g.tm_min && b.tm_sec == g.tm_sec, "date and time");
    struct tm n1; time_t a = time(NULL); UTC_Calendar_Now(&n1); time_t z = time(NULL); n1.tm_year -= 1900; n1.tm_mon -= 1; time_t m = timegm(&n1);
    P_CHECK("C22", m >= a && m <= z, "now is %lld instead of %lld", (long long) m, (long long) a);
}
/* ------------------------------------------------------------------ doppler */
static float complex in[24000], out[24000];
static void c_dop(void) {
    char t[3][80]; struct el e; gen(t, &e, 0); if (e.mm * 225 / 1440 > 0.97 && e.mm * 225 / 1440 < 1.03) return;
    isdeep = 1440 / e.mm > 225;
    uint64_t fs = (uint64_t) w_range(200, 4000), fc = (uint64_t) w_range(1000000, 500000000); int dir = w_rnd(2) ? 1 : -1; size_t max = (size_t) w_size(1, (int64_t) fs * 3);
    if (max > 12000) max = 12000;
    A = w_unit() * 8; double lim = 0.2 * (double) fs; if ((double) fc * A / 299792.458 > lim) A = lim * 299792.458 / (double) fc; P = 20 + w_unit() * 500;
    int64_t off = w_chance(50) ? 0 : w_range(-(int64_t) fs / 5, (int64_t) fs / 5);
    if (w_chance(6)) { A = 0; off = 0; }
    LAT = w_unit() * 180 - 90; LON = w_unit() * 360 - 180; ALT = w_unit() * 5;
    time_t st = w_chance(30) ? 0 : (time_t) w_range(315532800, 2500000000ll); now = (time_t) w_range(1000000000, 2000000000);
    JD0 = jd_of(st ? st : now); EPOCH = jd_of(0);
    { struct tm y = {0}; y.tm_year = e.yy < 57 ? 100 + e.yy : e.yy; y.tm_mday = 1; EPOCH = jd_of(timegm(&y)) - 1 + e.day; }
    w_note("doppler sampling=%llu center=%llu offset=%lld direction=%d start=%lld max=%zu range rate=%g*sin(2pi t/%g) ", (unsigned long long) fs, (unsigned long long) fc, (long long) off, dir, (long long) st, max, A, P);
    doppler *d = NULL; fake = 1; calls = 0; stage = 0;
    P_CHECK("C17", doppler_create(LAT, LON, ALT, fs, fc, off, st, (uint32_t) max, t, &d) == 0, "cannot be created");
    size_t total = (size_t) (fs * (1 + w_rnd(4))) + w_rnd(fs), pos = 0, big = 0; if (total > 20000) total = 20000;
    int small = w_chance(50);
    while (pos < total) {
        if (w_chance(3)) { float complex *o = (void *) 1; size_t on = 7; int c0 = calls; if (w_chance(50)) { float complex *b = calloc(max + 1, 8); (dir > 0 ? doppler_process_rx : doppler_process_tx)(b, max + 1, &o, &on, d); free(b); } else (dir > 0 ? doppler_process_rx : doppler_process_tx)(in, 0, &o, &on, d); P_CHECK("C17", on == 0 && o == NULL && calls == c0, "an empty or too long block is processed"); continue; }
        size_t k = small ? 1 + w_rnd(max < 40 ? max : 40) : w_chance(40) ? max : 1 + w_rnd(max); if (k > total - pos) k = total - pos; if (k > big) big = k;
        if (w_desclen < 1500) w_note("%zu ", k);
        float complex *b = malloc(k * 8), *o = NULL; size_t on = 0;
        for (size_t i = 0; i < k; i++) b[i] = in[pos + i] = (float complex) cexp(I * (double) w_rnd(1000));
        (dir > 0 ? doppler_process_rx : doppler_process_tx)(b, k, &o, &on, d);
        P_CHECK("C17", on == k, "%zu samples for %zu", on, k); if (on != k) break;
        memcpy(out + pos, o, k * 8); pos += k; free(b);
    }
    P_CHECK("C17", calls == (int) ((pos + fs - 1) / fs) + 1, "%d orbit calculations for %zu samples", calls, pos);
    for (size_t n = 1; n < pos; n++) {
        double complex z1 = out[n] / in[n], z0 = out[n - 1] / in[n - 1]; size_t m = n - 1, k = m / fs, o = m % fs;
        double f = carg(z1 * conj(z0)) * (double) fs / (2 * M_PI), f0 = dir * (double) fc * rr(JD0 + (double) k / 86400) / 299792.458 + (double) off, f1 = dir * (double) fc * rr(JD0 + (double) (k + 1) / 86400) / 299792.458 + (double) off;
        double slope = (f1 - f0) / (double) fs, want = f0 + slope * (double) o, tol = fabs(slope) * 2 * (double) big + 1.1 + (double) fs * 1e-5 + (double) fc * 1e-8;
        if (!(fabs(f - want) <= tol && fabs(cabs(z1) - 1) < 1e-4)) P_CHECK("C17", 0, "sample %zu is shifted by %f Hz (amplitude %f) instead of %f (tolerance %f)", m, f, cabs(z1), want, tol);
    }
    doppler_destroy(d);
    if (w_chance(20)) { t[1][10 + w_rnd(50)] = '%'; ck(t[2]); d = NULL; if (!good(t)) P_CHECK("C17,C21", doppler_create(LAT, LON, ALT, fs, fc, off, st, (uint32_t) max, t, &d) != 0, "invalid elements are accepted"); else if (!doppler_create(LAT, LON, ALT, fs, fc, off, st, (uint32_t) max, t, &d)) doppler_destroy(d); }
    fake = 0;
}
void w_case(uint64_t n) {
    int k = (int) w_rnd(3); if (w_prop && !strcmp(w_prop, "C17")) k = 2; else if (w_prop && !strcmp(w_prop, "C21")) k = w_chance(95) ? 0 : 2; else if (w_prop && !strcmp(w_prop, "C22")) k = 1;
    w_acct_begin(-1);
    if (k == 0) c_tle(); else if (k == 1) c_cal(); else c_dop();
    fake = 0;
    int l = w_acct_end();
    P_CHECK("C17,C21,C22", l == 0, "%d allocations leaked", l);
}
