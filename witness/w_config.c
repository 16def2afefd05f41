// SRC: src/server_config.c
// WRAP: malloc free calloc
/* configuration files in a scratch directory; libiio behind a stand-in */
#define W_MALLOC
#include "w.h"
#include "server_config.h"
#define P "C20"
#define PA "C20,C26"
void *__real_volk_malloc(size_t n, size_t al) { return 0; }
void __real_volk_free(void *p) {}
static char path[300]; static int iiolive, iiofail, iiomade;
int iio_lib_create(iio_lib **l) { if (iiofail) return -1; iiomade++; iiolive++; *l = (iio_lib *) 0x7770; return 0; }
void iio_lib_destroy(iio_lib *l) { P_CHECK(PA, l == (iio_lib *) 0x7770 && iiolive == 1, "the iio library is released %d times", 2 - iiolive); iiolive--; }
static void w_init_once(void) { const char *s = getenv("W_SCRATCH"); snprintf(path, sizeof path, "%s/t.conf", s ? s : "."); }
static FILE *F; static char *order[32]; static int no;
static void line(const char *fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (no < 32) order[no++] = strdup(b); }
static const char *pick(char *b, size_t n) {
    static const char *v[] = {"127.0.0.1", "0.0.0.0", "", "/tmp/", "x", "localhost", "plutosdr ", "file", "/a/very/long/path/with/many/parts/"};
    snprintf(b, n, "%s", v[w_rnd(9)]); if (w_chance(20)) { size_t k = w_rnd(n - 1); memset(b, 'a' + (int) w_rnd(26), k); b[k] = 0; } return b;
}
/* a string setting: 0 absent, 1 present, 2 of another type */
static int str(const char *name, char *out, size_t n) {
    int k = w_chance(45) ? 0 : w_chance(4) ? 2 : 1;
    if (k == 1) line("%s = \"%s\";", name, pick(out, n)); else if (k == 2) { static const char *bad[] = {"5", "1.5", "true", "[1,2]", "{}"}; line("%s = %s;", name, bad[w_rnd(5)]); }
    return k;
}
static int num(const char *name, long *v, long lo, long hi) { if (w_chance(45)) return 0; *v = w_chance(20) ? lo : w_chance(20) ? hi : lo + (long) w_rnd((uint64_t) (hi - lo + 1)); if (w_chance(10)) line("%s=0x%lX", name, (unsigned long) *v); else line("%s = %ld", name, *v); return 1; }
static int gain(const char *name, double *v) { if (w_chance(40)) return 0; if (w_chance(40)) { long k = (long) w_range(-90, 90); *v = (double) k; line("%s=%ld", name, k); } else { *v = (double) w_range(-9000, 9000) / 64; line("%s = %.6f", name, *v); } return 1; }
static int eq(const char *a, const char *b) { return a && !strcmp(a, b); }
void w_case(uint64_t n) {
    no = 0; char tmp[64]; const char *tmpdir = "/tmp"; if (w_chance(50)) { snprintf(tmp, sizeof tmp, "/t%u/x", (unsigned) w_rnd(1000)); setenv("TMPDIR", tmp, 1); tmpdir = tmp; } else unsetenv("TMPDIR");
    char bind[200], base[200], addr[200], rxf[200], txf[200];
    int kb = str("bind_address", bind, sizeof bind), kbase = str("base_path", base, sizeof base), kaddr = str("rx_sdr_server_address", addr, sizeof addr), krxf = str("rx_file_base_path", rxf, sizeof rxf), ktxf = str("tx_file_base_path", txf, sizeof txf);
    long port = 8091, buf = 262144, to = 5, q = 64, sp = 8090, pm = 10000; double tg = 0, rg = 0;
    num("port", &port, 1, 65535); num("buffer_size", &buf, 1, 2147483647); if (num("read_timeout_seconds", &to, w_chance(15) ? -5 : 1, w_chance(50) ? 100 : 2147483647)) {} num("queue_size", &q, 1, 65535); num("rx_sdr_server_port", &sp, 1, 65535); num("tx_plutosdr_timeout_millis", &pm, 1, 2147483647); gain("tx_plutosdr_gain", &tg); gain("rx_plutosdr_gain", &rg);
    static const char *rt[] = {"sdr-server", "plutosdr", "file"}, *tt[] = {"none", "plutosdr", "file"}, *bad[] = {"\"\"", "\"sdr\"", "\"plutosdr2\"", "\"PLUTOSDR\"", "7", "true", "\"pluto\"", "1.25"};
    int r = 0, t = 0, badrx = 0, badtx = 0;
    if (w_chance(70)) { if (w_chance(6)) { badrx = 1; line("rx_sdr_type = %s", bad[w_rnd(8)]); } else { r = (int) w_rnd(3); line("rx_sdr_type = \"%s\"", rt[r]); } }
    if (w_chance(70)) { if (w_chance(6)) { badtx = 1; line("tx_sdr_type = %s", bad[w_rnd(8)]); } else { t = (int) w_rnd(3); line("tx_sdr_type = \"%s\"", tt[t]); } }
    int syntax = w_chance(3), absent = w_chance(3); if (syntax) { static const char *sx[] = {"port = ", "}", "port 5"}; line("%s", sx[w_rnd(3)]); }
    if (w_chance(20)) line("unknown_setting = 5"); if (w_chance(20)) line("# a comment");
    F = fopen(path, "w"); if (!F) return;
    for (int i = no - 1; i > 0; i--) { int j = (int) w_rnd((uint64_t) i + 1); char *x = order[i]; order[i] = order[j]; order[j] = x; }
    for (int i = 0; i < no; i++) { fprintf(F, "%s\n", order[i]); w_note("%s | ", order[i]); (free)(order[i]); } fclose(F);
    iiofail = w_chance(8); iiolive = iiomade = 0; int nomem = w_chance(15) ? (int) w_rnd(7) : -1; w_note("failat %d iiofail %d", nomem, iiofail);
    struct server_config *c = (struct server_config *) 5;
    w_acct_begin(nomem);
    int code = server_config_create(&c, absent ? "/nonexistent/x.conf" : path);
    int oom = nomem >= 0 && w_nalloc > nomem, pluto = r == 1 || t == 1;
    int must = syntax || absent || badrx || badtx || to <= 0 || kb == 2 || kbase == 2 || (kaddr == 2 && r == 0) || krxf == 2 || ktxf == 2 || (pluto && iiofail);
    if (code != 0) {
        P_CHECK(P, must || oom, "the configuration is refused: %d", code);
        P_CHECK(PA, w_acct_end() == 0 && iiolive == 0, "a refused configuration leaves %d allocations and %d libraries", w_nlive, iiolive);
        return;
    }
    P_CHECK(PA, !oom, "a configuration is created although there was no memory"); P_CHECK(P, !must, "an invalid configuration is accepted"); if (oom || must) return;
    P_CHECK(P, eq(c->bind_address, kb ? bind : "127.0.0.1"), "bind address is %s", c->bind_address); P_CHECK(P, c->port == port, "port is %d", c->port); P_CHECK(P, c->buffer_size == buf, "buffer size is %u", c->buffer_size);
    P_CHECK(P, c->read_timeout_seconds == to, "read timeout is %d", c->read_timeout_seconds); P_CHECK(P, c->queue_size == q, "queue size is %d", c->queue_size); P_CHECK(P, eq(c->base_path, kbase ? base : tmpdir), "base path is %s", c->base_path);
    P_CHECK(P, c->rx_sdr_type == (r == 0 ? RX_SDR_TYPE_SDR_SERVER : r == 1 ? RX_SDR_TYPE_PLUTOSDR : RX_SDR_TYPE_FILE), "rx type is %d", c->rx_sdr_type); P_CHECK(P, c->tx_sdr_type == (t == 0 ? TX_SDR_TYPE_NONE : t == 1 ? TX_SDR_TYPE_PLUTOSDR : TX_SDR_TYPE_FILE), "tx type is %d", c->tx_sdr_type);
    if (r == 0) { P_CHECK(P, eq(c->rx_sdr_server_address, kaddr ? addr : "127.0.0.1"), "sdr server address is %s", c->rx_sdr_server_address); P_CHECK(P, c->rx_sdr_server_port == sp, "sdr server port is %d", c->rx_sdr_server_port); }
    P_CHECK(P, eq(c->rx_file_base_path, krxf ? rxf : tmpdir), "rx file path is %s", c->rx_file_base_path); P_CHECK(P, eq(c->tx_file_base_path, ktxf ? txf : tmpdir), "tx file path is %s", c->tx_file_base_path);
    P_CHECK(P, c->tx_plutosdr_gain == tg, "tx gain is %g instead of %g", c->tx_plutosdr_gain, tg); P_CHECK(P, c->rx_plutosdr_gain == rg, "rx gain is %g instead of %g", c->rx_plutosdr_gain, rg); P_CHECK(P, c->tx_plutosdr_timeout_millis == pm, "pluto timeout is %u", c->tx_plutosdr_timeout_millis);
    P_CHECK(P, pluto ? c->iio != NULL && iiomade == 1 : iiomade == 0 || c->iio != NULL, "the iio library is %s", iiomade ? "loaded" : "not loaded"); P_CHECK(P, !pluto || c->iio == (iio_lib *) 0x7770, "iio");
    server_config_destroy(c);
    P_CHECK(PA, w_acct_end() == 0 && iiolive == 0, "%d allocations and %d libraries are not released", w_nlive, iiolive);
}
