// SRC: src/queue.c
// WRAP: malloc free calloc volk_malloc volk_free pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_broadcast pthread_cond_signal
/* queue.c: producer, consumer and shutdown interleaved at every lock boundary and inside every wait, against an
 * abstract queue. One thread runs all roles; an operation of another role is executed inside a wait or between
 * two critical sections. */
#define W_MALLOC
#include "w.h"
#include <pthread.h>
#include <complex.h>
#include "queue.h"
void *__real_volk_malloc(size_t n, size_t al) { return 0; }
void __real_volk_free(void *p) {}
static void w_init_once(void) {}
enum { PUT, TAKE, COMPLETE, INTERRUPT };
static const char *nm[] = {"put", "take", "complete", "interrupt"};
struct blk { int len; float id; };
struct op { int kind, len; float id; int decided; int res; struct blk want; struct op *outer; int waiting; };
static queue *q; static int blocking, bufsize, qsize;
static struct blk fifo[4096]; static int nfifo; static int poison, held; static struct blk heldb; static float complex *heldp;
static struct op *cur; static int depth, signalled, budget, active; static float nextid; static int locked;
static void run(int kind);
/* abstract step: what the operation must do if its critical section happens now; -1: it must wait */
static int step(struct op *o) {
    int nfree = qsize - nfifo - held;
    switch (o->kind) {
        case PUT:
            if (blocking && poison) { o->res = -1; return 0; }
            if (blocking && nfree == 0) return -1;
            if (nfree == 0 && nfifo == 0) { o->res = -1; return 0; }
            if (nfree == 0) fifo[nfifo - 1] = (struct blk) {o->len, o->id}; else fifo[nfifo++] = (struct blk) {o->len, o->id};
            o->res = 0; return 0;
        case TAKE:
            if (nfifo == 0 && poison) { o->res = 0; return 0; }
            if (nfifo == 0) return -1;
            o->want = fifo[0]; memmove(fifo, fifo + 1, sizeof(fifo[0]) * (size_t) (nfifo - 1)); nfifo--; held = 1; o->res = 1; return 0;
        case COMPLETE: held = 0; heldp = NULL; o->res = 0; return 0;
        default: poison = 1; o->res = 0; return 0;
    }
}
static int in_chain(int kind) { for (struct op *o = cur; o; o = o->outer) if (o->kind == kind || ((kind == TAKE || kind == COMPLETE) && (o->kind == TAKE || o->kind == COMPLETE))) return 1; return 0; }
static void inject(int pct) {
    if (!active || depth > 2 || budget <= 0 || !w_chance(pct)) return;
    int k = (int) w_rnd(10); int kind = k < 4 ? PUT : k < 7 ? TAKE : k < 9 ? COMPLETE : INTERRUPT;
    if (kind == INTERRUPT && !w_chance(20)) return;
    if (in_chain(kind) && kind != INTERRUPT) return;       /* one producer, one consumer */
    if (kind == TAKE && (held || (nfifo == 0 && !poison))) return;
    if (kind == COMPLETE && !held) return;
    if (kind == PUT && blocking && qsize - nfifo - held == 0 && !poison) return;
    budget--;
    w_note("["); run(kind); w_note("] ");
}
int __real_pthread_mutex_lock(pthread_mutex_t *m); int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __real_pthread_cond_broadcast(pthread_cond_t *c); int __real_pthread_cond_signal(pthread_cond_t *c);
static void atlock(void) { if (cur && !cur->decided && step(cur) == 0) cur->decided = 1; else if (cur && !cur->decided) cur->waiting = 1; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active) return 0;
    inject(15);
    W_CHECK(!locked, "the lock is taken twice");
    locked = 1; atlock(); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active) return 0;
    W_CHECK(locked, "unlock without the lock");
    locked = 0; inject(15); return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { signalled = 1; return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { signalled = 1; return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    struct op *me = cur;
    W_CHECK(locked, "wait without the lock");
    W_CHECK(!me->decided, "%s waits although it could go on", nm[me->kind]);
    locked = 0; signalled = 0;
    w_note("(waits ");
    for (int i = 0; ; i++) {
        /* until woken: operations of the other role */
        int before = signalled;
        int kind = me->kind == PUT ? (held ? COMPLETE : nfifo ? TAKE : poison ? TAKE : INTERRUPT) : PUT;
        if (w_chance(10) || i > 6) kind = INTERRUPT;
        if (kind == TAKE && (held || in_chain(TAKE))) kind = INTERRUPT;
        if (w_chance(15) && i == 0) { w_note("spurious "); break; }
        run(kind);
        struct blk save[1]; struct op probe = *me; int sn = nfifo, sh = held, sp = poison; static struct blk sf[4096]; memcpy(sf, fifo, sizeof fifo);
        int can = step(&probe) == 0; nfifo = sn; held = sh; poison = sp; memcpy(fifo, sf, sizeof fifo);
        if (signalled) break;
        if (can) W_FAIL("a waiting %s could go on but nobody wakes it up", nm[me->kind]);
    }
    w_note(") ");
    cur = me; locked = 1; atlock(); return 0;
}
static float complex in[1 << 13];
static void verify_held(const char *when) {
    if (held && heldp) for (int i = 0; i < heldb.len; i++)
        if (crealf(heldp[i]) != heldb.id || cimagf(heldp[i]) != (float) i) W_FAIL("the block the consumer holds changed during %s", when);
}
static void run(int kind) {
    struct op o = {0}; o.kind = kind; o.outer = cur; cur = &o; depth++;
    int r = 0; float complex *out = (float complex *) 8; size_t len = 777;
    if (kind == PUT) {
        o.len = (int) w_size(1, bufsize); o.id = nextid++;
        if (w_chance(4)) {
            int bad = (int) w_rnd(3); o.decided = 1;
            w_note("put(%s) ", bad == 0 ? "NULL" : bad == 1 ? "0" : "too long");
            int rr = queue_put(bad == 0 ? NULL : in, bad == 1 ? 0 : bad == 2 ? (size_t) bufsize + 1 + w_rnd(3) : 1, q);
            W_CHECK(rr == -1, "an invalid block is accepted");
            cur = o.outer; depth--; return;
        }
        w_note("put(%d) ", o.len);
        float complex *src = malloc(sizeof(float complex) * (size_t) o.len);
        for (int i = 0; i < o.len; i++) src[i] = o.id + I * (float) i;
        r = queue_put(src, (size_t) o.len, q);
        for (int i = 0; i < o.len; i++) W_CHECK(src[i] == o.id + I * (float) i, "put changes the block it is given");
        free(src);
        W_CHECK(o.decided, "put finished without a decision (it must wait here)");
        W_CHECK((r == 0) == (o.res == 0), "put returned %d, expected %d", r, o.res);
    } else if (kind == TAKE) {
        w_note("take ");
        take_buffer_for_processing(&out, &len, q);
        W_CHECK(o.decided, "take finished although nothing is waiting and no shutdown");
        if (!o.res) W_CHECK(out == NULL, "take returns a block from a drained queue");
        else {
            W_CHECK(out != NULL, "take returns nothing although a block is waiting");
            W_CHECK(len == (size_t) o.want.len, "take returns length %zu instead of %d", len, o.want.len);
            for (int i = 0; i < o.want.len; i++)
                W_CHECK(crealf(out[i]) == o.want.id && cimagf(out[i]) == (float) i, "sample %d of the block taken is of block %g, expected block %g", i, (double) crealf(out[i]), (double) o.want.id);
            heldp = out; heldb = o.want;
        }
    } else if (kind == COMPLETE) {
        verify_held("processing"); w_note("complete ");
        complete_buffer_processing(q);
    } else { w_note("interrupt "); interrupt_waiting_the_data(q); }
    cur = o.outer; depth--;
    verify_held(nm[kind]);
}
void w_case(uint64_t n) {
    qsize = n < 64 ? 1 + (int) (n % 4) : (int) w_size(1, w_chance(5) ? 600 : 9);
    bufsize = n < 64 ? 1 + (int) (n / 4 % 8) : (int) w_size(1, w_chance(5) ? 8000 : 20);
    blocking = (int) (n & 1);
    if (qsize > 50) bufsize = bufsize > 16 ? 16 : bufsize;
    w_note("blocks=%d capacity=%d %s: ", qsize, bufsize, blocking ? "blocking" : "dropping");
    active = 0; cur = NULL; depth = 0; nfifo = 0; poison = held = 0; heldp = NULL; nextid = 1; locked = 0;
    int failat = w_chance(25) ? (int) w_rnd(2 * qsize + 1) : -1;
    q = NULL;
    w_acct_begin(failat);
    int code = create_queue((uint32_t) bufsize, (uint16_t) qsize, blocking, &q);
    if (failat >= 0) {
        w_note("allocation %d fails", failat);
        W_CHECK(code != 0, "the queue is created without memory");
        W_CHECK(w_acct_end() == 0, "a failed creation leaks memory");
        return;
    }
    W_CHECK(code == 0 && q, "create failed");
    active = 1; budget = 60;
    int nops = (int) w_size(1, qsize > 50 ? 3 * qsize : 40);
    if (nops > 1500) nops = 1500;
    for (int i = 0; i < nops; i++) {
        int k = (int) w_rnd(10); int kind = k < 5 ? PUT : k < 7 ? TAKE : k < 9 ? COMPLETE : INTERRUPT;
        if (kind == INTERRUPT && !w_chance(15)) continue;
        if (kind == TAKE && held) kind = COMPLETE;
        if (kind == COMPLETE && !held) kind = PUT;
        if (w_chance(60) && kind == TAKE && nfifo == 0 && !poison) kind = PUT;
        run(kind);
        W_CHECK(!locked, "%s returns with the lock held", nm[kind]);
    }
    active = 0;
    w_note("destroy");
    destroy_queue(q);
    W_CHECK(w_acct_end() == 0, "destroying the queue leaks memory");
}
