/* Deterministic scheduler for threaded code: the code's pthread calls are redirected here (--wrap), one thread
 * runs at a time and control changes hands only at these calls and at sc_yield()/sc_wait_io() points of the
 * stand-ins. The choice of the next thread comes from the case's random stream, so a case replays exactly. */
#ifndef SCHED_H
#define SCHED_H
#include <pthread.h>
#include <semaphore.h>
#define SC_MAX 40
enum { SC_FREE, SC_READY, SC_MUTEX, SC_COND, SC_JOIN, SC_IO, SC_DONE };
struct sc_thread { pthread_t th; sem_t go; int st, alive, joined, created, role; void *obj, *obj2; int (*io)(void *); void *ioarg; void *(*fn)(void *); void *arg; };
static struct sc_thread sc_t[SC_MAX];
static int sc_cur, sc_n = 1, sc_switchpct = 25, sc_on, sc_failcreate = -1, sc_ncreate;
struct sc_mutex { void *m; int owner; };
static struct sc_mutex sc_m[64]; static int sc_nm;
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg);
static const char *sc_deadlock_prop = NULL;
static void (*sc_ondead)(void);
static int sc_runnable(int i) {
    struct sc_thread *t = &sc_t[i];
    switch (t->st) {
        case SC_READY: return 1;
        case SC_MUTEX: for (int k = 0; k < sc_nm; k++) if (sc_m[k].m == t->obj && sc_m[k].owner >= 0) return 0; return 1;
        case SC_JOIN: return sc_t[(intptr_t) t->obj].st == SC_DONE;
        case SC_IO: return t->io(t->ioarg);
        default: return 0;
    }
}
static long sc_steps;
static void sc_switch(void) {
    if (++sc_steps > 3000000) { if (sc_ondead) sc_ondead(); W_FAIL("no progress: the threads run on without ever finishing"); }
    int c[SC_MAX], n = 0;
    for (int i = 0; i < sc_n; i++) if (sc_runnable(i)) c[n++] = i;
    if (n == 0) {
        if (sc_ondead) sc_ondead();
        W_FAIL("deadlock: every thread waits forever");
    }
    int me = sc_cur, next = c[w_rnd((uint64_t) n)];
    if (next == me) { sc_t[me].st = SC_READY; return; }
    sc_cur = next;
    int done = sc_t[me].st == SC_DONE;
    sc_t[next].st = SC_READY;
    sem_post(&sc_t[next].go);
    if (done) return;
    while (sem_wait(&sc_t[me].go) != 0) {}
}
static void sc_yield(void) { if (sc_on && w_chance(sc_switchpct)) { sc_switch(); } }
static void sc_wait_io(int (*ready)(void *), void *arg) {
    if (ready(arg)) { sc_yield(); return; }
    sc_t[sc_cur].io = ready; sc_t[sc_cur].ioarg = arg; sc_t[sc_cur].st = SC_IO;
    sc_switch();
}
static void *sc_body(void *p) {
    struct sc_thread *t = p;
    int me = (int) (t - sc_t);
    for (;;) {
        while (sem_wait(&t->go) != 0) {}
        t->fn(t->arg);
        t->st = SC_DONE;
        (void) me;
        sc_switch();
    }
    return NULL;
}
static void sc_init(void) { for (int i = 0; i < SC_MAX; i++) sem_init(&sc_t[i].go, 0, 0); }
static void sc_begin(void) { for (int i = 0; i < SC_MAX; i++) { sc_t[i].st = SC_FREE; sc_t[i].joined = 0; sc_t[i].role = 0; } sc_t[0].st = SC_READY; sc_cur = 0; sc_n = 1; sc_nm = 0; sc_on = 1; sc_steps = 0; sc_ncreate = 0; sc_failcreate = -1; }
/* run until every thread is done; to be called by thread 0 */
static int sc_others_done(void *x) { for (int i = 1; i < sc_n; i++) if (sc_t[i].st != SC_DONE) return 0; return 1; }
static void sc_end(void) { sc_wait_io(sc_others_done, NULL); sc_on = 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (sc_ncreate++ == sc_failcreate) return EAGAIN;
    W_CHECK(sc_n < SC_MAX, "harness: too many threads");
    int i = sc_n++;
    sc_t[i].fn = fn; sc_t[i].arg = arg; sc_t[i].st = SC_READY;
    *t = (pthread_t) (uintptr_t) (0x1000 + i);
    if (!sc_t[i].alive) { sc_t[i].alive = 1; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); if (__real_pthread_create(&sc_t[i].th, &at, sc_body, &sc_t[i])) W_FAIL("harness: no threads"); pthread_attr_destroy(&at); }
    sc_yield();
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **r) {
    intptr_t i = (intptr_t) t - 0x1000;
    if (t == 0) return ESRCH;
    W_CHECK(i > 0 && i < sc_n, "join of something that is not a thread");
    W_CHECK(!sc_t[i].joined, "a thread is joined twice");
    W_CHECK(i != sc_cur, "a thread joins itself");
    sc_t[i].joined = 1;
    if (sc_t[i].st != SC_DONE) { sc_t[sc_cur].st = SC_JOIN; sc_t[sc_cur].obj = (void *) i; sc_switch(); }
    return 0;
}
int __wrap_pthread_detach(pthread_t t) { intptr_t i = (intptr_t) t - 0x1000; if (i > 0 && i < sc_n) sc_t[i].joined = 1; return 0; }
static struct sc_mutex *sc_find(void *m) {
    for (int k = 0; k < sc_nm; k++) if (sc_m[k].m == m) return &sc_m[k];
    W_CHECK(sc_nm < 64, "harness: too many mutexes");
    sc_m[sc_nm] = (struct sc_mutex) {m, -1};
    return &sc_m[sc_nm++];
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!sc_on) return 0;
    sc_yield();
    struct sc_mutex *x = sc_find(m);
    W_CHECK(x->owner != sc_cur, "a thread takes a mutex it already holds");
    if (x->owner >= 0) { sc_t[sc_cur].st = SC_MUTEX; sc_t[sc_cur].obj = m; sc_switch(); x = sc_find(m); }
    x->owner = sc_cur;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!sc_on) return 0;
    struct sc_mutex *x = sc_find(m);
    W_CHECK(x->owner == sc_cur, "a mutex is released by a thread that does not hold it");
    x->owner = -1;
    sc_yield();
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { for (int k = 0; k < sc_nm; k++) if (sc_m[k].m == m) sc_m[k].owner = -1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
static void sc_wake(void *c, int all) {
    int w[SC_MAX], n = 0;
    for (int i = 0; i < sc_n; i++) if (sc_t[i].st == SC_COND && sc_t[i].obj == c) w[n++] = i;
    if (!all && n > 1) { w[0] = w[w_rnd((uint64_t) n)]; n = 1; }
    for (int i = 0; i < n; i++) { sc_t[w[i]].st = SC_MUTEX; sc_t[w[i]].obj = sc_t[w[i]].obj2; }
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!sc_on) W_FAIL("wait without a scheduler");
    struct sc_mutex *x = sc_find(m);
    W_CHECK(x->owner == sc_cur, "wait without holding the mutex");
    x->owner = -1;
    if (w_chance(10)) { sc_t[sc_cur].st = SC_MUTEX; sc_t[sc_cur].obj = m; } /* spurious wake-up */
    else { sc_t[sc_cur].st = SC_COND; sc_t[sc_cur].obj = c; sc_t[sc_cur].obj2 = m; }
    sc_switch();
    sc_find(m)->owner = sc_cur;
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    struct sc_mutex *x = sc_find(m); x->owner = -1;
    int to = w_chance(50);
    sc_t[sc_cur].st = SC_MUTEX; sc_t[sc_cur].obj = m; sc_switch();
    sc_find(m)->owner = sc_cur;
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { sc_wake(c, 0); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { sc_wake(c, 1); return 0; }
#define SCHED_WRAPS pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
#endif
