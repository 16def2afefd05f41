// SRC: src/linked_list.c
// WRAP: malloc free calloc volk_malloc volk_free
/* linked_list.c: random operation sequences against a plain array */
#define W_MALLOC
#include "w.h"
#include "linked_list.h"
void *__wrap_volk_malloc(size_t, size_t); 
void *__real_volk_malloc(size_t n, size_t al) { return 0; }
void __real_volk_free(void *p) {}
static void w_init_once(void) {}
static int model[600], nm; static int destroyed[4096]; static int next_id;
static int seen[600], nseen; static int items[4096]; static int arg_ok;
static void destr(void *d) { destroyed[*(int *) d]++; }
static int dsel_id;
static bool sel_id(void *id, void *d) { return *(int *) id == items[*(int *) d]; }
static int selmask, selmod; static int calls[4096];
static bool sel(void *d) { calls[*(int *) d]++; return (items[*(int *) d] % selmod) == selmask; }
static void each(void *a, void *d) { if (a != &arg_ok) arg_ok = 0; if (nseen < 600) seen[nseen++] = *(int *) d; }
static int ids[4096];
static void check(linked_list *l, const char *op) {
    nseen = 0; linked_list_foreach(&arg_ok, each, l);
    W_CHECK(nseen == nm, "after %s the list visits %d elements instead of %d", op, nseen, nm);
    for (int i = 0; i < nm; i++) W_CHECK(seen[i] == model[i], "after %s element %d is %d instead of %d", op, i, seen[i], model[i]);
}
static void drop(int i) { memmove(model + i, model + i + 1, sizeof(int) * (size_t) (nm - i - 1)); nm--; }
static int expd[4096];
void w_case(uint64_t n) {
    linked_list *l = NULL; nm = 0; next_id = 0; arg_ok = 1;
    memset(destroyed, 0, sizeof destroyed); memset(expd, 0, sizeof expd);
    int nops = n < 200 ? 1 + (int) (n % 10) : (int) w_size(1, 120); int span = w_chance(50) ? 3 : 12;
    w_acct_begin(-1);
    for (int k = 0; k < nops; k++) {
        int op = (int) w_rnd(10);
        if (op < 4) {
            int id = next_id++; ids[id] = id; items[id] = (int) w_rnd(span);
            w_failat = w_chance(8) ? w_nalloc : -1;
            w_note("add(%d)%s ", items[id], w_failat >= 0 ? "!nomem" : "");
            int r = linked_list_add(&ids[id], destr, &l);
            if (w_failat >= 0) W_CHECK(r != 0, "add reported success without memory"); else W_CHECK(r == 0, "add failed with %d", r);
            w_failat = -1;
            if (r == 0) model[nm++] = id;
        } else if (op == 4) {
            int key = (int) w_rnd(span); w_note("find(%d) ", key);
            void *e = NULL; for (int i = 0; i < nm && !e; i++) if (items[model[i]] == key) e = &ids[model[i]];
            W_CHECK(linked_list_find(&key, sel_id, l) == e, "find does not return the first match");
        } else if (op == 5 || op == 6) {
            int key = (int) w_rnd(span); w_note("%s(%d) ", op == 5 ? "remove" : "destroy_by_id", key);
            int at = -1; for (int i = 0; i < nm && at < 0; i++) if (items[model[i]] == key) at = i;
            if (op == 5) {
                void *r = linked_list_remove_by_id(&key, sel_id, &l);
                W_CHECK(r == (at < 0 ? NULL : (void *) &ids[model[at]]), "remove does not return the first match");
            } else { linked_list_destroy_by_id(&key, sel_id, &l); if (at >= 0) expd[model[at]]++; }
            if (at >= 0) drop(at);
        } else if (op == 7) {
            selmod = 1 + (int) w_rnd(4); selmask = (int) w_rnd(selmod); w_note("destroy_if(%%%d==%d) ", selmod, selmask);
            memset(calls, 0, sizeof calls);
            linked_list_destroy_by_selector(sel, &l);
            for (int i = 0; i < nm; i++) W_CHECK(calls[model[i]] == 1, "the selector is asked %d times about an element", calls[model[i]]);
            for (int i = 0; i < nm;) if (items[model[i]] % selmod == selmask) { expd[model[i]]++; drop(i); } else i++;
        } else if (op == 8 && w_chance(30)) {
            w_note("destroy ");
            linked_list_destroy(l); l = NULL;
            for (int i = 0; i < nm; i++) expd[model[i]]++;
            nm = 0;
        }
        check(l, "an operation");
        for (int i = 0; i < next_id; i++) W_CHECK(destroyed[i] == expd[i], "element %d was destroyed %d times instead of %d", i, destroyed[i], expd[i]);
    }
    linked_list_destroy(l);
    for (int i = 0; i < nm; i++) expd[model[i]]++;
    for (int i = 0; i < next_id; i++) W_CHECK(destroyed[i] == expd[i], "at the end element %d was destroyed %d times instead of %d", i, destroyed[i], expd[i]);
    W_CHECK(arg_ok, "foreach passes another argument");
    W_CHECK(w_acct_end() == 0, "memory of list nodes is not released");
}
