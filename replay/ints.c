#include "common.h"
#include <gutil_ints.h>
#include <unistd.h>
/* a tree of slices over root objects with an independent model of lifetimes */
#define NO 40
typedef struct obj { GUtilInts* p; int kind; int* data; int orig; guint n; int refs, alive, parent, root; } O;   /* kind: 0 copy 1 take 2 static 3 ff 4 slice */
static O o[NO]; static int no;
static int frees[NO]; static int want[NO];
static int stat_[4096];
static void ff(gpointer x) { frees[(int)(intptr_t)x - 1]++; }
static int val(void) { switch (rn(4)) { case 0: return (int)rn(3); case 1: return (int)ri(); case 2: return INT_MIN + (int)rn(3); default: return (int)rn(300) - 150; } }
static void dead(int i) {
    O* x = o + i;
    x->alive = 0;
    if (x->kind == 3) want[i]++;
    else if (x->kind == 4) { if (!--o[x->parent].refs) dead(x->parent); }
}
static void check(int i) {
    O* x = o + i; guint c = 77; const int* d;
    CHECK(gutil_ints_get_count(x->p) == x->n, "count of object %d is %u, expected %u", i, gutil_ints_get_count(x->p), x->n);
    d = gutil_ints_get_data(x->p, &c);
    CHECK(c == x->n && d == gutil_ints_get_data(x->p, NULL), "get_data count %u", c);
    CHECK(!memcmp(d, x->data, x->n * sizeof(int)), "contents of object %d changed", i);
}
static void check_all(void) {
    int i;
    for (i = 0; i < no; i++) {
        if (o[i].alive) check(i);
        CHECK(frees[i] == want[i], "object %d: free function called %d times, expected %d", i, frees[i], want[i]);
    }
}
static void lookups(int i) {
    O* x = o + i; guint k; int j, v = (x->n && rn(2)) ? x->data[rn(x->n)] : val(), w = -1;
    for (k = 0; k < x->n; k++) if (x->data[k] == v) { w = (int)k; break; }
    TR("find(%d,%d);", i, v);
    CHECK(gutil_ints_find(x->p, v) == w, "find: %d, expected %d", gutil_ints_find(x->p, v), w);
    CHECK(!gutil_ints_contains(x->p, v) == (w < 0), "contains");
    for (j = 0; j < no; j++) if (o[j].alive) {
        O* y = o + j; int eq = x->n == y->n && !memcmp(x->data, y->data, x->n * sizeof(int));
        int c = gutil_ints_compare(x->p, y->p), d = gutil_ints_compare(y->p, x->p), z;
        CHECK(!gutil_ints_equal(x->p, y->p) == !eq, "equal(%d,%d) is not %d", i, j, eq);
        if (eq) CHECK(gutil_ints_hash(x->p) == gutil_ints_hash(y->p), "equal arrays hash differently");
        CHECK((c == 0) == eq, "compare(%d,%d) is %d", i, j, c);
        CHECK((c < 0) == (d > 0) && (c > 0) == (d < 0), "compare(%d,%d) is not antisymmetric", i, j);
        if (!eq) { guint m = MIN(x->n, y->n); if (!memcmp(x->data, y->data, m * sizeof(int))) CHECK((c > 0) == (x->n > y->n), "longer is not greater"); }
        for (z = 0; z < no; z++) if (o[z].alive && c < 0 && gutil_ints_compare(y->p, o[z].p) < 0) CHECK(gutil_ints_compare(x->p, o[z].p) < 0, "compare is not transitive");
    }
    CHECK(!gutil_ints_equal(x->p, NULL) && !gutil_ints_equal(NULL, x->p) && gutil_ints_compare(x->p, NULL) > 0 && gutil_ints_compare(NULL, x->p) < 0, "NULL comparison");
}
static int add(GUtilInts* p, int kind, int* data, guint n, int parent) {
    int i = no++;
    CHECK(p != NULL, "no object made");
    o[i].p = p; o[i].kind = kind; o[i].data = data; o[i].n = n; o[i].refs = 1; o[i].alive = 1; o[i].parent = parent;
    frees[i] = want[i] = 0;
    return i;
}
static int pick(void) { int t = 50; while (t--) { int i = rn(no ? no : 1); if (no && o[i].alive) return i; } return -1; }
static void run(void) {
    int k, len = 3 + rn(60), i, j;
    no = 0; trace_reset();
    for (k = 0; k < len; k++) {
        int op = rn(12);
        if ((op < 4 || op == 5) && no < NO - 1) {
            int kind = rn(4); guint n = 1 + small(6); int* d = malloc(n * sizeof(int)); int* src; guint q;
            GUtilInts* p;
            for (q = 0; q < n; q++) d[q] = val();
            if (op == 5 && no) { i = rn(no); if (o[i].alive) { free(d); n = o[i].n; d = malloc(n * sizeof(int)); memcpy(d, o[i].data, n * sizeof(int)); if (rn(2)) d[rn(n)] ^= (int)(1u << rn(32)); } }
            if (kind == 2 && n > 4096) kind = 0;
            TR("new%d(%u);", kind, n);
            if (kind == 0) { src = g_memdup2(d, n * sizeof(int)); p = gutil_ints_new(src, n); for (q = 0; q < n; q++) src[q] = ~src[q]; g_free(src); }
            else if (kind == 1) { src = g_memdup2(d, n * sizeof(int)); p = gutil_ints_new_take(src, n); CHECK(gutil_ints_get_data(p, NULL) == src, "new_take copied"); }
            else if (kind == 2) { memcpy(stat_, d, n * sizeof(int)); free(d); src = malloc(n * sizeof(int)); memcpy(src, stat_, n * sizeof(int)); d = src; p = gutil_ints_new_static(src, n); CHECK(gutil_ints_get_data(p, NULL) == src, "new_static copied"); }
            else { p = gutil_ints_new_with_free_func(d, n, ff, (gpointer)(intptr_t)(no + 1)); CHECK(gutil_ints_get_data(p, NULL) == d, "data copied"); }
            add(p, kind, d, n, -1);
        } else if (op == 4 || op == 6) {
            guint off, cnt, n; GUtilInts* p;
            i = pick(); if (i < 0 || no >= NO - 1) continue;
            off = rn(3) ? rn(o[i].n + 1) : (guint)ri(); cnt = rn(3) ? (guint)rn(o[i].n + 2) : (guint)ri();
            if (!rn(6)) cnt = UINT_MAX - off + rn(3);
            TR("from_ints(%d,%u,%u);", i, off, cnt);
            p = gutil_ints_new_from_ints(o[i].p, off, cnt);
            n = off < o[i].n ? MIN(cnt, o[i].n - off) : 0;
            CHECK((p != NULL) == (n != 0), "slice %u+%u of %u: %s", off, cnt, o[i].n, p ? "made" : "not made");
            if (p) { if (p == o[i].p) { gutil_ints_unref(p); continue; }
                CHECK(gutil_ints_get_data(p, NULL) == gutil_ints_get_data(o[i].p, NULL) + off, "slice does not share the data");
                j = add(p, 4, o[i].data + off, n, i); o[i].refs++; (void)j; }
        } else if (op == 7) {
            i = pick(); if (i < 0) continue;
            TR("ref(%d);", i); CHECK(gutil_ints_ref(o[i].p) == o[i].p, "ref"); o[i].refs++;
            o[i].orig++;
        } else if (op == 8 || op == 9 || op == 10) {
            int own;
            i = pick(); if (i < 0) continue;
            /* only drop a reference which is ours: not the ones of slices */
            own = o[i].refs; for (j = 0; j < no; j++) if (o[j].alive && o[j].kind == 4 && o[j].parent == i) own--;
            if (own < 1) continue;
            if (op == 10) {
                guint c = 99; int* d; int last = o[i].refs == 1;
                TR("unref_to_data(%d);", i);
                { int* before = g_memdup2(o[i].data, o[i].n * sizeof(int)); guint bn = o[i].n; const int* was = gutil_ints_get_data(o[i].p, NULL); int kind = o[i].kind;
                if (!--o[i].refs) dead(i);
                d = gutil_ints_unref_to_data(o[i].alive || last ? o[i].p : o[i].p, rn(4) ? &c : NULL);
                CHECK(c == 99 || c == bn, "unref_to_data count %u", c);
                CHECK(d && !memcmp(d, before, bn * sizeof(int)), "unref_to_data contents");
                if (!(last && kind <= 1)) CHECK(d != was, "unref_to_data handed out data it does not own");
                d[0] ^= 1; g_free(before); g_free(d); }
            } else { TR("unref(%d);", i); if (!--o[i].refs) dead(i); gutil_ints_unref(o[i].p); }
        } else { i = pick(); if (i >= 0) lookups(i); }
        check_all();
    }
    TR("release;");
    for (i = 0; i < no; i++) {
        int own = o[i].refs; if (!o[i].alive) continue;
        for (j = 0; j < no; j++) if (o[j].alive && o[j].kind == 4 && o[j].parent == i) own--;
        while (own-- > 0) { GUtilInts* p = o[i].p; if (!--o[i].refs) dead(i); gutil_ints_unref(p); check_all(); }
    }
    for (i = 0; i < no; i++) CHECK(!o[i].alive, "object %d still alive", i);
    for (i = 0; i < no; i++) if (o[i].kind != 4) free(o[i].data);
}
int main(int argc, char** argv) {
    long n = 0; guint c = 5; int d[2] = { 1, 2 };
    common_init();
    CHECK(!gutil_ints_new(NULL, 3) && !gutil_ints_new(d, 0) && !gutil_ints_new_static(NULL, 1) && !gutil_ints_new_static(d, 0), "empty");
    frees[0] = 0; CHECK(!gutil_ints_new_with_free_func(d, 0, ff, (gpointer)1) && !gutil_ints_new_with_free_func(NULL, 2, ff, (gpointer)1), "empty with a free function");
    CHECK(!gutil_ints_new_from_ints(NULL, 0, 1) && !gutil_ints_ref(NULL), "NULL"); gutil_ints_unref(NULL);
    CHECK(!gutil_ints_unref_to_data(NULL, &c) && !c, "NULL"); c = 5; CHECK(!gutil_ints_get_data(NULL, &c) && !c, "NULL");
    CHECK(!gutil_ints_get_count(NULL) && gutil_ints_find(NULL, 0) == -1 && !gutil_ints_contains(NULL, 0) && !gutil_ints_hash(NULL) && gutil_ints_equal(NULL, NULL) && !gutil_ints_compare(NULL, NULL), "NULL");
    do { run(); n++; } while (more(1));
    printf("ok: %ld random histories\n", n);
    return 0;
}
