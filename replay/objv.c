#include "common.h"
#include <gutil_objv.h>
#include <gutil_misc.h>
#define NO 5
static GObject* ob[NO]; static int held[NO];
static GObject* m[256]; static int n;
static int idx(GObject* o) { int i; for (i = 0; i < NO; i++) if (ob[i] == o) return i; return -1; }
static void same(GObject** v, GObject** e, int k, const char* w) {
    int i;
    if (!v) { CHECK(!k, "%s: NULL vector", w); return; }
    for (i = 0; i < k; i++) CHECK(v[i] == e[i], "%s: element %d is %d, expected %d", w, i, idx(v[i]), idx(e[i]));
    CHECK(!v[k], "%s: not terminated after %d", w, k);
}
static void refs(const char* w) { int i; for (i = 0; i < NO; i++) CHECK(ob[i]->ref_count == 1 + held[i], "%s: object %d has %d references, expected %d", w, i, (int)ob[i]->ref_count, 1 + held[i]); }
static void del(int i) { held[idx(m[i])]--; memmove(m + i, m + i + 1, (n - i - 1) * sizeof(m[0])); n--; }
static void look(GObject** v) {
    int k, j, f, l;
    for (k = 0; k < NO; k++) {
        for (f = 0; f < n && m[f] != ob[k]; f++); if (f == n) f = -1;
        for (l = n - 1; l >= 0 && m[l] != ob[k]; l--);
        CHECK(gutil_objv_find(v, ob[k]) == f, "find %d gives %d, expected %d", k, (int)gutil_objv_find(v, ob[k]), f);
        CHECK(gutil_objv_find_last(v, ob[k]) == l, "find_last %d gives %d, expected %d", k, (int)gutil_objv_find_last(v, ob[k]), l);
        CHECK(!!gutil_objv_contains(v, ob[k]) == (f >= 0), "contains %d", k);
    }
    CHECK(gutil_objv_find(v, NULL) == -1 && gutil_objv_find_last(v, NULL) == -1 && !gutil_objv_contains(v, NULL), "NULL object found");
    for (j = -1; j < n + 3; j++) CHECK(gutil_objv_at(v, j) == (j >= 0 && j < n ? m[j] : NULL), "at %d", j);
    CHECK(gutil_objv_first(v) == (n ? m[0] : NULL) && gutil_objv_last(v) == (n ? m[n - 1] : NULL), "first/last");
    CHECK(gutil_ptrv_length(v) == n, "length");
}
static void run(void) {
    GObject** v = NULL; int k, len = 5 + rn(40), i; n = 0;
    memset(held, 0, sizeof(held));
    trace_reset();
    for (k = 0; k < len; k++) {
        int op = rn(12), x = rn(rn(3) ? 2 : NO), pos = rn(5) ? rn(n + 2) : -1;
        if (n > 100) op = 3;
        if (op < 2) { TR("add(%d);", x); if (rn(8)) { v = gutil_objv_add(v, ob[x]); m[n++] = ob[x]; held[x]++; } else v = gutil_objv_add(v, NULL); }
        else if (op < 4 && rn(4)) {
            int p = (gsize)pos >= n ? n : pos; TR("insert(%d,%d);", x, pos);
            v = gutil_objv_insert(v, ob[x], (gsize)(gssize)pos); memmove(m + p + 1, m + p, (n - p) * sizeof(m[0])); m[p] = ob[x]; n++; held[x]++;
        } else if (op < 5) { TR("remove_at(%d);", pos); v = gutil_objv_remove_at(v, (gsize)(gssize)pos); if (pos >= 0 && pos < n) del(pos); }
        else if (op < 7) {
            int all = rn(2); TR("remove(%d,%d);", x, all); v = gutil_objv_remove(v, rn(9) ? ob[x] : (x = -1, NULL), all);
            for (i = 0; x >= 0 && i < n; i++) if (m[i] == ob[x]) { del(i--); if (!all) break; }
        } else if (op == 7 && n < 40) {
            GObject* s[8]; int c = rn(6), z = !rn(5); for (i = 0; i < c; i++) s[i] = ob[rn(NO)]; s[c] = NULL; if (z) c = 0;
            TR("append(%d);", c); v = gutil_objv_append(v, z ? NULL : s); for (i = 0; i < c; i++) { m[n++] = s[i]; held[idx(s[i])]++; }
        } else if (op == 8) {
            GObject** c = gutil_objv_copy(v); TR("copy;"); CHECK(!c == !v && (!c || c != v), "copy");
            if (c) { same(c, m, n, "copy"); for (i = 0; i < n; i++) held[idx(m[i])]++; refs("copy"); 
                if (rn(2)) { gutil_objv_free(c); } else { gutil_objv_free(v); v = c; } for (i = 0; i < n; i++) held[idx(m[i])]--; }
        } else if (op == 9) {
            GObject* c[256]; GObject* e[1] = { NULL }; int d; memcpy(c, m, n * sizeof(m[0])); c[n] = NULL; TR("equal;");
            CHECK(v ? gutil_objv_equal(v, c) && gutil_objv_equal(c, v) && gutil_objv_equal(v, v) : gutil_objv_equal(NULL, NULL), "equal");
            CHECK(!!gutil_objv_equal(v, NULL) == !n && !!gutil_objv_equal(NULL, v) == !n && !!gutil_objv_equal(v, e) == !n, "equal to NULL or empty");
            if (n) { d = rn(n); c[d] = c[d] == ob[0] ? ob[1] : ob[0]; CHECK(!gutil_objv_equal(v, c) && !gutil_objv_equal(c, v), "equal with a difference at %d", d);
                c[rn(n)] = NULL; CHECK(!gutil_objv_equal(v, c) && !gutil_objv_equal(c, v), "equal to a shorter one"); }
        } else if (op == 10 && !rn(4)) { TR("free;"); gutil_objv_free(v); v = NULL; while (n) del(0); }
        else if (op == 11 && !rn(3)) {
            GObject** c; int a = rn(NO), b = rn(NO), d = rn(5); TR("new%d;", d);
            c = d == 0 ? gutil_objv_new(NULL) : d == 1 ? gutil_objv_new(ob[a], NULL) : d == 2 ? gutil_objv_new(ob[a], ob[b], NULL) : d == 3 ? gutil_objv_new(ob[a], ob[b], ob[a], NULL)
                : gutil_objv_new(ob[a], ob[b], ob[b], ob[a], ob[a], ob[b], ob[b], ob[b], ob[a], NULL);
            { GObject* e[9] = { ob[a], ob[b], d == 3 ? ob[a] : ob[b], ob[a], ob[a], ob[b], ob[b], ob[b], ob[a] }; int q = d == 4 ? 9 : d; same(c, e, q, "new");
              for (i = 0; i < q; i++) held[idx(e[i])]++; refs("new"); for (i = 0; i < q; i++) held[idx(e[i])]--; }
            gutil_objv_free(c);
        }
        same(v, m, n, "vector"); refs("after"); look(v);
    }
    gutil_objv_free(v); memset(held, 0, sizeof(held)); refs("end"); gutil_objv_free(NULL); CHECK(!gutil_objv_copy(NULL), "copy NULL");
}
/* removal of all occurrences: every vector up to length 10 over two objects */
static void all(void) {
    int l, b, i;
    for (l = 0; l <= 10; l++) for (b = 0; b < 1 << l; b++) {
        GObject** v = gutil_objv_new(NULL); memset(held, 0, sizeof(held)); n = 0; trace_reset(); TR("remove all 0 of ");
        for (i = 0; i < l; i++) { int x = (b >> i) & 1; v = gutil_objv_add(v, ob[x]); TR("%d", x); if (x) { m[n++] = ob[1]; held[1]++; } }
        v = gutil_objv_remove(v, ob[0], TRUE); same(v, m, n, "remove all"); refs("remove all"); gutil_objv_free(v); held[1] = 0;
    }
}
/* positions beyond 16 bits */
static void large(void) {
    const int l = 70000; GObject** v = g_new0(GObject*, l + 1); int i; static const int at[] = { 0, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 69998, 69999 };
    GObject** w;
    trace_reset(); TR("vector of %d: ", l); memset(held, 0, sizeof(held));
    for (i = 0; i < l; i++) { v[i] = g_object_ref(ob[i < 65600 ? 0 : i == 65600 ? 1 : 2]); held[idx(v[i])]++; }
    for (i = 0; i < (int)(sizeof(at) / sizeof(at[0])); i++) { TR("at %d; ", at[i]); CHECK(gutil_objv_at(v, at[i]) == v[at[i]], "at %d", at[i]); }
    TR("at the end; "); CHECK(!gutil_objv_at(v, l) && !gutil_objv_at(v, l + 65536), "at the end");
    TR("find; "); CHECK(gutil_objv_find(v, ob[1]) == 65600 && gutil_objv_find_last(v, ob[1]) == 65600 && gutil_objv_find_last(v, ob[0]) == 65599 && gutil_objv_find(v, ob[2]) == 65601 && gutil_objv_find(v, ob[3]) == -1, "find");
    CHECK(gutil_objv_last(v) == ob[2] && gutil_ptrv_length(v) == l, "last, length");
    TR("copy; "); w = gutil_objv_copy(v); CHECK(gutil_objv_equal(v, w), "copy"); gutil_objv_free(w);
    TR("insert at 65537; "); v = gutil_objv_insert(v, ob[3], 65537); held[3]++; CHECK(v[65537] == ob[3] && v[65536] == ob[0] && v[65538] == ob[0] && v[65601] == ob[1] && v[l] == ob[2] && !v[l + 1], "insert"); refs("insert");
    TR("remove at 65537; "); v = gutil_objv_remove_at(v, 65537); held[3]--; CHECK(v[65537] == ob[0] && v[65600] == ob[1] && !v[l], "remove at"); refs("remove at");
    TR("remove; "); v = gutil_objv_remove(v, ob[1], FALSE); held[1]--; CHECK(v[65600] == ob[2] && v[65599] == ob[0] && !v[l - 1], "remove"); refs("remove");
    gutil_objv_free(v); memset(held, 0, sizeof(held)); refs("free");
}
int main(int c, char** a) { int i; common_init(); for (i = 0; i < NO; i++) ob[i] = g_object_new(G_TYPE_OBJECT, NULL); all(); large(); do run(); while (more(1)); for (i = 0; i < NO; i++) g_object_unref(ob[i]); return 0; }
