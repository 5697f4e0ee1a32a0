#include "common.h"
#include <gutil_intarray.h>
#include <gutil_ints.h>
#include <unistd.h>
#define MX 40000
static int m[MX]; static guint n;
static int val(void) { switch (rn(5)) { case 0: case 1: return (int)rn(4); case 2: return (int)ri(); case 3: return (rn(2) ? INT_MIN : INT_MAX - 2) + (int)rn(3); default: return (int)rn(300) - 150; } }
static int up(const void* a, const void* b) { int x = *(int*)a, y = *(int*)b; return x < y ? -1 : x > y; }
static int down(const void* a, const void* b) { return up(b, a); }
static void same(GUtilIntArray* a) { guint i;
    CHECK(a->count == n, "count %u, expected %u", a->count, n);
    for (i = 0; i < n; i++) CHECK(a->data[i] == m[i], "element %u is %d, expected %d", i, a->data[i], m[i]); }
static guint posn(void) { return rn(4) ? rn(n + 2) : (guint)ri(); }
static void run(void) {
    GUtilIntArray* a; int k, len = 1 + rn(40), refs = 1; guint i, c; int v[300];
    trace_reset();
    n = 0;
    switch (rn(4)) {
    case 0: TR("new;"); a = gutil_int_array_new(); break;
    case 1: c = small(100); TR("sized(%u);", c); a = gutil_int_array_sized_new(c); break;
    case 2: n = rn(rn(3) ? 8 : 300); for (i = 0; i < n; i++) m[i] = val(); TR("vals(%u);", n); memcpy(v, m, sizeof v); a = gutil_int_array_new_from_vals(v, n); memset(v, 1, sizeof v); break;
    default: m[0] = val(); n = 1; TR("value(%d);", m[0]); a = gutil_int_array_new_from_value(m[0]); break;
    }
    same(a);
    for (k = 0; k < len; k++) {
        int op = rn(19), x = (n && rn(2)) ? m[rn(n)] : val(), w; guint p, q, r;
        for (w = 0; w < (int)n && m[w] != x; w++); if (w == (int)n) w = -1;
        c = rn(rn(3) ? 4 : 60); for (i = 0; i < c; i++) v[i] = val();
        if (n > 20000) break;
        switch (op) {
        case 0: TR("append(%d);", x); CHECK(gutil_int_array_append(a, x) == a, "ret"); m[n++] = x; break;
        case 1: TR("append_vals(%u);", c); CHECK(gutil_int_array_append_vals(a, v, c) == a, "ret"); memcpy(m + n, v, c * sizeof(int)); n += c; break;
        case 2: TR("prepend(%d);", x); CHECK(gutil_int_array_prepend(a, x) == a, "ret"); memmove(m + 1, m, n * sizeof(int)); m[0] = x; n++; break;
        case 3: TR("prepend_vals(%u);", c); CHECK(gutil_int_array_prepend_vals(a, v, c) == a, "ret"); memmove(m + c, m, n * sizeof(int)); memcpy(m, v, c * sizeof(int)); n += c; break;
        case 4: p = rn(n + 1); TR("insert(%u,%d);", p, x); CHECK(gutil_int_array_insert(a, p, x) == a, "ret"); memmove(m + p + 1, m + p, (n - p) * sizeof(int)); m[p] = x; n++; break;
        case 5: p = rn(n + 1); TR("insert_vals(%u,%u);", p, c); CHECK(gutil_int_array_insert_vals(a, p, v, c) == a, "ret"); memmove(m + p + c, m + p, (n - p) * sizeof(int)); memcpy(m + p, v, c * sizeof(int)); n += c; break;
        case 6: p = rn(n + 1 + rn(5)); TR("set_count(%u);", p); CHECK(gutil_int_array_set_count(a, p) == a, "ret"); CHECK(a->count == p, "set_count"); for (i = n; i < p; i++) m[i] = a->data[i] = val(); n = p; break;
        case 7: TR("find(%d);", x); CHECK(gutil_int_array_find(a, x) == w, "find: %d, expected %d", gutil_int_array_find(a, x), w); CHECK(!gutil_int_array_contains(a, x) == (w < 0), "contains"); break;
        case 8: TR("remove(%d);", x); CHECK(!gutil_int_array_remove(a, x) == (w < 0), "remove"); if (w >= 0) { memmove(m + w, m + w + 1, (n - w - 1) * sizeof(int)); n--; } break;
        case 9: case 10: { int t[MX], tn = 0; guint cnt, j; int fast;
            fast = op == 10 || rn(2);
            if (op == 9) { TR("remove_all(%d);", x); cnt = 0; for (i = j = 0; i < n; i++) if (m[i] == x) cnt++; else m[j++] = m[i]; n = j;
                r = gutil_int_array_remove_all(a, x); CHECK(r == cnt, "remove_all: %u, expected %u", r, cnt); break; }
            if (rn(2)) { TR("remove_all_fast(%d);", x); for (cnt = i = 0; i < n; i++) if (m[i] == x) cnt++; else t[tn++] = m[i];
                r = gutil_int_array_remove_all_fast(a, x); CHECK(r == cnt, "remove_all_fast: %u, expected %u", r, cnt); }
            else { TR("remove_fast(%d);", x); for (i = 0; i < n; i++) if ((int)i != w) t[tn++] = m[i]; CHECK(!gutil_int_array_remove_fast(a, x) == (w < 0), "remove_fast"); }
            CHECK(a->count == (guint)tn, "count %u, expected %d", a->count, tn);
            n = tn; memcpy(m, a->data, n * sizeof(int)); 
            { int* s = g_memdup2(m, n * sizeof(int) + 1); qsort(t, n, sizeof(int), up); qsort(s, n, sizeof(int), up); CHECK(!memcmp(s, t, n * sizeof(int)), "other elements changed"); g_free(s); }
            (void)fast; break; }
        case 11: p = posn(); TR("remove_index(%u);", p); CHECK(gutil_int_array_remove_index(a, p) == a, "ret"); if (p < n) { memmove(m + p, m + p + 1, (n - p - 1) * sizeof(int)); n--; } break;
        case 12: if (!n) break; p = rn(n); TR("remove_index_fast(%u);", p); CHECK(gutil_int_array_remove_index_fast(a, p) == a, "ret"); m[p] = m[n - 1]; n--; break;
        case 13: p = posn(); q = rn(3) ? rn(n + 2) : (guint)ri(); if (!rn(6)) q = UINT_MAX - p + rn(3); TR("remove_range(%u,%u);", p, q); CHECK(gutil_int_array_remove_range(a, p, q) == a, "ret");
            if (p < n) { r = MIN(q, n - p); memmove(m + p, m + p + r, (n - p - r) * sizeof(int)); n -= r; } break;
        case 14: TR("sort_ascending;"); gutil_int_array_sort_ascending(a); qsort(m, n, sizeof(int), up); break;
        case 15: TR("sort_descending;"); gutil_int_array_sort_descending(a); qsort(m, n, sizeof(int), down); break;
        case 16: TR("ref;"); CHECK(gutil_int_array_ref(a) == a, "ref"); refs++; break;
        case 17: if (refs > 1) { TR("unref;"); gutil_int_array_unref(a); refs--; } break;
        }
        same(a);
    }
    while (refs > 1) { gutil_int_array_unref(a); refs--; same(a); }
    switch (rn(4)) {
    case 0: TR("unref;"); gutil_int_array_unref(a); break;
    case 1: TR("free(TRUE);"); CHECK(!gutil_int_array_free(a, TRUE), "free(TRUE) returned data"); break;
    case 2: { int* d; TR("free(FALSE);"); d = gutil_int_array_free(a, FALSE); CHECK(!d == !n, "free(FALSE)"); if (n) CHECK(!memcmp(d, m, n * sizeof(int)), "free(FALSE): contents"); g_free(d); break; }
    default: { GUtilInts* x; guint k2; TR("free_to_ints;"); x = gutil_int_array_free_to_ints(a); CHECK(!x == !n, "free_to_ints"); if (n) { CHECK(gutil_ints_get_count(x) == n && !memcmp(gutil_ints_get_data(x, &k2), m, n * sizeof(int)), "free_to_ints: contents"); } gutil_ints_unref(x); } }
}
int main(int argc, char** argv) {
    long k = 0; int v = 1;
    common_init();
    CHECK(!gutil_int_array_ref(NULL) && !gutil_int_array_free(NULL, 0) && !gutil_int_array_free(NULL, 1) && !gutil_int_array_free_to_ints(NULL) && !gutil_int_array_append(NULL, 1) && !gutil_int_array_append_vals(NULL, &v, 1)
        && !gutil_int_array_prepend(NULL, 1) && !gutil_int_array_prepend_vals(NULL, &v, 1) && !gutil_int_array_insert(NULL, 0, 1) && !gutil_int_array_insert_vals(NULL, 0, &v, 1) && !gutil_int_array_set_count(NULL, 1)
        && gutil_int_array_find(NULL, 0) == -1 && !gutil_int_array_contains(NULL, 0) && !gutil_int_array_remove(NULL, 0) && !gutil_int_array_remove_fast(NULL, 0) && !gutil_int_array_remove_all(NULL, 0) && !gutil_int_array_remove_all_fast(NULL, 0)
        && !gutil_int_array_remove_index(NULL, 0) && !gutil_int_array_remove_index_fast(NULL, 0) && !gutil_int_array_remove_range(NULL, 0, 1), "NULL array");
    gutil_int_array_unref(NULL); gutil_int_array_sort_ascending(NULL); gutil_int_array_sort_descending(NULL);
    do { run(); k++; } while (more(1));
    printf("ok: %ld random histories\n", k);
    return 0;
}
