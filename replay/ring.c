#include "common.h"
#include <gutil_ring.h>
#include <unistd.h>
#define MX 20000
typedef struct { gpointer e[MX]; int n, max, ff, refs; GUtilRing* r; } M;
static gpointer freed[MX]; static int nfreed;
static gpointer fr2[MX]; static int nfr2;
static void ff(gpointer p) { if (nfreed < MX) freed[nfreed++] = p; }
static void ff2(gpointer p) { if (nfr2 < MX) fr2[nfr2++] = p; }
static M m;

static void verify(void) {
    int i;
    CHECK(gutil_ring_size(m.r) == m.n, "size %d, expected %d", gutil_ring_size(m.r), m.n);
    CHECK(gutil_ring_max_size(m.r) == m.max, "max size %d, expected %d", gutil_ring_max_size(m.r), m.max);
    for (i = 0; i < m.n; i++) CHECK(gutil_ring_data_at(m.r, i) == m.e[i], "element %d is wrong", i);
    CHECK(!gutil_ring_data_at(m.r, m.n) && !gutil_ring_data_at(m.r, -1) && !gutil_ring_data_at(m.r, INT_MAX) && !gutil_ring_data_at(m.r, INT_MIN), "out of range position is not NULL");
    for (i = 0; i < 4; i++) {
        int n = i == 0 ? small(8) : i == 1 ? INT_MAX : i == 2 ? (int)(ri() & INT_MAX) : 1;
        gboolean want = m.max < 0 || (gint64)m.n + n <= m.max;
        CHECK(!gutil_ring_can_put(m.r, n) == !want, "can_put(%d)", n);
    }
}
static void expect_freed(int first, int n, int step) {
    int i;
    gpointer* f = m.ff == 2 ? fr2 : freed; int k = m.ff == 2 ? nfr2 : nfreed; int other = m.ff == 2 ? nfreed : nfr2;
    if (!m.ff) n = 0, other = nfreed + nfr2, k = 0;
    CHECK(k == n && !other, "%d elements freed, expected %d", k + other, n);
    for (i = 0; i < n; i++) CHECK(f[i] == m.e[first + i * step], "wrong element freed");
    nfreed = nfr2 = 0;
}
static void cut(int first, int n) { memmove(m.e + first, m.e + first + n, (m.n - first - n) * sizeof(gpointer)); m.n -= n; }
static uintptr_t serial = 16;

static void run(void) {
    int reserved = rn(3) ? 0 : small(7), max = rn(2) ? -1 - (int)rn(3) : small(7), k, len = 1 + rn(rn(4) ? 12 : 120);
    int how = rn(3);
    trace_reset(); nfreed = nfr2 = 0;
    m.ff = rn(2);
    if (how == 0) { m.r = gutil_ring_new(); m.ff = 0; m.max = -1; TR("new();"); }
    else if (how == 1) { m.r = gutil_ring_sized_new(reserved, max); m.ff = 0; m.max = max < 0 ? -1 : max; TR("sized_new(%d,%d);", reserved, max); }
    else { m.r = gutil_ring_new_full(reserved, max, m.ff ? ff : NULL); m.max = max < 0 ? -1 : max; TR("new_full(%d,%d,%d);", reserved, max, m.ff); }
    m.n = 0; m.refs = 1;
    verify();
    for (k = 0; k < len; k++) {
        int op = rn(19), n, d, i; gpointer x; gboolean want, ok;
        switch (op) {
        case 0: case 1: case 2: case 3:
            n = 1 + small(3);
            if (m.n > MX / 2) n = 1;
            while (n-- > 0) {
                x = (gpointer)(serial += 8); want = m.max < 0 || m.n < m.max;
                if (!rn(8)) x = NULL;
                if (op < 3) { TR("put;"); ok = gutil_ring_put(m.r, x); if (want) m.e[m.n++] = x; }
                else { TR("put_front;"); ok = gutil_ring_put_front(m.r, x); if (want) { memmove(m.e + 1, m.e, m.n * sizeof(gpointer)); m.e[0] = x; m.n++; } }
                CHECK(!ok == !want, "put returned %d, expected %d", ok, want);
                if (rn(2)) verify();
            }
            break;
        case 4: case 5: TR("get;"); x = gutil_ring_get(m.r); CHECK(x == (m.n ? m.e[0] : NULL), "get"); if (m.n) cut(0, 1); break;
        case 6: TR("get_last;"); x = gutil_ring_get_last(m.r); CHECK(x == (m.n ? m.e[m.n - 1] : NULL), "get_last"); if (m.n) m.n--; break;
        case 7: case 8: n = rn(8) ? small(m.n + 2) : (int)ri(); TR("drop(%d);", n);
            d = n < 0 ? 0 : n < m.n ? n : m.n; i = gutil_ring_drop(m.r, n); CHECK(i == d, "drop returned %d, expected %d", i, d);
            expect_freed(0, d, 1); cut(0, d); break;
        case 9: n = rn(8) ? small(m.n + 2) : (int)ri(); TR("drop_last(%d);", n);
            d = n < 0 ? 0 : n < m.n ? n : m.n; i = gutil_ring_drop_last(m.r, n); CHECK(i == d, "drop_last returned %d, expected %d", i, d);
            if (d == m.n) expect_freed(0, d, 1); else expect_freed(m.n - 1, d, -1);
            m.n -= d; break;
        case 10: if (rn(3)) break; TR("clear;"); gutil_ring_clear(m.r); expect_freed(0, m.n, 1); m.n = 0; break;
        case 11: TR("compact;"); gutil_ring_compact(m.r); break;
        case 12: n = rn(4) ? small(10) : -small(4); TR("reserve(%d);", n); ok = gutil_ring_reserve(m.r, n);
            if (m.max < 0 || n <= m.max) CHECK(ok, "reserve(%d) failed", n); break;
        case 13: case 14: { gpointer* p; gint s = -5; TR("flatten;"); p = gutil_ring_flatten(m.r, &s); CHECK(s == m.n && !p == !m.n, "flatten size %d", s);
            for (i = 0; i < m.n; i++) CHECK(p[i] == m.e[i], "flatten element %d", i);
            CHECK(gutil_ring_flatten(m.r, NULL) == p, "second flatten"); break; }
        case 15: n = rn(3) ? small(m.n + 3) : -1 - (int)rn(2); TR("set_max_size(%d);", n); gutil_ring_set_max_size(m.r, n);
            d = (n >= 0 && m.n > n) ? m.n - n : 0; expect_freed(0, d, 1); cut(0, d); m.max = n < 0 ? -1 : n; break;
        case 16: TR("ref;"); CHECK(gutil_ring_ref(m.r) == m.r, "ref"); m.refs++; break;
        case 17: if (m.refs > 1) { TR("unref;"); gutil_ring_unref(m.r); m.refs--; } break;
        case 18: m.ff = rn(3); TR("set_free_func(%d);", m.ff); gutil_ring_set_free_func(m.r, m.ff == 2 ? ff2 : m.ff ? ff : NULL); break;
        }
        CHECK(!nfreed && !nfr2, "unexpected free function call");
        verify();
    }
    TR("unref*%d;", m.refs);
    while (m.refs > 1) { gutil_ring_unref(m.r); m.refs--; verify(); CHECK(!nfreed && !nfr2, "freed before the last reference is gone"); }
    gutil_ring_unref(m.r); expect_freed(0, m.n, 1);
}
int main(int argc, char** argv) {
    gint s = 7; long n = 0;
    common_init();
    gutil_ring_unref(NULL); gutil_ring_clear(NULL); gutil_ring_compact(NULL); gutil_ring_set_free_func(NULL, ff); gutil_ring_set_max_size(NULL, 1);
    CHECK(!gutil_ring_ref(NULL) && !gutil_ring_size(NULL) && !gutil_ring_max_size(NULL) && !gutil_ring_reserve(NULL, 1) && !gutil_ring_can_put(NULL, 0) && !gutil_ring_put(NULL, &s) &&
        !gutil_ring_put_front(NULL, &s) && !gutil_ring_get(NULL) && !gutil_ring_get_last(NULL) && !gutil_ring_drop(NULL, 1) && !gutil_ring_drop_last(NULL, 1) &&
        !gutil_ring_data_at(NULL, 0) && !gutil_ring_flatten(NULL, &s) && !s, "NULL ring");
    do { run(); n++; } while (more(1));
    printf("ok: %ld random operation histories\n", n);
    return 0;
}
