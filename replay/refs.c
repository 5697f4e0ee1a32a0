/* Reference counted objects: random histories of references; released exactly at the last, by the sanitizer and by release functions. */
#include "common.h"
#include <sanitizer/asan_interface.h>
#include <glib-object.h>
#include <gutil_weakref.h>
#include <gutil_ints.h>
#include <gutil_ring.h>
#include <gutil_history.h>
#include <gutil_idlequeue.h>
#include <gutil_idlepool.h>

/* what the code gives back is kept for a while: nothing may write there any more, whoever does it */
static struct { unsigned char* p; gsize n; unsigned char was[256]; } kept[64]; static int nkept;
void g_slice_free1(gsize n, gpointer p) { if (!p) return; if (nkept < 64 && n <= 256) { memcpy(kept[nkept].was, p, n); kept[nkept].p = p; kept[nkept++].n = n; __asan_poison_memory_region(p, n); } else g_free(p); }
static void settle(void) { gsize i; while (nkept > 0) { nkept--; __asan_unpoison_memory_region(kept[nkept].p, kept[nkept].n); for (i = 0; i < kept[nkept].n; i++) CHECK(kept[nkept].p[i] == kept[nkept].was[i], "released memory written to"); g_free(kept[nkept].p); } }

static int released; static void on_release(gpointer p) { released++; }
#define WALK(T, o, check) do { int refs = 1, i_, n_ = 1 + rn(12); \
    for (i_ = 0; i_ < n_; i_++) { if (rn(2)) { TR("ref "); CHECK(T##_ref(o) == o, "ref returns another object"); refs++; } else if (refs > 1) { TR("unref "); T##_unref(o); refs--; } check; CHECK(!released, "released with %d references", refs); } \
    while (refs > 1) { TR("unref "); T##_unref(o); refs--; check; CHECK(!released, "released with %d references", refs); } \
    TR("last unref"); T##_unref(o); } while (0)

static void weak(void) {
    GObject* g[2] = { NULL, NULL }; GUtilWeakRef* r; int cur, refs = 1, i, n = rn(16), k; gpointer p;
    for (k = 0; k < 2; k++) g[k] = g_object_new(G_TYPE_OBJECT, NULL);
    cur = (int)rn(3) - 1; r = gutil_weakref_new(cur < 0 ? NULL : g[cur]); TR("weak reference to %d: ", cur);
    for (i = 0; i < n; i++) { switch (rn(6)) {
        case 0: TR("ref "); CHECK(gutil_weakref_ref(r) == r, "ref returns another object"); refs++; break;
        case 1: if (refs > 1) { TR("unref "); gutil_weakref_unref(r); refs--; } break;
        case 2: k = (int)rn(3) - 1; if (k >= 0 && !g[k]) k = -1; TR("set %d ", k); gutil_weakref_set(r, k < 0 ? NULL : g[k]); cur = k; break;
        case 3: k = rn(2); if (g[k] && !rn(2)) { TR("object %d dies ", k); g_object_unref(g[k]); g[k] = NULL; if (cur == k) cur = -1; } break;
        default: TR("get "); p = gutil_weakref_get(r); CHECK(p == (cur < 0 ? NULL : g[cur]), "got %p, expected object %d", p, cur); if (p) { CHECK(G_OBJECT(p)->ref_count >= 2, "no reference"); g_object_unref(p); } } }
    while (refs--) { TR("unref "); gutil_weakref_unref(r); }
    for (k = 0; k < 2; k++) if (g[k]) { CHECK(g[k]->ref_count == 1, "object %d has %d references", k, g[k]->ref_count); g_object_unref(g[k]); }
    settle();
    CHECK(!gutil_weakref_ref(NULL) && !gutil_weakref_get(NULL), "NULL"); gutil_weakref_unref(NULL); gutil_weakref_set(NULL, NULL);
}
static void* mem(int n) { void* p = g_malloc(n); memset(p, 1, n); return p; }
static void mfree(gpointer p) { released++; g_free(p); }

int main(int argc, char** argv) {
    long k = 0; common_init();
    do { trace_reset(); released = 0;
        switch (rn(6)) {
        case 0: case 1: weak(); break;
        case 2: { int n = 1 + rn(4), *d = mem(n * sizeof(int)); GUtilInts* o = gutil_ints_new_with_free_func(d, n, mfree, d); GUtilInts* s = rn(2) && n > 1 ? gutil_ints_new_from_ints(o, 1, n - 1) : NULL; guint m; TR("%d ints%s: ", n, s ? ", a slice" : "");
            WALK(gutil_ints, o, CHECK(gutil_ints_get_data(o, &m) == d && m == n && d[n - 1] == 0x01010101, "data")); if (s) { CHECK(!released && gutil_ints_get_data(s, &m) == d + 1 && d[1] == 0x01010101, "slice lost its data"); gutil_ints_unref(s); }
            CHECK(released == 1, "%d releases", released); CHECK(!gutil_ints_ref(NULL), "NULL"); gutil_ints_unref(NULL); break; }
        case 3: { GUtilRing* o = gutil_ring_new_full(rn(3), -1, mfree); int n = rn(5), i; TR("ring of %d: ", n); for (i = 0; i < n; i++) gutil_ring_put(o, mem(1)); for (i = 0; i < (int)rn(3); i++) { gpointer p = gutil_ring_get(o); if (p) { g_free(p); n--; } if (rn(2)) { gutil_ring_put(o, mem(1)); n++; } }
            WALK(gutil_ring, o, CHECK(gutil_ring_size(o) == n, "size")); CHECK(released == n, "%d releases of %d", released, n); CHECK(!gutil_ring_ref(NULL), "NULL"); gutil_ring_unref(NULL); break; }
        case 4: { GUtilIntHistory* o = gutil_int_history_new(1 + rn(4), 1000000); TR("history: "); gutil_int_history_add(o, 5); WALK(gutil_int_history, o, CHECK(gutil_int_history_size(o) == 1, "size")); CHECK(!gutil_int_history_ref(NULL), "NULL"); gutil_int_history_unref(NULL); break; }
        default: if (rn(2)) { GUtilIdlePool* o = gutil_idle_pool_new(); int n = rn(4), i; TR("pool of %d: ", n);
                for (i = 0; i < n; i++) gutil_idle_pool_add(o, mem(1), mfree); WALK(gutil_idle_pool, o, (void)0); if (released != n) while (g_main_context_iteration(NULL, FALSE)); CHECK(released == n, "%d releases of %d", released, n); CHECK(!gutil_idle_pool_ref(NULL), "NULL"); gutil_idle_pool_unref(NULL); }
            else { GUtilIdleQueue* o = gutil_idle_queue_new(); int n = rn(4), i; TR("queue of %d: ", n); for (i = 0; i < n; i++) gutil_idle_queue_add_full(o, on_release, mem(1), g_free);
                WALK(gutil_idle_queue, o, CHECK(gutil_idle_queue_contains_tag(o, 0) == (n > 0), "contents")); while (g_main_context_iteration(NULL, FALSE)); CHECK(!released, "called after the queue is gone"); CHECK(!gutil_idle_queue_ref(NULL), "NULL"); gutil_idle_queue_unref(NULL); } }
        settle(); k++; } while (more(1));
    printf("ok: %ld random cases\n", k);
    return 0;
}
