#include "common.h"
#include <glib-object.h>
#include <gutil_idlepool.h>
/* every item added is released exactly once: when the pool is drained or goes away, or by the main loop, never before */
static GMainContext* ctx; static GUtilIdlePool *pool, *shared; static int refs, next_id, pending, draining, depth, isdefault;
static unsigned char rel[1 << 14]; static int items[1 << 14];
static void act(int re);
static void on_release(gpointer p) {
    int id = GPOINTER_TO_INT(p);
    CHECK(draining, "item %d is released too early", id);
    CHECK(id < next_id && !rel[id], "item %d is released twice", id);
    rel[id] = 1; pending--; TR("release%d{", id);
    if (depth < 2 && !rn(4) && pool) { depth++; act(1); depth--; }
    TR("}");
}
static void free_obj(gpointer data, GObject* o) { on_release(data); }
static void add(void) {
    int id = next_id, k = rn(7); GUtilIdlePool* p = isdefault && rn(2) ? NULL : pool; gpointer x;
    if (id > 12000) return;
    next_id++; pending++; TR("add(%d,%d);", id, k);
    if (k == 1) {
        GObject* o = g_object_new(G_TYPE_OBJECT, NULL); g_object_weak_ref(o, free_obj, GINT_TO_POINTER(id));
        CHECK(gutil_idle_pool_add_object(p, o) == o, "add_object");
    } else if (k == 2) {
        GBytes* b = g_bytes_new_with_free_func("x", 1, on_release, GINT_TO_POINTER(id));
        if (rn(2)) CHECK(gutil_idle_pool_add_bytes(p, b) == b, "add_bytes"); else { CHECK(gutil_idle_pool_add_bytes_ref(p, b) == b, "add_bytes_ref"); g_bytes_unref(b); }
    } else if (k == 3) {
        GPtrArray* a = g_ptr_array_new_with_free_func(on_release); g_ptr_array_add(a, GINT_TO_POINTER(id));
        if (rn(2)) CHECK(gutil_idle_pool_add_ptr_array(p, a) == a, "add_ptr_array"); else { CHECK(gutil_idle_pool_add_ptr_array_ref(p, a) == a, "add_ptr_array_ref"); g_ptr_array_unref(a); }
    } else if (k == 4) {
        GVariant* v = g_variant_ref_sink(g_variant_new_from_data(G_VARIANT_TYPE_BYTE, "x", 1, TRUE, on_release, GINT_TO_POINTER(id)));
        if (rn(2)) CHECK(gutil_idle_pool_add_variant(p, v) == v, "add_variant"); else { CHECK(gutil_idle_pool_add_variant_ref(p, v) == v, "add_variant_ref"); g_variant_unref(v); }
    } else if (k == 5) {
        GObject* o = g_object_new(G_TYPE_OBJECT, NULL); g_object_weak_ref(o, free_obj, GINT_TO_POINTER(id));
        CHECK(gutil_idle_pool_add_object_ref(p, o) == o, "add_object_ref"); g_object_unref(o);
    } else {
        x = GINT_TO_POINTER(id); CHECK(gutil_idle_pool_add(p, x, on_release) == x, "add");
        if (!rn(4)) { char** sv = g_strsplit("a b", " ", 0); CHECK(gutil_idle_pool_add_strv(p, sv) == sv, "add_strv"); }       /* checked by the leak detector */
    }
    if (!rn(8)) { CHECK(gutil_idle_pool_add(p, &x, NULL) == &x && !gutil_idle_pool_add_object(p, NULL) && !gutil_idle_pool_add_strv(p, NULL) && !gutil_idle_pool_add_bytes_ref(p, NULL), "nothing"); }
}
static void act(int re) {
    int c = 1 + rn(3), d;
    while (c-- && pool) switch (rn(8)) {
    default: add(); break;
    case 5: TR("ref;"); CHECK(gutil_idle_pool_ref(pool) == pool, "ref"); refs++; break;
    case 6: if (refs > 1) { TR("unref;"); refs--; gutil_idle_pool_unref(pool); } break;
    case 7:
        if (re ? rn(3) : rn(2)) break;
        TR("drain["); d = draining; draining = 1; gutil_idle_pool_drain(isdefault && rn(2) ? NULL : pool); draining = d; TR("]");
        CHECK(re || !pending, "%d items are left after a drain", pending);
    }
}
static void iterate(void) {
    int had = pending; TR("iterate["); draining = 1;
    int did = g_main_context_iteration(ctx, FALSE); draining = 0; TR("]");
    CHECK(!had || did, "nothing was scheduled for %d items", had);
    CHECK(!pending, "%d items are left after the main loop ran", pending);
}
static void run(void) {
    int k, len = 2 + rn(10), kind = rn(4);
    trace_reset(); next_id = pending = draining = depth = 0; memset(rel, 0, sizeof(rel)); refs = 1; isdefault = 0; shared = NULL;
    ctx = rn(2) ? g_main_context_new() : NULL;
    if (ctx) g_main_context_push_thread_default(ctx);
    TR("context%d kind%d;", ctx != NULL, kind);
    if (kind == 0) { pool = gutil_idle_pool_get(&shared); CHECK(pool == shared && gutil_idle_pool_get(&shared) == pool, "shared"); gutil_idle_pool_ref(pool); }
    else if (kind == 1) { pool = gutil_idle_pool_get_default(); CHECK(pool == gutil_idle_pool_get_default(), "default"); gutil_idle_pool_ref(pool); isdefault = 1; }
    else pool = kind == 2 ? gutil_idle_pool_get(NULL) : gutil_idle_pool_new();
    for (k = 0; k < len && next_id < 8000; k++) { act(0); if (!rn(3)) iterate(); }
    if (isdefault) { draining = 1; gutil_idle_pool_drain(NULL); }
    draining = 1; TR("end[");
    while (refs > 1) { refs--; gutil_idle_pool_unref(pool); }
    k = rn(3); { GUtilIdlePool* p = pool; pool = NULL; if (k) gutil_idle_pool_destroy(p); else if (kind != 1) { gutil_idle_pool_drain(p); gutil_idle_pool_unref(p); } else gutil_idle_pool_unref(p); }
    while (g_main_context_pending(ctx)) g_main_context_iteration(ctx, FALSE);
    TR("]");
    CHECK(!pending, "%d items were never released", pending);
    CHECK(!shared, "the shared pointer is stale");
    if (ctx) { g_main_context_pop_thread_default(ctx); g_main_context_unref(ctx); }
}
/* last reference dropped with items pending and no source to run: released then */
static void dropped(void) {
    GMainContext* c = g_main_context_new(); int n = 1 + rn(4);
    trace_reset(); TR("context destroyed with %d items pending, then the last reference dropped;", n);
    next_id = pending = 0; memset(rel, 0, sizeof(rel)); pool = NULL;
    g_main_context_push_thread_default(c);
    GUtilIdlePool* p = gutil_idle_pool_new(); draining = 0;
    while (n--) { int id = next_id++; pending++; gutil_idle_pool_add(p, GINT_TO_POINTER(id), on_release); }
    g_main_context_pop_thread_default(c); g_main_context_unref(c);
    CHECK(pending == next_id, "released too early");
    if (rn(2)) { int id = next_id++; pending++; gutil_idle_pool_add(p, GINT_TO_POINTER(id), on_release); draining = 1; CHECK(g_main_context_iteration(NULL, FALSE) && !pending, "item added after its context went away is not released"); }
    draining = 1; gutil_idle_pool_unref(p);
    while (g_main_context_pending(NULL)) g_main_context_iteration(NULL, FALSE);
    CHECK(!pending, "%d items were never released", pending);
}
static gpointer thr(gpointer x) { pool = gutil_idle_pool_get_default(); return pool; }
int main(int c, char** a) {
    common_init();
    gutil_idle_pool_unref(NULL); gutil_idle_pool_destroy(NULL); CHECK(!gutil_idle_pool_ref(NULL), "NULL");
    thr(NULL);
    do { run(); if (!rn(4)) dropped(); } while (more(1)); return 0;
}
