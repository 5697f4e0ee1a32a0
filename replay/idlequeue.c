#include "common.h"
#include <gutil_idlequeue.h>
/* model: the pending entries in order; the batch an entry belongs to (it must not run in the iteration it was added in) */
typedef struct { int id; gsize tag; int fr, has_run, iter; } Ent;
static GUtilIdleQueue* q; static int refs;           /* references held by the test */
static Ent m[4096]; static int n, next_id, iter_, in_run, depth, expect_free = -1, total;
static int nrun[1 << 16], nfree[1 << 16];
static void act(int reentrant);
static int find(int id) { int i; for (i = 0; i < n; i++) if (m[i].id == id) return i; return -1; }
static void del(int i) { memmove(m + i, m + i + 1, (n - i - 1) * sizeof(m[0])); n--; }
static Ent cur;
static void skip(void) { while (in_run && n && m[0].iter < iter_ && !m[0].has_run && !m[0].fr) del(0); }     /* entries without callbacks go silently */
static void on_run(gpointer p) {
    int id = GPOINTER_TO_INT(p);
    CHECK(in_run, "call %d outside of the main loop", id); skip();
    CHECK(expect_free < 0, "clean-up %d is missing", expect_free);
    CHECK(n && m[0].id == id, "call %d made, expected %d", id, n ? m[0].id : -1);
    CHECK(m[0].iter < iter_, "call %d made in the iteration it was added in", id);
    CHECK(m[0].has_run && !nrun[id]++, "call %d repeated or not wanted", id);
    cur = m[0]; del(0); TR("run%d{", id);
    expect_free = cur.fr ? id : -1;
    if (depth < 2 && rn(2)) { depth++; act(1); depth--; }
    TR("}");
}
static void on_free(gpointer p) {
    int id = GPOINTER_TO_INT(p), i; if (expect_free != id) skip(); i = find(id);
    CHECK(!nfree[id]++, "clean-up %d repeated", id);
    CHECK(expect_free == id || (i == 0 && in_run && !m[0].has_run && m[0].iter < iter_), "clean-up %d not expected", id);
    if (expect_free == id) expect_free = -1; else del(i);
    TR("free%d{", id);
    if (depth < 2 && !rn(4)) { depth++; act(1); depth--; }
    TR("}");
}
/* cancellations, checked through a list of the clean-ups expected in order */
static int cq[4096], ncq, icq, dying; static void add(void);
static void on_free_any(gpointer p) {
    int id = GPOINTER_TO_INT(p);
    if (icq < ncq) { CHECK(cq[icq] == id, "clean-up %d, expected %d", id, cq[icq]); icq++; CHECK(!nfree[id]++, "clean-up %d repeated", id);
        if (!dying && !rn(4) && depth < 2) { TR("free%d{", id); depth++; add(); depth--; TR("}"); } return; }
    on_free(p);
}
static void settle(const char* w) { CHECK(icq == ncq, "%s: %d clean-ups missing", w, ncq - icq); icq = ncq = 0; }
static void tags(void) { gsize t; int i; for (t = 0; t < 4; t++) { for (i = 0; i < n && m[i].tag != t; i++); CHECK(!!gutil_idle_queue_contains_tag(q, t) == (i < n), "contains tag %d", (int)t); } }
static void add(void) {
    int id = next_id++, k = rn(4), r = rn(8) > 0; gsize t = (k & 1) ? rn(4) : 0; int fr = (k & 2) && rn(5);
    Ent e; e.id = id; e.tag = t; e.fr = fr; e.has_run = r; e.iter = iter_;
    if (n > 4000 || next_id > 60000) return;
    TR("add(%d,%d,%d,%d);", id, (int)t, r, fr); m[n++] = e; total++;
    if (k == 0) gutil_idle_queue_add(q, r ? on_run : NULL, GINT_TO_POINTER(id));
    else if (k == 1) gutil_idle_queue_add_tag(q, t, r ? on_run : NULL, GINT_TO_POINTER(id));
    else if (k == 2) gutil_idle_queue_add_full(q, r ? on_run : NULL, GINT_TO_POINTER(id), fr ? on_free_any : NULL);
    else gutil_idle_queue_add_tag_full(q, t, r ? on_run : NULL, GINT_TO_POINTER(id), fr ? on_free_any : NULL);
}
static void act(int re) {
    int c = 1 + rn(3), i;
    if (ncq) return;            /* not from within a cancellation */
    while (c-- && q) switch (rn(9)) {
    case 0: case 1: case 2: case 3: add(); break;
    case 4: { gsize t = rn(4); int g; for (i = 0; i < n && m[i].tag != t; i++);
        TR("cancel_tag(%d);", (int)t); if (i < n) { if (m[i].fr) { cq[0] = m[i].id; ncq = 1; icq = 0; } g = 1; del(i); } else g = 0;
        CHECK(!!gutil_idle_queue_cancel_tag(q, t) == g, "cancel tag %d", (int)t); settle("cancel_tag"); break; }
    case 5: if (rn(3)) break; TR("cancel_all;"); for (i = 0; i < n; i++) if (m[i].fr) cq[ncq++] = m[i].id; n = 0; gutil_idle_queue_cancel_all(q); settle("cancel_all"); break;
    case 6: TR("ref;"); CHECK(gutil_idle_queue_ref(q) == q, "ref"); refs++; break;
    case 7: if (refs > 1) { TR("unref;"); refs--; gutil_idle_queue_unref(q); } break;
    default:
        if (rn(re ? 12 : 8)) break;
        /* the last reference goes: everything pending is cancelled (if not running, at once) */
        TR("free;"); dying = 1; while (refs > 1) { refs--; gutil_idle_queue_unref(q); }
        for (i = 0; i < n; i++) if (m[i].fr) cq[ncq++] = m[i].id; n = 0;
        if (rn(2) || in_run) gutil_idle_queue_free(q); else gutil_idle_queue_unref(q);
        settle("free"); dying = 0; q = NULL; refs = 0; break;
    }
    if (q) tags();
}
static void run(void) {
    int k, len = 3 + rn(12), i;
    trace_reset(); n = next_id = 0; iter_ = 1; memset(nrun, 0, sizeof(int) * 2048); memset(nfree, 0, sizeof(int) * 2048); total = 0;
    q = gutil_idle_queue_new(); refs = 1; cur.id = -1; expect_free = -1;
    for (k = 0; k < len && q && next_id < 1500; k++) {
        act(0);
        if (!q) break;
        if (rn(2)) {
            int had = n; iter_++; TR("iterate["); in_run = 1;
            int did = g_main_context_iteration(NULL, FALSE); in_run = 0; TR("]");
            /* entries without callbacks disappear silently */
            for (i = 0; i < n; ) if (m[i].iter < iter_ && !m[i].has_run && !m[i].fr) del(i); else i++;
            CHECK(!had || did, "nothing was scheduled for %d entries", had);
            for (i = 0; i < n; i++) CHECK(m[i].iter >= iter_, "call %d was not made", m[i].id);
            CHECK(expect_free < 0, "clean-up %d is missing", expect_free);
        }
    }
    if (q) { dying = 1; while (refs > 1) { refs--; gutil_idle_queue_unref(q); } for (i = 0; i < n; i++) if (m[i].fr) cq[ncq++] = m[i].id; n = 0; gutil_idle_queue_free(q); settle("end"); q = NULL; dying = 0; }
    in_run = 0; while (g_main_context_pending(NULL)) { CHECK(g_main_context_iteration(NULL, FALSE), "iteration"); }
}
static int nf; static void cnt(gpointer p) { nf++; }
int main(int c, char** a) {
    common_init();
    gutil_idle_queue_add_full(NULL, on_run, &nf, cnt); CHECK(nf == 1, "NULL queue: clean-up");
    gutil_idle_queue_add(NULL, on_run, &nf); gutil_idle_queue_cancel_all(NULL); CHECK(!gutil_idle_queue_cancel_tag(NULL, 0) && !gutil_idle_queue_contains_tag(NULL, 0) && !gutil_idle_queue_ref(NULL), "NULL queue");
    gutil_idle_queue_unref(NULL); gutil_idle_queue_free(NULL);
    do run(); while (more(1)); return 0;
}
