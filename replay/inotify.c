/* File watches against real files in a scratch directory (the current one). */
#include "common.h"
#include <sys/stat.h>
#include <sys/inotify.h>
#include <fcntl.h>
#include <glib-object.h>
#include <gutil_inotify.h>

#define ND 3
typedef struct { int dir; unsigned mask, cookie; char name[256]; } Ev;
static Ev want[4096]; static int nwant;
static GUtilInotifyWatch* w[ND]; static GUtilInotifyWatchCallback* cb[ND]; static gulong id[ND][3]; static int got[ND][4], nh[ND], cbgot[ND], born[ND][4], cbborn[ND];
static char base[64]; static int victim = -1, victim_at; static int dead[ND], chm; static unsigned scookie[4096];
static char* path(int d, const char* n) { static char p[4][600]; static int k; k = (k + 1) % 4; sprintf(p[k], "%s/d%d%s%s", base, d, n ? "/" : "", n ? n : ""); return p[k]; }
static void hit(GUtilInotifyWatch* x, int d, int* pos, guint mask, guint cookie, const char* name) {
    int i; CHECK(!dead[d], "an event for a destroyed watch");
    for (i = *pos; i < nwant && want[i].dir != d; i++); CHECK(i < nwant, "an unexpected event 0x%x %s for directory %d", mask, name, d);
    CHECK(want[i].mask == mask, "event 0x%x for directory %d, expected 0x%x (%s)", mask, d, want[i].mask, name);
    if (want[i].name[0]) CHECK(name && !strcmp(name, want[i].name), "name '%s', expected '%s'", name, want[i].name); else CHECK(!name, "name '%s', expected none", name);
    if (want[i].cookie) { if (!scookie[want[i].cookie]) scookie[want[i].cookie] = cookie; CHECK(cookie && scookie[want[i].cookie] == cookie, "cookie %u", cookie); } else CHECK(!cookie, "cookie %u, expected none", cookie);
    *pos = i + 1;
    if (d == victim && !--victim_at) { int v; victim = -1; TR("[destroy from callback] "); for (v = 0; v < 3; v++) nh[d] = 0; dead[d] = 1; w[d] = NULL; gutil_inotify_watch_destroy(x); }
}
#define H(k) static void h##k(GUtilInotifyWatch* x, guint m, guint c, const char* n, void* arg) { int d = GPOINTER_TO_INT(arg); hit(x, d, &got[d][k], m, c, n); }
H(0) H(1) H(2)
static void hc(GUtilInotifyWatch* x, guint m, guint c, const char* n, void* arg) { int d = GPOINTER_TO_INT(arg); int v = victim; victim = -1; hit(x, d, &cbgot[d], m, c, n); victim = v; }
static void add(int d, unsigned m, unsigned c, const char* n) { Ev* e = want + nwant++; e->dir = d; e->mask = m; e->cookie = c; strcpy(e->name, n); }
#define MASK_ (IN_CREATE | IN_DELETE | IN_MOVED_FROM | IN_MOVED_TO | IN_ATTRIB | IN_DELETE_SELF)
static void settle(void) { int i, k; chm = 0; /* identical events in a row are merged by the kernel: one chmod at a time */ for (i = 0; i < 60; i++) g_main_context_iteration(NULL, FALSE);
    for (i = 0; i < ND; i++) if (w[i]) for (k = 0; k < nh[i]; k++) { int j; for (j = got[i][k]; j < nwant; j++) CHECK(want[j].dir != i, "an event of directory %d was not delivered: 0x%x %s", i, want[j].mask, want[j].name); }
    for (i = 0; i < ND; i++) if (cb[i]) { int j; for (j = cbgot[i]; j < nwant; j++) CHECK(want[j].dir != i, "an event of directory %d was not delivered to the callback object", i); } }

int main(int argc, char** argv) {
    long k = 0; int d, i; common_init(); { char cwd[32]; (void)cwd; sprintf(base, "ino.XXXXXX"); if (!mkdtemp(base)) { printf("ok: no scratch directory\n"); return 0; } }
    { GUtilInotifyWatch* t = gutil_inotify_watch_new(base, IN_CREATE); if (!t) { rmdir(base); printf("ok: no inotify here\n"); return 0; } CHECK(gutil_inotify_watch_ref(t) == t, "ref"); gutil_inotify_watch_unref(t); gutil_inotify_watch_destroy(t); }
    CHECK(!gutil_inotify_watch_new(NULL, 1) && !gutil_inotify_watch_ref(NULL) && !gutil_inotify_watch_add_handler(NULL, h0, NULL) && !gutil_inotify_watch_callback_new(NULL, 1, h0, NULL), "NULL"); gutil_inotify_watch_unref(NULL); gutil_inotify_watch_destroy(NULL); gutil_inotify_watch_remove_handler(NULL, 1); gutil_inotify_watch_callback_free(NULL);
    do { int n = 3 + rn(25), cookie = 0; char name[4][256]; int has[ND][4]; trace_reset(); nwant = 0; victim = -1; memset(got, 0, sizeof got); memset(cbgot, 0, sizeof cbgot); memset(has, 0, sizeof has); memset(dead, 0, sizeof dead); memset(scookie, 0, sizeof scookie);
        for (i = 0; i < 4; i++) { int l = i == 3 ? 200 + rn(55) : 1 + rn(40), j; for (j = 0; j < l; j++) name[i][j] = 'a' + rn(26); name[i][0] = 'a' + i; name[i][l] = 0; }
        for (d = 0; d < ND; d++) { mkdir(path(d, NULL), 0700); w[d] = cb[d] = NULL; nh[d] = 0;
            if (d == 2) { if (rn(2)) { cb[d] = gutil_inotify_watch_callback_new(path(d, NULL), MASK_, hc, GINT_TO_POINTER(d)); CHECK(cb[d], "no callback"); TR("callback object for %d; ", d); continue; } }
            if (rn(5)) { w[d] = gutil_inotify_watch_new(path(d, NULL), MASK_); CHECK(w[d], "no watch"); nh[d] = rn(4); TR("%d handlers for %d; ", nh[d], d); for (i = 0; i < nh[d]; i++) id[d][i] = gutil_inotify_watch_add_handler(w[d], i == 0 ? h0 : i == 1 ? h1 : h2, GINT_TO_POINTER(d)); CHECK(!gutil_inotify_watch_add_handler(w[d], NULL, NULL), "NULL handler"); } }
        CHECK(!gutil_inotify_watch_new(path(0, "nosuch"), MASK_), "watch of nothing");
        for (i = 0; i < n; i++) { int f = rn(4), e; d = rn(ND);
            switch (rn(9)) {
            case 0: case 1: case 2: if (!has[d][f]) { int fd = open(path(d, name[f]), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); has[d][f] = 1; add(d, IN_CREATE, 0, name[f]); TR("create %d/%d ", d, f); } break;
            case 3: case 4: if (has[d][f]) { unlink(path(d, name[f])); has[d][f] = 0; add(d, IN_DELETE, 0, name[f]); TR("delete %d/%d ", d, f); } break;
            case 5: e = rn(ND); if (e != d && has[d][f] && !has[e][f]) { rename(path(d, name[f]), path(e, name[f])); has[d][f] = 0; has[e][f] = 1; cookie++; add(d, IN_MOVED_FROM, cookie, name[f]); add(e, IN_MOVED_TO, cookie, name[f]); TR("move %d/%d to %d ", d, f, e); } break;
            case 6: if (!chm && rn(2)) { chm = 1; chmod(path(d, NULL), rn(2) ? 0700 : 0750); add(d, IN_ATTRIB | IN_ISDIR, 0, ""); TR("chmod %d ", d); } break;
            case 7: TR("settle "); settle(); if (w[d] && nh[d] && rn(2)) { TR("remove a handler of %d ", d); gutil_inotify_watch_remove_handler(w[d], id[d][--nh[d]]); gutil_inotify_watch_remove_handler(w[d], 0); } break;
            case 8: if (rn(3)) break; TR("settle "); settle(); if (w[d] && rn(2)) { TR("destroy %d ", d); gutil_inotify_watch_destroy(w[d]); w[d] = NULL; nh[d] = 0; dead[d] = 1; } else if (w[d] && nh[d] == 1) { victim = d; victim_at = 1 + rn(3); } break; } }
        settle(); victim = -1;
        for (d = 0; d < ND; d++) { if (w[d]) gutil_inotify_watch_destroy(w[d]); if (cb[d]) gutil_inotify_watch_callback_free(cb[d]); w[d] = NULL; cb[d] = NULL; for (i = 0; i < 4; i++) if (has[d][i]) unlink(path(d, name[i])); rmdir(path(d, NULL)); }
        for (i = 0; i < 3; i++) g_main_context_iteration(NULL, FALSE);
        k++; } while (more(1));
    rmdir(base);
    printf("ok: %ld random histories\n", k);
    return 0;
}
