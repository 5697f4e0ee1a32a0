/* Clock notifications with a stand-in for the timer: an eventfd which becomes readable when the (imagined) clock is set. */
#include "common.h"
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <unistd.h>
#include <fcntl.h>
#include <glib-object.h>
#include <gutil_timenotify.h>
#include <gutil_log.h>

static int efd = -1, created, armed, flags_bad, fail_create, fail_set;
int timerfd_create(int clk, int fl) { CHECK(clk == CLOCK_REALTIME, "clock %d", clk); if (fail_create) return -1; created++; efd = eventfd(0, EFD_NONBLOCK); return efd; }
int timerfd_settime(int fd, int fl, const struct itimerspec* n, struct itimerspec* o) { CHECK(fd == efd, "another descriptor is armed"); CHECK(fl == 3, "armed with flags %d", fl);
    CHECK(n->it_value.tv_sec > 9000000000L && n->it_value.tv_nsec >= 0 && n->it_value.tv_nsec < 1000000000 && n->it_interval.tv_nsec >= 0 && n->it_interval.tv_nsec < 1000000000 && n->it_interval.tv_sec >= 0, "armed for an early time"); armed++; return fail_set ? -1 : 0; }
#define NH 6
static GUtilTimeNotify* t; static gulong id[NH]; static int calls[NH], want[NH], refs, act, actor;
static void drop(void) { GUtilTimeNotify* x = t; int i; if (!--refs) { t = NULL; for (i = 0; i < NH; i++) id[i] = 0; } gutil_time_notify_unref(x); }
static void changed(GUtilTimeNotify* x, void* arg) { int i = GPOINTER_TO_INT(arg); CHECK(i >= 0 && i < NH, "wrong argument"); CHECK(t ? x == t : 1, "wrong object"); calls[i]++;
    if (i == actor && act) { int a = act; act = 0; switch (a) { case 1: gutil_time_notify_remove_handler(x, id[i]); id[i] = 0; break; case 2: { int n = refs; while (n-- > 1) { refs--; gutil_time_notify_unref(x); } drop(); } break; case 3: refs++; CHECK(gutil_time_notify_new() == x, "another instance"); break;
    case 4: { guint64 v = 1; int j; for (j = 0; j < NH; j++) if (id[j]) want[j]++; if (write(efd, &v, 8) != 8) abort(); } break; } } }
static int closed(int fd) { return fcntl(fd, F_GETFD) < 0; }
static void settle(void) { int i; for (i = 0; i < 20; i++) g_main_context_iteration(NULL, FALSE); for (i = 0; i < NH; i++) CHECK(calls[i] == want[i], "handler %d called %d times, expected %d", i, calls[i], want[i]); }
int main(int argc, char** argv) {
    long k = 0; int i; common_init(); gutil_log_default.level = GLOG_LEVEL_NONE;
    CHECK(!gutil_time_notify_ref(NULL) && !gutil_time_notify_add_handler(NULL, changed, NULL), "NULL"); gutil_time_notify_unref(NULL); gutil_time_notify_remove_handler(NULL, 1);
    do { int n = 3 + rn(30); trace_reset(); memset(calls, 0, sizeof calls); memset(want, 0, sizeof want); act = 0;
        while (n--) {
            if (!t) { int was = created; fail_create = !rn(12); fail_set = !rn(12); TR("new%s%s ", fail_create ? " (no timer)" : "", fail_set ? " (not armed)" : ""); armed = 0; efd = -1; t = gutil_time_notify_new(); CHECK(t, "no object"); refs = 1; CHECK(created == was + !fail_create && armed == !fail_create, "%d timers, armed %d times", created - was, armed); fail_set = 0; continue; }
            i = rn(NH);
            switch (rn(7)) {
            case 0: { int was = created; TR("new "); CHECK(gutil_time_notify_new() == t, "another instance"); CHECK(created == was, "another timer"); refs++; } break;
            case 1: TR("ref "); CHECK(gutil_time_notify_ref(t) == t, "ref"); refs++; break;
            case 2: if (rn(2)) break; { int fd = efd, last = refs == 1; TR("unref "); drop(); if (last && fd >= 0) CHECK(closed(fd), "the timer is not closed with the last reference"); settle(); } break;
            case 3: if (!id[i]) { TR("add %d ", i); id[i] = gutil_time_notify_add_handler(t, changed, GINT_TO_POINTER(i)); CHECK(id[i], "no handler"); CHECK(!gutil_time_notify_add_handler(t, NULL, NULL), "NULL handler"); } break;
            case 4: if (id[i]) { TR("remove %d ", i); gutil_time_notify_remove_handler(t, id[i]); id[i] = 0; gutil_time_notify_remove_handler(t, 0); } break;
            default: if (efd >= 0) { guint64 v = 1; int j, m = rn(2); if (rn(3) == 0) { act = 1 + rn(4); actor = i; } TR("change%s (action %d of %d) ", m ? " twice" : "", act, i);
                    for (j = 0; j < NH; j++) if (id[j]) want[j]++;
                    if (write(efd, &v, 8) != 8 || (m && write(efd, &v, 8) != 8)) abort();
                    if (act == 2) { /* the handlers after it may have gone with the object, or not */ int a = act, r; for (r = 0; r < 20; r++) g_main_context_iteration(NULL, FALSE); for (j = 0; j < NH; j++) { CHECK(calls[j] <= want[j], "handler %d called too often", j); if (t || j <= 0) CHECK(calls[j] == want[j] || !t, "handler %d not called", j); want[j] = calls[j]; } (void)a; }
                    settle(); act = 0; } break; } }
        act = 0; while (t) { int fd = efd, last = refs == 1; drop(); if (last && fd >= 0) CHECK(closed(fd), "the timer is not closed with the last reference"); }
        settle(); k++; } while (more(1));
    printf("ok: %ld random histories\n", k);
    return 0;
}
