#include "common.h"
#include <gutil_history.h>
static gint64 now_;
static gint64 clk(void) { return now_; }
typedef struct { gint64 t; int v; } S;
static S m[4096]; static int n, cap; static gint64 iv;
static void flush(void) { int d = 0; while (d < n && m[d].t < now_ - iv) d++; memmove(m, m + d, (n - d) * sizeof(S)); n -= d; }
static int mean(void) {
    gint64 a = 0; int i;
    if (n == 1) return m[0].v;
    for (i = 1; i < n; i++) a += (m[i].t - m[i - 1].t) * ((gint64)m[i].v + m[i - 1].v) / 2;
    return (int)(a / (m[n - 1].t - m[0].t));
}
static void run(void) {
    static const gint64 spans[] = { 3, 20, 1000, 1000000, 2000000000, (gint64)1 << 40, (gint64)1 << 50 };
    gint64 span = spans[rn(7)];
    gint64 vmax = span > 2000000000 ? 1000 : INT_MAX;
    int k, len = 5 + rn(60);
    GUtilIntHistory* h;
    n = 0; cap = 1 + small(6); if (cap > 4000) cap = 4000;
    iv = rn(5) ? 1 + (gint64)(rnd() % span) : rn(2) ? 1 : INT64_MAX; now_ = rn(3) ? (gint64)(rnd() % 1000) : 0;
    trace_reset();
    TR("new(%d,%lld);", cap, (long long)iv);
    CHECK(!gutil_int_history_new(0, iv) && !gutil_int_history_new(-1, iv) && !gutil_int_history_new(cap, 0) && !gutil_int_history_new(cap, -1), "invalid history made");
    h = gutil_int_history_new_full(cap, iv, clk);
    CHECK(h, "no history");
    for (k = 0; k < len; k++) {
        int op = rn(8);
        if (rn(4)) now_ += (gint64)(rnd() % (span / 10 + 2)); else if (!rn(8)) { gint64 b = rn(5); now_ -= MIN(now_, b); } else if (n && !rn(6)) now_ = MAX(0, m[rn(n)].t + MIN(iv, span) + (int)rn(3) - 1);
        if (n && now_ - m[0].t > span) now_ = m[0].t + span;
        TR("@%lld ", (long long)now_);
        if (op < 4) {
            gint64 r = rn(3) ? (gint64)rn(200) - 100 : ri(); int v, x;
            if (r > vmax) r = vmax; if (r < -vmax - 1) r = -vmax - 1; v = (int)r;
            TR("add(%d);", v);
            flush();
            if (!n || now_ > m[n - 1].t) { m[n].t = now_; m[n++].v = v; if (n > cap) { memmove(m, m + 1, (n - 1) * sizeof(S)); n--; } }
            else m[n - 1].v = v;
            x = gutil_int_history_add(h, v);
            CHECK(x == mean(), "add returned %d, expected %d", x, mean());
        } else if (op == 4) {
            guint x; TR("size;"); x = gutil_int_history_size(h); flush(); CHECK(x == n, "size is %u, expected %d", x, n);
        } else if (op == 5) {
            gint64 x; TR("interval;"); x = gutil_int_history_interval(h); flush(); CHECK(x == (n ? now_ - m[0].t : 0), "interval is %lld", (long long)x);
        } else if (op == 6) {
            int d = (int)ri(), x; TR("median;"); x = gutil_int_history_median(h, d); flush(); CHECK(x == (n ? mean() : d), "median is %d, expected %d", x, n ? mean() : d);
        } else if (!rn(4)) { TR("clear;"); gutil_int_history_clear(h); n = 0; }
        else { CHECK(gutil_int_history_ref(h) == h, "ref"); gutil_int_history_unref(h); }
    }
    gutil_int_history_unref(h);
    CHECK(!gutil_int_history_ref(NULL) && !gutil_int_history_size(NULL) && !gutil_int_history_interval(NULL) && gutil_int_history_median(NULL, 42) == 42 && !gutil_int_history_add(NULL, 1), "NULL history");
    gutil_int_history_unref(NULL); gutil_int_history_clear(NULL);
}
int main(int c, char** a) { common_init(); do run(); while (more(1)); return 0; }
