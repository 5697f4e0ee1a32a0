/* Log: level configurations, option parsing, dumps and the stdio sink against independent oracles. */
#include "common.h"
#include <gutil_log.h>
#include <gutil_misc.h>
#include <sys/syscall.h>

static const char* prop;
#define IS(x) (!prop[0] || !strcmp(prop, x))
static GLogModule m[4]; static const char* names[4];
static int hits, lastlevel, lastfn; static const void* lastmod; static char lasttext[4096]; static char** lines; static int nlines;
static void note(int fn, const void* mod, int level, const char* f, va_list va) { hits++; lastfn = fn; lastmod = mod; lastlevel = level; vsnprintf(lasttext, sizeof lasttext, f, va);
    if (lines) { lines = g_renew(char*, lines, nlines + 1); lines[nlines++] = g_strdup(lasttext); } }
static void sink2(const GLogModule* mod, int level, const char* f, va_list va) { note(2, mod, level, f, va); }
static void proc0(const GLogModule* mod, int level, const char* f, va_list va) { note(10, mod, level, f, va); }
static void sink1(const char* name, int level, const char* f, va_list va) { note(1, name, level, f, va); }
static int rlevel(void) { static const int v[] = { -2, -1, 0, 1, 2, 3, 4, 5, 6, 100, INT_MAX, INT_MIN }; return rn(3) ? (int)rn(8) - 1 : nhint_ && rn(2) ? (int)hint_[rn(nhint_)] : v[rn(12)]; }
static int dlevel;

static int setup(void) {
    int i, n = 1 + rn(4);
    dlevel = gutil_log_default.level = rlevel(); gutil_log_default.flags = rn(4) ? 0 : rn(4); gutil_log_default.log_proc = rn(4) ? NULL : proc0;
    TR("default level %d flags %d%s; ", dlevel, gutil_log_default.flags, gutil_log_default.log_proc ? " own proc" : "");
    for (i = 0; i < n; i++) { static const char* nm[] = { "a", "net", "network", "Net", "ab", "" };
        GLogModule x = { names[i] = nm[rn(6)], i ? (rn(4) ? m + i - 1 : NULL) : rn(3) ? NULL : &gutil_log_default, rn(3) ? NULL : proc0, GLOG_LEVEL_MAX, rn(2) ? GLOG_LEVEL_INHERIT : rlevel(), rn(3) ? 0 : rn(4), 0 };
        memcpy(m + i, &x, sizeof x); TR("module %d '%s' level %d flags %d parent %s%s; ", i, x.name, x.level, x.flags, !x.parent ? "none" : x.parent == &gutil_log_default ? "default" : "previous", x.log_proc ? " own proc" : ""); }
    return n;
}
static gboolean want(const GLogModule* x, int level) {
    if (!x) x = &gutil_log_default;
    for (;;) { int max; if (x->flags & GLOG_FLAG_DISABLE) return FALSE; if (x->level == GLOG_LEVEL_INHERIT && x->parent) { x = x->parent; continue; }
        max = x->level == GLOG_LEVEL_INHERIT ? dlevel : x->level; return level && ((level > 0 && level <= max) || level == GLOG_LEVEL_ALWAYS); }
}
static void vcall(const GLogModule* x, int level, const char* f, ...) { va_list va; va_start(va, f); gutil_logv(x, level, f, va); va_end(va); }
static void sinkcall(GLogProc p, const char* name, int level, const char* f, ...) { va_list va; va_start(va, f); p(name, level, f, va); va_end(va); }
static void sinkcall2(GLogProc2 p, const GLogModule* name, int level, const char* f, ...) { va_list va; va_start(va, f); p(name, level, f, va); va_end(va); }

static char* capture(FILE* f, off_t from) { long n; char* b; fflush(f); n = lseek(fileno(f), 0, SEEK_END); b = g_malloc(n - from + 1); if (pread(fileno(f), b, n - from, from) < 0) n = from; b[n - from] = 0; return b; }
static FILE* tmp_[2]; static int saved_[2];
static void redirect(gboolean on) { int i; FILE* f[2]; f[0] = stdout; f[1] = stderr;
    for (i = 0; i < 2; i++) { fflush(f[i]); if (on) { if (!tmp_[i]) { tmp_[i] = tmpfile(); if (!tmp_[i]) { tmp_[0] = NULL; return; } } if (ftruncate(fileno(tmp_[i]), 0)) return; lseek(fileno(tmp_[i]), 0, SEEK_SET); saved_[i] = dup(i + 1); dup2(fileno(tmp_[i]), i + 1); } else { dup2(saved_[i], i + 1); close(saved_[i]); } } }

static void stdio(void) {
    int n = rn(4) ? rn(60) : 480 + rn(60), level = rlevel(), err = rn(2), two = rn(2); char* txt = g_malloc(n + 1); char* got[2]; GString* w = g_string_new(NULL); const char* nm = rn(3) ? (rn(4) ? "name" : "") : NULL; int i; time_t t0 = time(NULL);
    GLogModule x = { nm, NULL, NULL, GLOG_LEVEL_MAX, 0, 0, 0 }; const char* tf = NULL;
    for (i = 0; i < n; i++) txt[i] = 'a' + rn(26); txt[n] = 0;
    gutil_log_tid = !rn(3); gutil_log_timestamp = rn(2);
    if (gutil_log_timestamp) { tf = rn(2) ? (rn(2) ? "" : "now ") : "a format string longer than the 32 byte buffer "; gutil_log_set_timestamp_format(tf); }
    trace_reset(); TR("%s %s, level %d, %d characters, tid %d, timestamp '%s'", err ? "stderr" : "stdout", nm, level, n, gutil_log_tid, tf);
    redirect(TRUE);
    if (two) sinkcall2(err ? gutil_log_stderr2 : gutil_log_stdout2, nm || rn(2) ? &x : NULL, level, "%s", txt); else sinkcall(err ? gutil_log_stderr : gutil_log_stdout, nm, level, "%s", txt);
    fflush(stdout); fflush(stderr);
    redirect(FALSE);
    for (i = 0; i < 2; i++) got[i] = capture(tmp_[i], 0);
    if (gutil_log_tid) g_string_append_printf(w, "[%d] ", (int)syscall(SYS_gettid));
    if (tf && strlen(tf) < 32) g_string_append(w, tf);
    if (nm && nm[0]) g_string_append_printf(w, "[%s] ", nm);
    g_string_append(w, level == GLOG_LEVEL_WARN ? "WARNING: " : level == GLOG_LEVEL_ERR ? "ERROR: " : ""); g_string_append_printf(w, "%s\n", txt);
    CHECK(!strcmp(got[err], w->str), "printed '%s', expected '%s'", got[err], w->str); CHECK(!got[!err][0], "printed to the wrong stream"); (void)t0;
    g_string_free(w, TRUE); g_free(got[0]); g_free(got[1]); g_free(txt); gutil_log_timestamp = FALSE; gutil_log_tid = FALSE; gutil_log_set_timestamp_format(NULL);
}

static void l01(void) {
    int n, i, level = rlevel(), k; const GLogModule* x; gboolean w;
    if (!rn(4)) { stdio(); return; }
    trace_reset(); n = setup(); i = rn(n + 2); x = i < n ? m + i : i == n ? &gutil_log_default : NULL;
    { gboolean none = !rn(6), def = !none && rn(2); GLogProc2 d = gutil_log_func2; static GLogProc2 orig; if (!orig) orig = d;
      gutil_log_func2 = none ? NULL : def ? orig : sink2; gutil_log_func = rn(5) ? sink1 : NULL;
      w = !none && want(x, level); TR("level %d to %s %d, sink %s", level, x ? "module" : "NULL", i, none ? "none" : def ? "default" : "own");
      CHECK(!gutil_log_enabled(x, level) == !w, "enabled is %d, expected %d", !w, w);
      hits = 0; k = rn(100000); if (rn(2)) gutil_log(x, level, "%s %d", "text", k); else vcall(x, level, "%s %d", "text", k);
      { const GLogModule* y = x ? x : &gutil_log_default; int fn = y->log_proc ? 10 : def ? 1 : 2; const void* mod = fn != 1 ? (const void*)y : (y->flags & GLOG_FLAG_HIDE_NAME) ? NULL : y->name; char t[64];
        if (w && fn == 1 && !gutil_log_func) w = FALSE;
        CHECK(hits == !!w, "%d messages passed on, expected %d", hits, !!w);
        if (w) { sprintf(t, "text %d", k); CHECK(lastfn == fn && lastmod == mod && lastlevel == level && !strcmp(lasttext, t), "sink %d module %p level %d text '%s', expected sink %d module %p", lastfn, lastmod, lastlevel, lasttext, fn, mod); } }
      gutil_log_func2 = orig; }
    CHECK(gutil_log_default.level == dlevel, "level changed");
}

static int plevel(const char* s) { static const char* v[] = { "none", "error", "warning", "info", "debug", "verbose" }; int i, n = strlen(s);
    if (n == 1 && s[0] >= '0' && s[0] <= '5') return s[0] - '0'; for (i = 0; n && i < 6; i++) if (n <= (int)strlen(v[i]) && !memcmp(v[i], s, n)) return i; return -1; }
static void l02(void) {
    static const char* lv[] = { "0", "1", "5", "6", "none", "error", "warning", "info", "debug", "verbose", "n", "e", "verb", "verbosee", "", "Info", "00", "-1", "w:1", "nope" };
    static const char* md[] = { "a", "net", "network", "Net", "NETWORK", "ne", "", "ab", "netw", "b" };
    int n, i, was[4], d, w, k = -1; GLogModule* v[4]; char o[64]; GError* e = NULL; gboolean ok, we = rn(2); char* c;
    trace_reset(); n = setup(); d = gutil_log_default.level; for (i = 0; i < n; i++) { v[i] = m + i; was[i] = m[i].level; }
    if (rn(3)) sprintf(o, "%s:%s", md[rn(10)], lv[rn(20)]); else if (rn(8)) strcpy(o, lv[rn(20)]); else { for (i = 0; i < (int)rn(6); i++) o[i] = "0:en9a"[rn(6)]; o[i] = 0; }
    if (rn(4) == 0) n = rn(n + 1); TR("option '%s' for %d modules", o, n);
    ok = gutil_log_parse_option(o, rn(8) || n ? v : NULL, n, we ? &e : NULL);
    c = strchr(o, ':'); w = plevel(c ? c + 1 : o);
    if (c) { *c = 0; for (i = n - 1; i >= 0; i--) if (!g_ascii_strcasecmp(m[i].name, o)) k = i; if (k < 0) w = -1; }
    CHECK(!ok == (w < 0), "returned %d, level is %d", ok, w); CHECK(!e == (!we || ok), "error %s", e ? e->message : "none");
    if (e) { CHECK(e->domain == G_OPTION_ERROR && e->code == G_OPTION_ERROR_BAD_VALUE, "error code"); g_error_free(e); }
    for (i = 0; i < 4 && v[0]; i++) if (i < n) CHECK(m[i].level == (ok && c && i == k ? w : was[i]), "level of module %d is %d", i, m[i].level);
    CHECK(gutil_log_default.level == (ok && !c ? w : d), "default level is %d", gutil_log_default.level);
    { static const char* ty[] = { "stdout", "STDERR", "glib", "SysLog", "custom", "", "std", "stdoutx" }; int t = rn(8); const char* nn = rn(2) ? "nn" : NULL, *on = gutil_log_default.name; GLogProc f; const char* g0 = gutil_log_get_type();
      if (rn(3) == 0) { gutil_log_func = rn(2) ? sink1 : gutil_log_stdout; g0 = gutil_log_get_type(); CHECK(!strcmp(g0, gutil_log_func == sink1 ? "custom" : "stdout"), "type is %s", g0); }
      f = gutil_log_func; TR(" type %s", ty[t]); ok = gutil_log_set_type(ty[t], nn); CHECK(!ok == (t > 3), "set_type returned %d", ok);
      CHECK(gutil_log_default.name == (nn ? nn : on), "default name"); gutil_log_default.name = NULL;
      if (ok) CHECK(!g_ascii_strcasecmp(gutil_log_get_type(), ty[t]) && gutil_log_func == (t == 0 ? gutil_log_stdout : t == 1 ? gutil_log_stderr : t == 2 ? gutil_log_glib : gutil_log_syslog), "type is %s", gutil_log_get_type()); else CHECK(gutil_log_func == f, "log function changed"); gutil_log_func = sink1; }
}

static void m06(void) {
    static int big; int n = !big ? 70000 : rn(3) ? (int)rn(70) : small(300), i, level = 1 + rn(5), by = rn(2); guint8* d = malloc(n ? n : 1); const char* px = rn(2) ? "> " : rn(2) ? "" : NULL; GBytes* b; char hx[GUTIL_HEXDUMP_BUFSIZE + 16]; GLogModule x = { "x", NULL, NULL, GLOG_LEVEL_MAX, !big++ ? 5 : (int)rn(6), 0, 0 };
    for (i = 0; i < n; i++) d[i] = rnd(); gutil_log_func2 = sink2; gutil_log_default.level = 5; gutil_log_default.flags = 0; gutil_log_default.log_proc = NULL;
    trace_reset(); TR("dump of %d bytes at level %d of %d%s", n, level, x.level, by ? " (GBytes)" : ""); lines = g_new0(char*, 1); nlines = 0;
    b = g_bytes_new(d, n); if (by) gutil_log_dump_bytes(&x, level, px, b); else gutil_log_dump(&x, level, px, d, n); if (!rn(8)) gutil_log_dump_bytes(&x, level, px, NULL);
    CHECK(nlines == (level > x.level ? 0 : (n + 15) / 16), "%d lines", nlines);
    for (i = 0; i < nlines; i++) { char w[256]; int k = sprintf(w, "%s%04X: ", px ? px : "", i * 16), j; const char* s;
        gutil_hexdump(hx, d + i * 16, MIN(n - i * 16, 16)); strcpy(w + k, hx); CHECK(!strcmp(lines[i], w), "line %d is '%s', expected '%s'", i, lines[i], w);
        for (s = lines[i] + k, j = 0; j < 16; j++) { char z[8]; if (i * 16 + j < n) { sprintf(z, "%02x", d[i * 16 + j]); CHECK(!memcmp(s + 3 * j + (j > 7), z, 2), "byte %d of line %d", j, i); } }
        g_free(lines[i]); }
    g_free(lines); lines = NULL; g_bytes_unref(b); free(d);
}

static char* hexof(const guint8* b, int n) { static char s[2 * 8192]; int i; s[0] = 0; for (i = 0; i < n && i < 100; i++) sprintf(s + 2 * i, "%02x", b[i]); return s; }
/* exact-size heap copies let the sanitizer see any stray access */
static void* xdup(const void* p, int n) { void* r = malloc(n); memcpy(r, p, n); return r; }
static void hexline(void) {
    guint n = rn(3) ? rn(20) : (guint)ri(), k = MIN(n, 16), i, j, r; guint8* a = malloc(k + 1), *ex; char *b = malloc(70), w[128];
    for (i = 0; i < k; i++) a[i] = rn(2) ? rnd() : 0x1e + rn(0x64);
    ex = xdup(a, k); memset(b, 'Z', 70);
    trace_reset(); TR("%u bytes %s", n, hexof(ex, k));
    for (i = j = 0; i < 16; i++) { if (i) w[j++] = ' '; if (i == 8) w[j++] = ' '; if (i < n) { sprintf(w + j, "%02x", ex[i]); j += 2; } else { w[j++] = ' '; w[j++] = ' '; } }
    for (i = 0; i < 4; i++) w[j++] = ' ';
    for (i = 0; i < k; i++) { if (i == 8) w[j++] = ' '; w[j++] = (ex[i] >= 0x20 && ex[i] < 0x7f) ? ex[i] : '.'; } w[j] = 0;
    r = gutil_hexdump(b, ex, n); CHECK(r == k, "%u bytes dumped, expected %u", r, k); CHECK(!strcmp(b, w), "line is '%s', expected '%s'", b, w);
    free(a); free(b); free(ex);
}

int main(int argc, char** argv) {
    long k = 0; prop = argc > 1 ? argv[1] : "";
    common_init();
    do { if (IS("L01")) l01(); else if (IS("L02")) l02(); else if (rn(2)) hexline(); else m06(); k++; } while (more(1));
    printf("ok: %ld random cases\n", k);
    return 0;
}
