#include "common.h"
#include <gutil_strv.h>
#include <gutil_misc.h>
/* model: the very pointers the vector owns, and their text */
static char* m[512]; static int n;
static char* txt[512]; /* copies of the texts: a removed string must not be read any more */
static const char* W[] = { "", "a", "b", "B", "ab", "abc", " a", "a ", " a b\t", "\n\v\f\r ", "\xff" "a", "\x80", "~" };
/* any answer of the right sign, not only the one of this libc (the sanitizer would answer -1, 0 or 1) */
int strcmp(const char* a, const char* b) {
    static unsigned c; int d;
    while (*a && *a == *b) { a++; b++; }
    d = (unsigned char)*a - (unsigned char)*b; c++;
    return c % 3 == 0 ? d : c % 3 == 1 ? d * 256 : d * 65536;
}
#define NW ((int)(sizeof(W) / sizeof(W[0])))
static const char* word(void) { return W[rn(rn(3) ? 4 : NW)]; }
static void same(GStrV* v, const char* w) {
    int i;
    if (!v) { CHECK(!n, "%s: NULL vector", w); return; }
    for (i = 0; i < n; i++) CHECK(v[i] == m[i], "%s: string %d is not the expected one", w, i);
    CHECK(!v[n], "%s: not terminated after %d", w, n);
}
static void adopt(GStrV* v, int i, const char* s, const char* w) {
    CHECK(v && v[i] && v[i] != s && !strcmp(v[i], s), "%s: element %d is not a copy of the string", w, i);
    m[i] = v[i];
}
static void del(int i) { memmove(m + i, m + i + 1, (n - i - 1) * sizeof(m[0])); n--; }
static int sg(int x) { return (x > 0) - (x < 0); }
static int pick(void) { return (int)(rn(6) ? rn(n + 3) : (int64_t)ri()); }
static void look(GStrV* v) {
    int k, i, j, f, l;
    for (k = 0; k < NW; k++) {
        char* s = g_strdup(W[k]);
        for (f = 0; f < n && strcmp(m[f], s); f++); if (f == n) f = -1;
        for (l = n - 1; l >= 0 && strcmp(m[l], s); l--);
        CHECK(gutil_strv_find(v, s) == f, "find \"%s\" gives %d, expected %d", s, gutil_strv_find(v, s), f);
        CHECK(gutil_strv_find_last(v, s) == l, "find_last \"%s\" gives %d, expected %d", s, gutil_strv_find_last(v, s), l);
        CHECK(!!gutil_strv_contains(v, s) == (f >= 0), "contains \"%s\"", s);
        g_free(s);
    }
    CHECK(gutil_strv_find(v, NULL) == -1 && gutil_strv_find_last(v, NULL) == -1 && !gutil_strv_contains(v, NULL), "NULL string found");
    for (i = 0; i < 6; i++) { guint q = i < 3 ? (guint)(n - 1 + i) : (guint)ri(); CHECK(gutil_strv_at(v, q) == (q < (guint)n ? m[q] : NULL), "at %u of %d", q, n); }
    for (i = 0; i < n; i++) CHECK(gutil_strv_at(v, i) == m[i], "at %d", i);
    CHECK(gutil_strv_last(v) == (n ? m[n - 1] : NULL), "last"); CHECK(gutil_strv_length(v) == (guint)n, "length");
    /* equality with a private copy, then with one difference */
    {
        char* c[513]; char* none[1] = { NULL }; GStrV* w = v ? v : none;
        for (i = 0; i < n; i++) c[i] = g_strdup(m[i]); c[n] = NULL;
        CHECK(gutil_strv_equal(w, c) && gutil_strv_equal(c, w) && gutil_strv_equal(v, v), "equal");
        CHECK(!!gutil_strv_equal(v, NULL) == !n && !!gutil_strv_equal(NULL, v) == !n && !!gutil_strv_equal(v, none) == !n && !!gutil_strv_equal(none, v) == !n, "equal to NULL or empty");
        if (n) {
            j = rn(n); 
            { char* o = c[j]; c[j] = (char*)"something else"; CHECK(!gutil_strv_equal(v, c) && !gutil_strv_equal(c, v), "equal with a difference at %d", j); c[j] = o; }
            { char* o = c[n - 1]; c[n - 1] = NULL; CHECK(!gutil_strv_equal(v, c) && !gutil_strv_equal(c, v), "equal to a shorter one"); c[n - 1] = o; }
        }
        for (i = 0; i < n; i++) g_free(c[i]);
    }
}
static void strip1(char* d, const char* s) {
    size_t b = 0, e = strlen(s);
    while (s[b] && g_ascii_isspace(s[b])) b++;
    while (e > b && g_ascii_isspace(s[e - 1])) e--;
    memcpy(d, s + b, e - b); d[e - b] = 0;
}
static void run(void) {
    GStrV* v = rn(4) ? NULL : g_new0(char*, 1); int k, len = 5 + rn(30), i; n = 0;
    trace_reset();
    for (k = 0; k < len; k++) {
        int op = rn(12); const char* s = word();
        if (n > 60) op = 4;
        if (op < 3) { TR("add(\"%s\");", s); v = gutil_strv_add(v, s); adopt(v, n, s, "add"); n++; if (!rn(9)) v = gutil_strv_add(v, NULL); }
        else if (op == 3) {
            const char* e[9]; int q, c = rn(6); static const int cnt[6] = { 0, 1, 2, 3, 5, 9 };
            for (i = 0; i < 9; i++) e[i] = word();
            q = cnt[c]; TR("addv(%d);", q);
            v = c == 0 ? gutil_strv_addv(v, NULL) : c == 1 ? gutil_strv_addv(v, e[0], NULL) : c == 2 ? gutil_strv_addv(v, e[0], e[1], NULL) : c == 3 ? gutil_strv_addv(v, e[0], e[1], e[2], NULL)
              : c == 4 ? gutil_strv_addv(v, e[0], e[1], e[2], e[3], e[4], NULL) : gutil_strv_addv(v, e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], NULL);
            for (i = 0; i < q; i++) { adopt(v, n, e[i], "addv"); n++; }
        } else if (op < 6) {
            int p = pick(), fr = rn(2); TR("remove_at(%d,%d);", p, fr); v = gutil_strv_remove_at(v, p, fr);
            if (p >= 0 && p < n) { if (!fr) g_free(m[p]); del(p); }
        } else if (op < 8) {
            int all = rn(2); TR("remove(\"%s\",%d);", s, all); v = gutil_strv_remove(v, rn(9) ? s : (s = NULL), all);
            if (s) {
                
                for (i = 0; i < n; i++) if (!strcmp(txt[i], s)) { int j; for (j = i; j < n - 1; j++) { char* x = txt[j]; txt[j] = txt[j + 1]; txt[j + 1] = x; } del(i--); if (!all) break; }
            }
        } else if (op == 8) {
             int a, b;
            TR("remove_dups;"); v = gutil_strv_remove_dups(v);
            for (a = 0; a < n; a++) for (b = n - 1; b > a; b--) if (!strcmp(txt[a], txt[b])) { int j; for (j = b; j < n - 1; j++) { char* x = txt[j]; txt[j] = txt[j + 1]; txt[j + 1] = x; } del(b); }
        } else if (op == 9) {
            int asc = rn(2), a; GStrV* r; char* old[512]; int used[512]; memcpy(old, m, sizeof(old)); memset(used, 0, sizeof(used));
            TR("sort(%d);", asc); r = gutil_strv_sort(v, asc); CHECK(r == v, "sort returns another vector");
            if (v) { for (i = 0; i < n; i++) { for (a = 0; a < n && (used[a] || old[a] != v[i]); a++); CHECK(a < n, "sort: string %d is not one of the vector", i); used[a] = 1; m[i] = v[i]; }
                CHECK(!v[n], "sort: terminator"); }
            for (i = 0; i + 1 < n; i++) CHECK((asc ? 1 : -1) * sg(strcmp(m[i], m[i + 1])) <= 0, "sort(%d): \"%s\" before \"%s\"", asc, m[i], m[i + 1]);
            for (a = 0; a < NW; a++) { int q = gutil_strv_bsearch(v, W[a], asc), there = gutil_strv_find(v, W[a]) >= 0;
                CHECK((q >= 0) == there && q < n && (q < 0 ? q == -1 : !strcmp(m[q], W[a])), "bsearch \"%s\" (%d) gives %d of %d", W[a], asc, q, n); }
            CHECK(gutil_strv_bsearch(v, NULL, asc) == -1, "bsearch NULL");
        } else if (op == 10) {
            char t[64][64]; GStrV* r; for (i = 0; i < n && i < 64; i++) strip1(t[i], m[i]);
            TR("strip;"); r = gutil_strv_strip(v); CHECK(r == v, "strip returns another vector");
            for (i = 0; i < n && i < 64; i++) CHECK(v[i] == m[i] && !strcmp(v[i], t[i]), "strip: \"%s\", expected \"%s\"", v[i], t[i]);
        }
        same(v, "vector"); look(v);
        {  for (i = 0; i < n; i++) { free(txt[i]); txt[i] = strdup(m[i]); } }
    }
    g_strfreev(v); n = 0; CHECK(!gutil_strv_strip(NULL) && !gutil_strv_sort(NULL, TRUE) && !gutil_strv_remove_dups(NULL) && !gutil_strv_remove(NULL, "a", TRUE) && !gutil_strv_remove_at(NULL, 0, TRUE), "NULL vector");
}
/* removal of all occurrences and of duplicates: every vector up to length 7 over three strings */
static void all(void) {
    static const char* w[] = { "a", "b", "" };
    int l, b, i, j, c, q;
    for (l = 0, c = 1; l <= 7; l++, c *= 3) for (b = 0; b < c; b++) for (q = 0; q < 2; q++) {
        GStrV* v = g_new0(char*, 1); int seen = 0; n = 0; trace_reset(); TR(q ? "remove_dups of " : "remove all \"a\" of ");
        for (i = 0, j = b; i < l; i++, j /= 3) {
            int x = j % 3; v = gutil_strv_add(v, w[x]); TR("\"%s\" ", w[x]);
            if (q ? !(seen & (1 << x)) : x != 0) m[n++] = v[i];
            seen |= 1 << x;
        }
        v = q ? gutil_strv_remove_dups(v) : gutil_strv_remove(v, w[0], TRUE); same(v, q ? "remove_dups" : "remove all"); g_strfreev(v);
    }
}
/* positions beyond 8 and 16 bits */
static void large(void) {
    static const int at[] = { 0, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 69999 };
    const int l = 70000; GStrV *v = g_new0(char*, l + 1), *w = g_new0(char*, l + 1); int i;
    trace_reset(); TR("vectors of %d: ", l);
    for (i = 0; i < l; i++) { v[i] = g_strdup_printf("%d", i); w[i] = g_strdup(v[i]); }
    for (i = 0; i < (int)(sizeof(at) / sizeof(at[0])); i++) {
        char* s = w[at[i]]; TR("%d; ", at[i]); CHECK(gutil_strv_equal(v, w), "equal");
        CHECK(gutil_strv_at(v, at[i]) == v[at[i]] && gutil_strv_find(v, s) == at[i] && gutil_strv_find_last(v, s) == at[i], "at %d", at[i]);
        w[at[i]] = (char*)"x"; CHECK(!gutil_strv_equal(v, w), "equal with a difference at %d", at[i]); CHECK(gutil_strv_find(w, "x") == at[i], "find at %d", at[i]); w[at[i]] = s;
    }
    CHECK(gutil_strv_length(v) == (guint)l && gutil_strv_last(v) == v[l - 1] && !gutil_strv_at(v, l), "length, last");
    v = gutil_strv_remove_at(v, 65536, TRUE); CHECK(!strcmp(v[65535], "65535") && !strcmp(v[65536], "65537") && !v[l - 1], "remove at");
    v = gutil_strv_add(v, "x"); CHECK(!strcmp(v[l - 1], "x") && !v[l], "add");
    v = gutil_strv_remove(v, "66000", TRUE); CHECK(!strcmp(v[65999], "66001") && !strcmp(v[65998], "65999") && !v[l - 1], "remove"); g_strfreev(v); g_strfreev(w);
}
int main(int c, char** a) { common_init(); all(); large(); do run(); while (more(1)); return 0; }
