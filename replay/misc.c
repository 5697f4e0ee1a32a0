#include "common.h"
#include <gutil_misc.h>
#include <ctype.h>
#include <glib-object.h>
static const char* prop;
#define IS(p) (!strcmp(prop, p))
static guint8* junk(int n) { guint8* b = malloc(n ? n : 1); int i, m = rn(4); for (i = 0; i < n; i++) b[i] = m == 0 ? rnd() : m == 1 ? rn(2) : m == 2 ? (rn(4) ? 0x20 + rn(95) : rnd()) : (nhint_ ? ri() : 0); return b; }
static char* hexof(const guint8* b, int n) { static char s[2 * 8192]; int i; s[0] = 0; for (i = 0; i < n && i < 100; i++) sprintf(s + 2 * i, "%02x", b[i]); return s; }
/* exact-size heap copies let the sanitizer see any stray access */
static void* xdup(const void* p, int n) { void* r = malloc(n); memcpy(r, p, n); return r; }

static void m01(void) {
    int n = small(20), i, bad = -1; guint8* b = junk(n); char *h, *s; void *r; guint8* d; gboolean up = rn(2) ? (int)ri() : 0; GUtilData gd; GBytes* gb; int len;
    trace_reset(); TR("data %s upper %d", hexof(b, n), up);
    if (rn(2)) h = gutil_bin2hex(b, n, up); else { gd.bytes = b; gd.size = n; h = gutil_data2hex(&gd, up); }
    CHECK(h && strlen(h) == 2 * n, "length of the hex string");
    for (i = 0; i < n; i++) { char t[3]; sprintf(t, up ? "%02X" : "%02x", b[i]); CHECK(h[2 * i] == t[0] && h[2 * i + 1] == t[1], "digits of byte %d: %.2s, expected %s", i, h + 2 * i, t); }
    s = xdup(h, 2 * n); len = 2 * n;
    if (rn(2)) for (i = 0; i < len; i++) s[i] = rn(2) ? toupper(s[i]) : tolower(s[i]);
    d = malloc(n);
    r = gutil_hex2bin(s, len, d); CHECK((r == d) == (n > 0), "decoding own output: %p", r);
    if (n) CHECK(!memcmp(d, b, n), "round trip of the bytes"); else CHECK(!r, "empty");
    gb = gutil_hex2bytes(s, len); CHECK(!gb == !n, "hex2bytes");
    if (gb) { gsize z; const void* q = g_bytes_get_data(gb, &z); CHECK(z == n && !memcmp(q, b, n), "hex2bytes contents"); g_bytes_unref(gb); }
    if (n) { static const char odd[] = "/:@G`g\0 -xX"; int k = rn(3); char t[2 * 5100];
        i = rn(len); s[i] = rn(2) ? odd[rn(11)] : (char)rnd(); if (!isxdigit((guint8)s[i])) bad = i;
        TR(" character %d is %02x", i, (guint8)s[i]);
        memset(d, 0x5a, n);
        r = gutil_hex2bin(s, len, d); CHECK((r == NULL) == (bad >= 0), "a character which is %sa hex digit: %p", bad >= 0 ? "not " : "", r);
        if (!r) { } else for (i = 0; i < n; i++) { unsigned x; memcpy(t, s + 2 * i, 2); t[2] = 0; sscanf(t, "%x", &x); CHECK(d[i] == x, "byte %d", i); }
        gb = gutil_hex2bytes(s, len); CHECK((gb == NULL) == (bad >= 0), "hex2bytes with a bad character"); if (gb) g_bytes_unref(gb);
        if (k == 0) { CHECK(!gutil_hex2bin(s, len - 1, d) && !gutil_hex2bytes(s, len - 1), "odd length"); CHECK(!gutil_hex2bin(s, 0, d) && !gutil_hex2bin(s, -1 - (gssize)rn(9), d), "non-positive length"); }
        memcpy(t, h, len + 1); if (rn(2)) { t[len] = 'a'; t[len + 1] = 0; gb = gutil_hex2bytes(t, -1); CHECK(!gb, "odd string"); } else { gb = gutil_hex2bytes(t, -1 - (gssize)rn(3)); CHECK(gb && g_bytes_get_size(gb) == n, "hex2bytes of a whole string"); g_bytes_unref(gb); }
    }
    CHECK(!gutil_hex2bin(NULL, 2, d) && !gutil_hex2bin("00", 2, NULL) && !gutil_hex2bytes(NULL, 2) && !gutil_hex2bytes("", -1) && !gutil_data2hex(NULL, up), "NULL");
    g_free(h); free(s); free(d); free(b);
}

static int dv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static int oracle(const char* s, int base, int uns, __int128* out) {
    int n = strlen(s), neg = 0, digits = 0; __int128 v = 0; const char* e;
    while (n && strchr(" \t\n\f\r", s[0])) s++, n--;
    while (n && strchr(" \t\n\f\r", s[n - 1])) n--;
    e = s + n;
    if (base == 1 || base > 36) return 0;
    if (uns && memchr(s, '-', n)) return 0;
    while (s < e && strchr(" \t\n\f\r\v", *s)) s++;
    if (s < e && (*s == '-' || *s == '+')) neg = *s++ == '-';
    if (base == 0) { if (s < e && *s == '0') { if (s + 1 < e && (s[1] == 'x' || s[1] == 'X')) base = 16, s += 2; else base = 8; } else base = 10; }
    else if (base == 16 && s + 1 < e && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s += 2;
    for (; s < e; s++) { int d = dv(*s); if (d >= base) return 0; digits++; if (v < ((__int128)1 << 100)) v = v * base + d; }
    if (!digits) return 0;
    *out = neg ? -v : v; return 1;
}
static void m02(void) {
    char s[200]; int n = 0, i, base = rn(3) ? 10 : rn(2) ? 0 : (int)(rn(40)), k, uns; __int128 v = 0; int ok;
    static const char* sp[] = { " ", "\t", "\n", "\f", "\r", "\v", "  ", "", "", "" };
    trace_reset();
    if (base == 10 && !rn(4)) base = 16;
    for (i = rn(3); i > 0; i--) n += sprintf(s + n, "%s", sp[rn(10)]);
    if (!rn(3)) n += sprintf(s + n, "%s", rn(2) ? "-" : rn(4) ? "+" : "--");
    if (!rn(8)) n += sprintf(s + n, "%s", sp[rn(10)]);
    if ((base == 16 || base == 0) && rn(2)) n += sprintf(s + n, rn(2) ? "0x" : "0X");
    if (!rn(6)) n += sprintf(s + n, "0");
    switch (rn(4)) {
    case 0: { int64_t x = ri(); uint64_t u = (uint64_t)x; char t[70]; int b = (base < 2 || base > 36) ? 10 : base, p = 69; t[p] = 0; do { t[--p] = "0123456789abcdefghijklmnopqrstuvwxyz"[u % b]; u /= b; } while (u); if (rn(2)) for (i = p; i < 69; i++) t[i] = toupper(t[i]); n += sprintf(s + n, "%s", t + p); if (!rn(5)) n += sprintf(s + n, "0"); break; }
    case 1: n += sprintf(s + n, "%s", ((const char*[]){ "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0", "00" })[rn(12)]); break;
    case 2: for (i = rn(5); i > 0; i--) s[n++] = "0123456789abfgzxX-+ ."[rn(21)]; s[n] = 0; break;
    default: n += sprintf(s + n, "%lld", (long long)ri()); }
    for (i = rn(3); i > 0; i--) n += sprintf(s + n, "%s", sp[rn(10)]);
    if (!rn(10)) n += sprintf(s + n, "%c", 1 + rn(255));
    if (!rn(12)) s[rn(n + 1)] = 0;
    if ((base == 0 || base == 2) && (strstr(s, "0b") || strstr(s, "0B"))) return;   /* depends on the C library */
    TR("\"%s\" base %d", s, base);
    for (k = 0; k < 4; k++) {
        char* str = strdup(s); int iv = -77; unsigned uv = 77; gint64 lv = -777; guint64 qv = 777; gboolean r, nov = !rn(3); __int128 got = 0, lo, hi;
        uns = k & 1; ok = oracle(s, base, uns, &v);
        switch (k) {
        case 0: r = gutil_parse_int(str, base, nov ? NULL : &iv); got = iv; lo = INT_MIN; hi = INT_MAX; break;
        case 1: r = gutil_parse_uint(str, base, nov ? NULL : &uv); got = uv; lo = 0; hi = UINT_MAX; break;
        case 2: r = gutil_parse_int64(str, base, nov ? NULL : &lv); got = lv; lo = G_MININT64; hi = G_MAXINT64; break;
        default: r = gutil_parse_uint64(str, base, nov ? NULL : &qv); got = qv; lo = 0; hi = G_MAXUINT64; }
        if (ok && (v < lo || v > hi)) ok = 0;
        CHECK(!r == !ok, "parser %d: %d, expected %d", k, r, ok);
        if (!nov) { if (ok) CHECK(got == v, "parser %d: wrong value %lld", k, (long long)got); else CHECK(got == (k == 0 ? -77 : k == 1 ? 77 : k == 2 ? -777 : 777), "parser %d: result touched", k); }
        CHECK(!strcmp(s, str), "input modified"); free(str);
    }
    CHECK(!gutil_parse_int(NULL, 10, NULL) && !gutil_parse_uint(NULL, 10, NULL) && !gutil_parse_int64(NULL, 10, NULL) && !gutil_parse_uint64(NULL, 10, NULL), "NULL");
}

static void m03(void) {
    int n = small(9), k = small(9); guint8 *a = junk(n), *b; int eq, pre, suf; GUtilData x, y; GBytes *g; GUtilRange r; int nulla = !n && rn(2), nullb; gboolean t; const guint8* p0; char* str;
    b = malloc(k ? k : 1); { int i, o = rn(3) == 0 ? 0 : rn(2) ? n - k : (int)rn(n + 1); for (i = 0; i < k; i++) b[i] = (o + i >= 0 && o + i < n) ? a[o + i] : rnd(); if (k && !rn(3)) b[rn(2) ? k - 1 : rn(k)] ^= 1u << rn(8); }
    { void* t = xdup(a, n); free(a); a = t; t = xdup(b, k); free(b); b = t; }
    nullb = !k && rn(2);
    trace_reset(); TR("a=%s", hexof(a, n)); TR(" b=%s%s%s", hexof(b, k), nulla ? " a is NULL" : "", nullb ? " b is NULL" : "");
    eq = n == k && !memcmp(a, b, n); pre = k <= n && !memcmp(a, b, k); suf = k <= n && !memcmp(a + n - k, b, k);
    x.bytes = nulla ? NULL : a; x.size = n; y.bytes = nullb ? NULL : b; y.size = k;
    g = g_bytes_new_static(x.bytes, n);
    CHECK(!gutil_data_equal(&x, &y) == !eq, "data_equal"); CHECK(gutil_data_equal(&x, &x) && gutil_data_equal(NULL, NULL) && !gutil_data_equal(&x, NULL) && !gutil_data_equal(NULL, &x), "data_equal NULL");
    CHECK(!gutil_data_has_prefix(&x, &y) == !pre, "data_has_prefix"); CHECK(gutil_data_has_prefix(NULL, NULL) && !gutil_data_has_prefix(&x, NULL) && !gutil_data_has_prefix(NULL, &y), "data_has_prefix NULL");
    CHECK(!gutil_data_has_suffix(&x, &y) == !suf, "data_has_suffix"); CHECK(gutil_data_has_suffix(NULL, NULL) && !gutil_data_has_suffix(&x, NULL) && !gutil_data_has_suffix(NULL, &y), "data_has_suffix NULL");
    CHECK(!gutil_bytes_equal_data(g, &y) == !eq, "bytes_equal_data"); CHECK(gutil_bytes_equal_data(NULL, NULL) && !gutil_bytes_equal_data(g, NULL) && !gutil_bytes_equal_data(NULL, &y), "bytes_equal_data NULL");
    if (y.bytes) CHECK(!gutil_bytes_equal(g, y.bytes, k) == !eq, "bytes_equal"); CHECK(gutil_bytes_equal(NULL, NULL, 0) && !gutil_bytes_equal(g, NULL, n) && !gutil_bytes_equal(NULL, b, k), "bytes_equal NULL");
    CHECK(!gutil_bytes_has_prefix(g, y.bytes, k) == !pre, "bytes_has_prefix"); CHECK(!gutil_bytes_has_prefix(NULL, b, k) && !gutil_bytes_has_prefix(NULL, NULL, 0), "bytes_has_prefix NULL");
    CHECK(!gutil_bytes_has_suffix(g, y.bytes, k) == !suf, "bytes_has_suffix"); CHECK(!gutil_bytes_has_suffix(NULL, b, k) && !gutil_bytes_has_suffix(NULL, NULL, 0), "bytes_has_suffix NULL");
    memset(&r, 0x55, sizeof r); CHECK(gutil_range_init_with_bytes(&r, g) == n && r.ptr == g_bytes_get_data(g, NULL) && r.end == r.ptr + n, "range_init_with_bytes");
    p0 = r.ptr;
    t = p0 && pre; CHECK(!gutil_range_has_prefix(&r, &y) == !t && r.ptr == p0, "range_has_prefix");
    CHECK(!gutil_range_has_prefix(NULL, &y) && !gutil_range_has_prefix(&r, NULL) && !gutil_range_skip_prefix(NULL, &y) && !gutil_range_skip_prefix(&r, NULL) && r.ptr == p0, "range NULL");
    CHECK(!gutil_range_skip_prefix(&r, &y) == !t && r.ptr == p0 + (t ? k : 0) && r.end == p0 + n, "range_skip_prefix");
    memset(&r, 0x55, sizeof r); CHECK(gutil_range_init_with_bytes(&r, NULL) == 0 && !r.ptr && !r.end, "range of NULL"); CHECK(!gutil_range_has_prefix(&r, &y), "prefix of a NULL range"); CHECK(!gutil_range_init_with_bytes(NULL, g), "NULL range");
    { GUtilData d; str = malloc(n + 1); memcpy(str, a, n); str[n] = 0; CHECK(gutil_data_from_string(&d, str) == &d && d.bytes == (void*)str && d.size == strlen(str), "data_from_string"); CHECK(gutil_strlen0(str) == strlen(str) && !gutil_strlen0(NULL), "strlen0");
      CHECK(gutil_data_from_string(&d, NULL) == &d && !d.bytes && !d.size && !gutil_data_from_string(NULL, str), "data_from_string NULL");
      CHECK(gutil_data_from_bytes(&d, g) == &d && d.bytes == g_bytes_get_data(g, NULL) && d.size == n, "data_from_bytes"); CHECK(gutil_data_from_bytes(&d, NULL) == &d && !d.bytes && !d.size && !gutil_data_from_bytes(NULL, g), "data_from_bytes NULL"); free(str); }
    g_bytes_unref(g); free(a); free(b);
}

static void m04(void) {
    GBytes* g[5]; int n = 1 + rn(5), i, tot = 0, sz[5]; guint8* d[5]; guint8* all; GBytes* r; const guint8* p; gsize z; int off = 0, o1, o2;
    trace_reset();
    for (i = 0; i < 5; i++) { sz[i] = rn(3) ? small(30) : 0; d[i] = junk(sz[i]); g[i] = (sz[i] || rn(2)) ? g_bytes_new(d[i], sz[i]) : g_bytes_new_static(NULL, 0); if (i < n) { tot += sz[i]; TR("%s ", hexof(d[i], sz[i])); } }
    all = malloc(tot + 1); for (i = 0; i < n; i++) { memcpy(all + off, d[i], sz[i]); off += sz[i]; }
    TR("concat of %d", n);
    r = n == 1 ? gutil_bytes_concat(g[0], NULL) : n == 2 ? gutil_bytes_concat(g[0], g[1], NULL) : n == 3 ? gutil_bytes_concat(g[0], g[1], g[2], NULL) : n == 4 ? gutil_bytes_concat(g[0], g[1], g[2], g[3], NULL) : gutil_bytes_concat(g[0], g[1], g[2], g[3], g[4], NULL);
    p = g_bytes_get_data(r, &z); CHECK(z == tot && (!z || !memcmp(p, all, z)), "concatenation is wrong: %s", hexof(p, z));
    g_bytes_unref(r); free(all); CHECK(!gutil_bytes_concat(NULL, NULL), "NULL");
    /* xor, unaligned sources too */
    o1 = rn(9); o2 = rn(9); if (o1 > sz[0]) o1 = 0; if (o2 > sz[1]) o2 = 0;
    { GBytes *x = g_bytes_new_static(d[0] + o1, sz[0] - o1), *y = g_bytes_new_static(d[1] + o2, sz[1] - o2); int m = MIN(sz[0] - o1, sz[1] - o2);
      trace_reset(); TR("xor of %s", hexof(d[0] + o1, sz[0] - o1)); TR(" and %s", hexof(d[1] + o2, sz[1] - o2));
      r = gutil_bytes_xor(x, y); CHECK(r, "xor"); p = g_bytes_get_data(r, &z); CHECK(z == m, "xor size %d, expected %d", (int)z, m);
      for (i = 0; i < m; i++) CHECK(p[i] == (d[0][o1 + i] ^ d[1][o2 + i]), "xor byte %d", i);
      g_bytes_unref(r); CHECK(!gutil_bytes_xor(x, NULL) && !gutil_bytes_xor(NULL, y) && !gutil_bytes_xor(NULL, NULL), "xor NULL"); g_bytes_unref(x); g_bytes_unref(y); }
    for (i = 0; i < 5; i++) { p = g_bytes_get_data(g[i], &z); CHECK(z == sz[i] && (!z || !memcmp(p, d[i], z)), "argument changed"); g_bytes_unref(g[i]); free(d[i]); }
}

static void m05(void) {
    int n = small(40), i; guint8* a = junk(n); GUtilData *d, s, *e; void* m; void** pv; GVariant* v; gconstpointer q; gsize z;
    { void* t = xdup(a, n); free(a); a = t; }
    trace_reset(); TR("%s", hexof(a, n));
    d = gutil_data_new(a, n); CHECK(d && d->size == n && d->bytes != a && !memcmp(d->bytes, a, n), "data_new"); g_free(d);
    d = gutil_data_new(NULL, n); CHECK(d && !d->size && !d->bytes, "data_new(NULL)"); g_free(d);
    s.bytes = a; s.size = n; e = gutil_data_copy(&s); CHECK(e && e != &s && e->size == n && e->bytes != a && !memcmp(e->bytes, a, n), "data_copy");
    if (n) { a[0]++; CHECK(e->bytes[0] == (guint8)(a[0] - 1), "the copy shares memory"); a[0]--; } g_free(e);
    s.bytes = NULL; s.size = 0; e = gutil_data_copy(&s); CHECK(e && !e->size && !e->bytes, "data_copy of no data"); g_free(e); CHECK(!gutil_data_copy(NULL), "data_copy(NULL)");
    s.bytes = a; s.size = n; v = gutil_data_copy_as_variant(&s); CHECK(v && g_variant_is_floating(v) && g_variant_is_of_type(v, G_VARIANT_TYPE_BYTESTRING), "variant"); q = g_variant_get_fixed_array(v, &z, 1); CHECK(z == n && (!n || !memcmp(q, a, n)), "variant contents"); g_variant_unref(v); CHECK(!gutil_data_copy_as_variant(NULL), "variant of NULL");
    m = gutil_memdup(a, n); CHECK(!m == !n && m != a, "memdup"); if (n) CHECK(!memcmp(m, a, n), "memdup contents"); g_free(m); CHECK(!gutil_memdup(NULL, n), "memdup(NULL)");
    pv = g_new(void*, n + 1); for (i = 0; i < n; i++) pv[i] = g_malloc(1 + rn(5)); pv[n] = NULL; CHECK(gutil_ptrv_length(pv) == n && !gutil_ptrv_is_empty(pv) == !!n, "ptrv of %d", n); gutil_ptrv_free(pv);
    CHECK(!gutil_ptrv_length(NULL) && gutil_ptrv_is_empty(NULL), "ptrv NULL"); gutil_ptrv_free(NULL); free(a);
}

static void m06(void) {
    guint n = rn(3) ? rn(20) : (guint)ri(), k = MIN(n, 16), i, j, r; guint8* a = malloc(k + 1), *ex; char *b = malloc(70), w[128];
    for (i = 0; i < k; i++) a[i] = rn(2) ? rnd() : 0x1e + rn(0x64);
    ex = xdup(a, k); memset(b, 'Z', 70);
    trace_reset(); TR("%u bytes %s", n, hexof(ex, k));
    for (i = j = 0; i < 16; i++) { if (i) w[j++] = ' '; if (i == 8) w[j++] = ' '; if (i < n) { sprintf(w + j, "%02x", ex[i]); j += 2; } else { w[j++] = ' '; w[j++] = ' '; } }
    for (i = 0; i < 4; i++) w[j++] = ' ';
    for (i = 0; i < k; i++) { if (i == 8) w[j++] = ' '; w[j++] = (ex[i] >= 0x20 && ex[i] < 0x7f) ? ex[i] : '.'; } w[j] = 0;
    r = gutil_hexdump(b, ex, n); CHECK(r == k, "%u bytes dumped, expected %u", r, k); CHECK(!strcmp(b, w), "line is '%s', expected '%s'", b, w);
    free(a); free(b); free(ex);
}

static int fin; static void gone(gpointer p, GObject* o) { fin++; } static gboolean nop(gpointer p) { return TRUE; } static int rem; static void removed(gpointer p) { rem++; }
static void hit(gpointer a, gpointer b) { (*(int*)b)++; }
static void m07(void) {
    GObject* o = g_object_new(G_TYPE_OBJECT, NULL); guint id; int i, n = rn(6); gulong ids[6], was[6]; int cnt[6]; int k = rn(n + 1);
    trace_reset(); fin = 0; g_object_weak_ref(o, gone, NULL); CHECK(gutil_object_ref(o) == o && o->ref_count == 2, "object_ref"); gutil_object_unref(o); CHECK(!fin && o->ref_count == 1, "object_unref");
    CHECK(!gutil_object_ref(NULL), "NULL"); gutil_object_unref(NULL);
    for (i = 0; i < n; i++) { cnt[i] = 0; was[i] = ids[i] = rn(4) ? g_signal_connect(o, "notify", G_CALLBACK(0 ? 0 : hit), NULL) : 0; } 
    TR("disconnect %d of %d", k, n); gutil_disconnect_handlers(o, ids, k);
    for (i = 0; i < n; i++) { if (i < k) CHECK(!ids[i] && (!was[i] || !g_signal_handler_is_connected(o, was[i])), "handler %d not disconnected", i); else CHECK(ids[i] == was[i] && (!was[i] || g_signal_handler_is_connected(o, was[i])), "handler %d disconnected", i); }
    gutil_disconnect_handlers(o, ids, -1 - (int)rn(5)); gutil_disconnect_handlers(NULL, ids, n); gutil_disconnect_handlers(o, NULL, n);
    for (i = k; i < n; i++) CHECK(ids[i] == was[i], "handler id %d cleared", i);
    gutil_object_unref(o); CHECK(fin == 1, "last unref");
    rem = 0; id = g_timeout_add_full(0, 100000, nop, NULL, removed); CHECK(gutil_source_remove(id) && rem == 1 && !gutil_source_remove(0), "source_remove");
    rem = 0; id = g_timeout_add_full(0, 100000, nop, NULL, removed); CHECK(gutil_source_clear(&id) && rem == 1 && !id && !gutil_source_clear(&id) && !gutil_source_clear(NULL), "source_clear");
}
int main(int argc, char** argv) {
    long k = 0; prop = argc > 1 ? argv[1] : "";
    common_init();
    do { if (IS("M01")) m01(); else if (IS("M02")) m02(); else if (IS("M03")) m03(); else if (IS("M04")) m04(); else if (IS("M05")) m05(); else if (IS("M06")) m06(); else m07(); k++; } while (more(1));
    printf("ok: %ld random cases\n", k);
    return 0;
}
