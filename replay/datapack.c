#include "common.h"
#include <gutil_datapack.h>
#include <gutil_misc.h>
typedef __int128 i128;
static void hex(const char* n, const guint8* b, gsize l) { gsize i; TR("%s=", n); for (i = 0; i < l && i < 80; i++) TR("%02x", b[i]); TR(";"); }
/* an exact copy, so that every byte outside is out of bounds */
static guint8* exact(const guint8* b, gsize n) { guint8* p = malloc(n ? n : 1); memcpy(p, b, n); if (!n) { free(p); p = malloc(1); return p + 1; } return p; }
static void exfree(guint8* p, gsize n) { free(n ? p : p - 1); }

/* length of the number at the start of the range, 0 if there is none */
static int number(const guint8* b, gsize n, int sgn, i128* v) {
    gsize i; i128 x = 0;
    for (i = 0; i < n && i < 10; i++) {
        if (!i) { x = b[0] & 0x7f; if (sgn && (x & 0x40)) x -= 128; } else x = x * 128 + (b[i] & 0x7f);
        if (!(b[i] & 0x80)) {
            if (sgn ? (x < (i128)INT64_MIN || x > (i128)INT64_MAX) : x > (i128)UINT64_MAX) return 0;
            *v = x; return (int)i + 1;
        }
    }
    return 0;
}
static int nsize(i128 v, int sgn) {
    int k = 1; i128 m = 128;
    for (;; k++, m *= 128) if (sgn ? (v >= -(m / 2) && v < m / 2) : v < m) return k;
}
static void put(guint8* b, i128 v, int k) { int i; for (i = k - 1; i >= 0; i--) { int r = (int)(((v % 128) + 128) % 128); b[i] = (guint8)(r | (i < k - 1 ? 0x80 : 0)); v = (v - r) / 128; } }
static guint8 genbyte(void) { switch (rn(6)) { case 0: return 0x80; case 1: return 0xff; case 2: return (guint8)(0x80 | rn(128)); case 3: return (guint8)rn(128); case 4: return (guint8)(0x80 | (1 << rn(7))); default: return (guint8)rnd(); } }

static void dec(const guint8* src, gsize n, int sgn) {
    guint8* b = exact(src, n); i128 v = 0; int k = number(b, n, sgn, &v), ok, want = rn(5) != 0;
    GUtilRange r; GUtilData d; guint64 u = 0x5a5a5a5a5a5a5a5aull; gint64 s = 0x5a5a5a5a5a5a5a5all;
    r.ptr = b; r.end = b + n;
    ok = sgn ? gutil_signed_mbn_decode(&r, want ? &s : NULL) : gutil_unsigned_mbn_decode(&r, want ? &u : NULL);
    CHECK(!ok == !k, "decoding %s number gives %d, expected a number of %d bytes", sgn ? "a signed" : "an unsigned", ok, k);
    CHECK(r.ptr == b + k && r.end == b + n, "range advanced by %d instead of %d", (int)(r.ptr - b), k);
    if (want && k) CHECK(sgn ? (i128)s == v : (i128)u == v, "wrong value %lld", (long long)(sgn ? s : (gint64)u));
    if (!k) CHECK(u == 0x5a5a5a5a5a5a5a5aull && s == 0x5a5a5a5a5a5a5a5all, "value stored by a failed decoding");
    d.bytes = b; d.size = n; u = 0x5a5a5a5a5a5a5a5aull; s = 0x5a5a5a5a5a5a5a5all;
    ok = sgn ? gutil_signed_mbn_decode2(&d, want ? &s : NULL) : gutil_unsigned_mbn_decode2(&d, want ? &u : NULL);
    CHECK(!ok == !(k && (gsize)k == n), "decoding all of it gives %d", ok);
    if (want && ok) CHECK(sgn ? (i128)s == v : (i128)u == v, "wrong value %lld", (long long)(sgn ? s : (gint64)u));
    if (!ok) CHECK(u == 0x5a5a5a5a5a5a5a5aull && s == 0x5a5a5a5a5a5a5a5all, "value stored by a failed decoding");
    CHECK(!n || !memcmp(src, b, n), "input changed");
    exfree(b, n);
}
static void decoding(int sgn) {
    guint8 b[16]; gsize n = rn(14), i;
    for (i = 0; i < n; i++) b[i] = i + 1 + rn(3) < n || rn(3) ? (genbyte() | (rn(8) ? 0x80 : 0)) : genbyte();
    if (n && rn(2)) b[n - 1] &= 0x7f;
    trace_reset(); TR("%s ", sgn ? "signed" : "unsigned"); hex("input", b, n);
    dec(b, n, sgn);
}
static void encoding(int sgn) {
    gint64 x = ri(); i128 v = sgn ? (i128)x : (i128)(guint64)x; int k = nsize(v, sgn), k2 = rn(11), i; guint r;
    guint8 e[16], *b;
    trace_reset(); TR("%s value=%lld;", sgn ? "signed" : "unsigned", (long long)x);
    r = sgn ? gutil_signed_mbn_size(x) : gutil_unsigned_mbn_size((guint64)x);
    CHECK(r == (guint)k, "size is %u, expected %d", r, k);
    put(e, v, k); b = malloc(k); memset(b, 0xa5, k);
    r = sgn ? gutil_signed_mbn_encode(b, x) : gutil_unsigned_mbn_encode(b, (guint64)x);
    CHECK(r == (guint)k && !memcmp(b, e, k), "wrong encoding (%u bytes, expected %d)", r, k);
    dec(b, k, sgn); free(b);
    b = malloc(k2 + 1); memset(b, 0xa5, k2 + 1);
    r = sgn ? gutil_signed_mbn_encode2(b, x, k2) : gutil_unsigned_mbn_encode2(b, (guint64)x, k2);
    put(e, v, k2);
    CHECK(r == (guint)k2 && !memcmp(b, e, k2) && b[k2] == 0xa5, "wrong encoding in %d bytes", k2);
    free(b); (void)i;
}
/* oracle of one block */
static gsize block(const guint8* b, gsize n, guint* tag, gsize* off, gsize* len) {
    i128 t, l; int k = number(b, n, 0, &t), k2;
    if (!k || t == 0 || t > INT_MAX) return 0;
    k2 = number(b + k, n - k, 0, &l);
    if (!k2 || l > (i128)(n - k - k2)) return 0;
    *tag = (guint)t; *off = k + k2; *len = (gsize)l;
    return *off + *len;
}
static void tlvenc(void) {
    guint tag = rn(3) ? (guint)ri() : 1 + rn(200); gsize len = rn(4) ? rn(300) : rn(8) ? rn(40000) : 65500 + rn(8000), i; guint8* src = malloc(len + 1), *b, e[20];
    GUtilData d; const GUtilData* pd = &d; gsize n, r; int k, k2;
    if (!rn(6)) len = 0;
    for (i = 0; i < len; i++) src[i] = (guint8)rnd();
    d.bytes = src; d.size = len; if (!len && rn(2)) pd = NULL;
    trace_reset(); TR("tag=%u len=%u%s;", tag, (unsigned)len, pd ? "" : " (NULL)");
    k = nsize(tag, 0); k2 = nsize(len, 0); n = k + k2 + len;
    CHECK(gutil_tlv_size(tag, len) == n, "size is %u, expected %u", gutil_tlv_size(tag, len), (unsigned)n);
    b = malloc(n); memset(b, 0xa5, n);
    r = gutil_tlv_encode(b, tag, pd);
    CHECK(r == n, "encoded %u bytes, expected %u", (unsigned)r, (unsigned)n);
    put(e, tag, k); put(e + k, len, k2);
    CHECK(!memcmp(b, e, k + k2) && !memcmp(b + k + k2, src, len), "wrong encoding");
    if (tag && tag <= INT_MAX) {
        GUtilRange g; GUtilData v; v.bytes = NULL; v.size = 77; g.ptr = b; g.end = b + n;
        CHECK(gutil_tlv_decode(&g, &v) == tag && g.ptr == b + n && v.size == len && v.bytes == b + k + k2, "does not come back");
    }
    for (i = 0; i < 20; i++) { gsize big = (gsize)(guint64)(ri() & 0xfffffff0ll); guint t = (guint)ri(); if (big < 0xfffffff0ull) CHECK(gutil_tlv_size(t, big) == (guint)(nsize(t, 0) + nsize(big, 0)) + big, "size of tag %u with %llu bytes", t, (unsigned long long)big); }
    free(b); free(src);
}
static gsize gen(guint8* b, gsize max) {    /* a sequence of mostly good blocks */
    gsize n = 0; int k = rn(8);
    while (k-- && n + 60 < max) {
        guint tag = rn(10) ? 1 + rn(5) : rn(4) ? 1 + rn(40) : (guint)ri(); gsize l = rn(10) ? rn(6) : rn(30), i;
        n += (gsize)gutil_unsigned_mbn_encode2(b + n, tag, rn(12) ? gutil_unsigned_mbn_size(tag) : 1 + rn(6));
        n += (gsize)gutil_unsigned_mbn_encode2(b + n, rn(20) ? l : (guint64)ri(), rn(12) ? gutil_unsigned_mbn_size(l) : 1 + rn(10));
        for (i = 0; i < l; i++) b[n++] = genbyte();
    }
    if (!rn(4)) n -= rn((unsigned)n + 1 < 4 ? (unsigned)n + 1 : 4);
    if (!rn(8)) { gsize i, m = rn(6); for (i = 0; i < m; i++) b[n++] = genbyte(); }
    return n;
}
static void tlvdec(void) {
    guint8 src[600], *b; gsize n = gen(src, 500), l = 0, o = 0, x; guint t = 0, r; GUtilRange g; GUtilData v; int want = rn(5) != 0;
    trace_reset(); hex("input", src, n);
    if (!rn(3) && n > 2) { src[rn(n)] = genbyte(); }
    b = exact(src, n); g.ptr = b; g.end = b + n; v.bytes = (void*)src; v.size = 7777;
    x = block(b, n, &t, &o, &l);
    r = gutil_tlv_decode(&g, want ? &v : NULL);
    CHECK(r == (x ? t : 0), "tag %u, expected %u", r, x ? t : 0);
    CHECK(g.ptr == b + x && g.end == b + n, "range advanced by %d, expected %d", (int)(g.ptr - b), (int)x);
    if (want && x) CHECK(v.bytes == b + o && v.size == l, "wrong value");
    else CHECK(v.bytes == (void*)src && v.size == 7777, "value touched");
    exfree(b, n);
}
static void tlvs(void) {
    guint8 src[1200], *b; gsize n = gen(src, 1000), pos = 0, x, o, l; guint t; int nt = rn(6) ? rn(7) : 29 + rn(6), i, j, res, flags = rn(2), exp = 0, want = rn(4) != 0;
    guint* tags = malloc((nt + 1) * sizeof(guint)); GUtilData* vals = want ? malloc(nt * sizeof(GUtilData) + 1) : NULL, ev[40], in;
    for (i = 0; i < nt; i++) { again: tags[i] = rn(8) ? 1 + rn(nt > 10 ? 40 : 7) : 1 + (guint)(rnd() >> 33); if (rn(20)) for (j = 0; j < i; j++) if (tags[j] == tags[i]) goto again; }
    tags[nt] = 0;
    if (rn(3) == 0) flags |= (int)(rnd() & 0xfe);
    trace_reset(); TR("flags=%d tags=", flags); for (i = 0; i < nt; i++) TR("%u,", tags[i]); hex(" input", src, n);
    if (want) memset(vals, 0x5a, nt * sizeof(GUtilData));
    memset(ev, 0, sizeof(ev));
    b = exact(src, n); in.bytes = b; in.size = n;
    while (exp >= 0 && (x = block(b + pos, n - pos, &t, &o, &l)) != 0) {
        for (i = 0; i < nt && i < 31; i++) if (tags[i] == t) break;
        if (i < nt && i < 31) { if (exp & (1 << i)) exp = -2; else { exp |= 1 << i; ev[i].bytes = b + pos + o; ev[i].size = l; } }
        else if (!(flags & 1)) exp = -3;
        pos += x;
    }
    if (exp >= 0 && pos != n) exp = -1;
    res = gutil_tlvs_decode(&in, tags, vals, flags);
    CHECK(res == exp, "result %d, expected %d", res, exp);
    if (want) for (i = 0; i < nt; i++) CHECK(vals[i].bytes == ev[i].bytes && vals[i].size == ev[i].size, "value %d is wrong", i);
    exfree(b, n); free(tags); free(vals);
}
int main(int argc, char** argv) {
    const char* p = argc > 1 ? argv[1] : "D"; long n = 0; int a = !strcmp(p, "D");
    guint64 u = 5; gint64 s = 5; GUtilData d = { NULL, 0 };
    common_init();
    CHECK(!gutil_unsigned_mbn_decode2(NULL, &u) && !gutil_signed_mbn_decode2(NULL, &s) && !gutil_unsigned_mbn_decode2(&d, &u) && !gutil_signed_mbn_decode2(&d, &s) && u == 5 && s == 5, "no data");
    do {
        if (a || !strcmp(p, "D01")) { encoding(0); decoding(0); }
        if (a || !strcmp(p, "D02")) { encoding(1); decoding(1); }
        if (a || !strcmp(p, "D03")) { decoding(0); decoding(1); tlvdec(); }
        if (a || !strcmp(p, "D04")) { if (rn(4)) tlvdec(); else tlvenc(); }
        if (a || !strcmp(p, "D05")) tlvs();
        n++;
    } while (more(1));
    printf("ok: %ld random rounds\n", n);
    return 0;
}
