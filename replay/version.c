/* Version macros and constants, also within expressions. */
#include "common.h"
#include "../specs/version_wrap.c"
static guint num(guint a, guint b, guint c) { return a * 0x1000000u + b * 0x1000u + c; }
int main(int argc, char** argv) {
    long k = 0; char s[32]; int i; guint n[3];
    common_init();
    n[0] = gutil_version_major; n[1] = gutil_version_minor; n[2] = gutil_version_micro;
    CHECK(n[0] == GUTIL_VERSION_MAJOR && n[1] == GUTIL_VERSION_MINOR && n[2] == GUTIL_VERSION_MICRO, "the constants are %u.%u.%u", n[0], n[1], n[2]);
    sprintf(s, "%u.%u.%u", n[0], n[1], n[2]); CHECK(!strcmp(s, GUTIL_VERSION_STRING), "version string %s of %s", GUTIL_VERSION_STRING, s);
    CHECK(w_current() == num(n[0], n[1], n[2]) && w_runtime() == w_current() && w_runtime_less(7) == w_current() - 7, "packed version 0x%x, runtime 0x%x", w_current(), w_runtime());
#define NAME(i) CHECK(w_named_##i() == num(1, 0, i) && w_named_##i() <= w_current(), "GUTIL_VERSION_1_0_" #i " is 0x%x", w_named_##i());
    NAME(69) NAME(70) NAME(71) NAME(72) NAME(73) NAME(74) NAME(75) NAME(76) NAME(77) NAME(78) NAME(79)
    do { guint v[6], w = (guint)ri(), x = (guint)ri(), A, B, p = rn(2); int lt;
        for (i = 0; i < 6; i++) { v[i] = rn(3) ? (guint)ri() : i > 2 ? v[i - 3] : rn(4); v[i] &= i % 3 ? 0xfff : 0x7f; }
        trace_reset(); TR("%u.%u.%u and %u.%u.%u, words 0x%x 0x%x, choice %u", v[0], v[1], v[2], v[3], v[4], v[5], w, x, p);
        A = num(v[0], v[1], v[2]); B = num(v[3], v[4], v[5]); lt = v[0] != v[3] ? v[0] < v[3] : v[1] != v[4] ? v[1] < v[4] : v[2] < v[5];
        CHECK(w_pack(v[0], v[1], v[2]) == A && w_packi(v[0], v[1], v[2]) == (int)A, "packed 0x%x", w_pack(v[0], v[1], v[2]));
        CHECK(w_major(A) == v[0] && w_minor(A) == v[1] && w_micro(A) == v[2], "unpacked %u.%u.%u", w_major(A), w_minor(A), w_micro(A));
        CHECK(w_pack(w, x, w) == num(w & 0x7f, x & 0xfff, w & 0xfff), "numbers too large");
        CHECK(w_pack_choice(p, v[0], v[1], v[2], v[3], v[4], v[5]) == (p ? A : B) && w_pack_less(v[0], v[1], v[2]) == A - A / 2, "within an expression");
        CHECK(!w_order(v[0], v[1], v[2], v[3], v[4], v[5]) == !lt, "order");
        CHECK(w_major(w) == ((w >> 24) & 0x7f) && w_minor(w) == ((w >> 12) & 0xfff) && w_micro(w) == (w & 0xfff), "fields of a word");
        CHECK(w_major_choice(p, w, x) == 3 * (((p ? w : x) >> 24) & 0x7f) && w_minor_choice(p, w, x) == 3 * (((p ? w : x) >> 12) & 0xfff) && w_micro_choice(p, w, x) == 3 * ((p ? w : x) & 0xfff), "field within an expression");
        k++; } while (more(1));
    printf("ok: %ld random cases\n", k);
    return 0;
}
