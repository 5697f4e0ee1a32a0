/* Native conformance runs: the real code against an independent oracle. */
#ifndef COMMON_H
#define COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <limits.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <sys/time.h>
#include <glib.h>

static uint64_t rs_ = 88172645463325252ull;
static uint64_t rnd(void) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return rs_; }
static unsigned rn(unsigned n) { return n ? (unsigned)(rnd() % n) : 0; }

static int64_t hint_[1024]; static int nhint_;
static struct timespec t0_; static double secs_ = 5;

static char trace_[1 << 16]; static int ntrace_; static int trace_on_ = 1;
static void TR(const char* f, ...) {
    va_list va;
    if (!trace_on_) return;
    if (ntrace_ > (int)sizeof(trace_) - 512) { return; }
    va_start(va, f);
    ntrace_ += vsnprintf(trace_ + ntrace_, sizeof(trace_) - ntrace_, f, va);
    if (ntrace_ >= (int)sizeof(trace_)) ntrace_ = sizeof(trace_) - 1;
    va_end(va);
}
static void hung_(int s) { printf("FAIL: does not return\n  history: %s\n", trace_); fflush(stdout); _exit(1); }
static void watch_(void) { struct itimerval t = { { 0, 0 }, { 20, 0 } }; signal(SIGVTALRM, hung_); setitimer(ITIMER_VIRTUAL, &t, NULL); }
static void trace_reset(void) {     /* every history is done within 20 s of processor time */
    ntrace_ = 0; trace_[0] = 0;
    watch_();
}

#define FAIL(...) do { fflush(stderr); printf("FAIL: "); printf(__VA_ARGS__); printf("\n  history: %s\n", trace_); fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

void __asan_on_error(void);
void __asan_on_error(void) { printf("FAIL: sanitizer report, history: %s\n", trace_); fflush(stdout); }

static void common_init(void) {
    const char* h = getenv("HINTS"); char* e;
    const char* s = getenv("VSEED");
    uint64_t seed = s ? strtoull(s, NULL, 10) : 1;
    int i;
    rs_ ^= seed * 0x9e3779b97f4a7c15ull; if (!rs_) rs_ = 1;
    for (i = 0; i < 20; i++) rnd();
    if (getenv("VSECS")) secs_ = atof(getenv("VSECS"));
    while (h && *h && nhint_ < 1020) {
        int64_t v;
        while (*h == ' ') h++;
        if (!*h) break;
        v = (int64_t)strtoull(h, &e, 10);
        if (e == h) break;
        h = e;
        hint_[nhint_++] = v;
    }
    clock_gettime(CLOCK_MONOTONIC, &t0_);
}
static int more(double share) {     /* time left within the given share of the budget */
    struct timespec t;
    watch_();
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (t.tv_sec - t0_.tv_sec) + (t.tv_nsec - t0_.tv_nsec) / 1e9 < secs_ * share;
}
static int64_t ri(void) {           /* interesting 64-bit integer */
    static const int64_t c[] = { 0, 1, -1, 2, 3, 7, 8, 15, 16, 63, 64, 127, 128, 255, 256, -64, -65, -128,
        INT_MAX, INT_MIN, (int64_t)INT_MAX + 1, (int64_t)INT_MIN - 1, UINT_MAX, (int64_t)UINT_MAX + 1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1 };
    unsigned k = rn(nhint_ ? 7 : 5);
    int64_t v;
    switch (k) {
    case 0: return (int64_t)((uint64_t)c[rn(sizeof(c) / sizeof(c[0]))] + rn(3) - 1);
    case 1: return (int64_t)rn(8) - 2;
    case 2: v = (int64_t)(rnd() >> rn(64)); return rn(2) ? v : (int64_t)(0 - (uint64_t)v);
    case 3: v = (int64_t)(1ull << rn(64)); v = (int64_t)((uint64_t)v + rn(3) - 1); return rn(2) ? v : (int64_t)(0 - (uint64_t)v);
    case 4: return (int64_t)rnd();
    default: return (int64_t)((uint64_t)hint_[rn(nhint_)] + rn(3) - 1);
    }
}
static int small(int n) {            /* 0..n-1, sometimes a (bounded) hint */
    if (nhint_ && !rn(6)) { int64_t v = (int64_t)((uint64_t)hint_[rn(nhint_)] + rn(3) - 1); if (v >= 0 && v < 5000) return (int)v; }
    return (int)rn(n);
}
#endif
