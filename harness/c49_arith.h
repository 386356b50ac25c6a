/*
 * C49: rounding, alignment, power-of-two, duration, clock, clamping and
 * allocation macros against exact 128-bit arithmetic, in C and (with the
 * templates) in C++.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <time.h>
#include <sys/time.h>
#include "vh.h"
#include "utils/utils.h"
#include "utils/typeutils.h"
#include "utils/nospec.h"
#include "fast/tmutils.h"

typedef unsigned __int128 u128;

/* ---- fake clock ---- */
static int      fake_on;
static uint64_t f_real_s, f_real_us, f_mono_s, f_mono_ns;
static unsigned clock_calls;
#ifdef __cplusplus
extern "C" {
#endif
int __real_gettimeofday(struct timeval *, void *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
    if (!fake_on) return __real_gettimeofday(tv, z);
    clock_calls++;
    tv->tv_sec = (time_t)f_real_s; tv->tv_usec = (suseconds_t)f_real_us;
    return 0;
}
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!fake_on) return __real_clock_gettime(id, ts);
    clock_calls++;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        ts->tv_sec = (time_t)f_real_s; ts->tv_nsec = (long)(f_real_us * 1000);
    } else {
        ts->tv_sec = (time_t)f_mono_s; ts->tv_nsec = (long)f_mono_ns;
    }
    return 0;
}
#ifdef __cplusplus
}
#endif

/* a value whose interesting bits are anywhere: small, near powers of two, near max, random */
static uint64_t val(uint64_t max)
{
    uint64_t r;
    switch (vrn(6)) {
    case 0: r = vrn(300); break;
    case 1: r = (1ULL << vrn(64)) + vrn(9) - 4; break;
    case 2: r = max - vrn(70); break;
    case 3: r = vr(); break;
    case 4: r = vr() >> vrn(64); break;
    default: r = (vr() >> vrn(64)) & ~((1ULL << vrn(64)) - 1); break;
    }
    return r <= max ? r : (max == UINT64_MAX ? r : r % (max + 1));
}

static u128 ref_up(u128 v, u128 n)   { return (v + n - 1) / n * n; }
static u128 ref_down(u128 v, u128 n) { return v / n * n; }
static u128 ref_pow2(u128 v)         { u128 p = 1; while (p < v) p *= 2; return p; }
static int  ref_is2(u128 v)          { return v && ref_pow2(v) == v; }

#define S(x) ((unsigned long long)(x))

/* align/round a value of type T with maximum MAX */
#define ALIGN_T(T, MAX, NAME) do {                                              \
    unsigned lim_ = 0; while (lim_ < 63 && (1ULL << (lim_ + 1)) <= (uint64_t)(MAX)) lim_++; \
    uint64_t n_ = 1ULL << vrn(lim_ + 1);                                         \
    uint64_t v_ = val((uint64_t)(MAX));                                         \
    T v = (T)v_;                                                                \
    vh_case_add(" %s v=%llu n=%llu", NAME, S(v_), S(n_));                        \
    u128 up_ = ref_up(v_, n_), dn_ = ref_down(v_, n_);                           \
    if (up_ <= (u128)(MAX)) {                                                   \
        T r = _ALIGN_UP(v, n_);                                                 \
        if ((u128)r != up_) vh_viol("align-up", "_ALIGN_UP(%s %llu, %llu) = %llu, smallest multiple not below it is %llu", NAME, S(v_), S(n_), S(r), S(up_)); \
        vh_count("aligned_up", 1);                                               \
    }                                                                           \
    T d_ = _ALIGN_DOWN(v, n_);                                                   \
    if ((u128)d_ != dn_) vh_viol("align-down", "_ALIGN_DOWN(%s %llu, %llu) = %llu, largest multiple not above it is %llu", NAME, S(v_), S(n_), S(d_), S(dn_)); \
    int ia_ = _IS_ALIGNED(v, n_) ? 1 : 0;                                        \
    if (ia_ != (dn_ == v_)) vh_viol("is-aligned", "_IS_ALIGNED(%s %llu, %llu) = %d", NAME, S(v_), S(n_), ia_); \
    if (ia_) vh_count("already_aligned", 1);                                     \
    if (v_) {                                                                   \
        int p2_ = _IS_POW2(v) ? 1 : 0;                                           \
        if (p2_ != ref_is2(v_)) vh_viol("is-pow2", "_IS_POW2(%s %llu) = %d", NAME, S(v_), p2_); \
        if (p2_) vh_count("powers", 1);                                          \
        u128 np_ = ref_pow2(v_);                                                 \
        if (np_ <= (u128)(MAX)) {                                               \
            T r = NEXTPOW2(v);                                                  \
            if ((u128)r != np_) vh_viol("nextpow2", "NEXTPOW2(%s %llu) = %llu, smallest power of two not below it is %llu", NAME, S(v_), S(r), S(np_)); \
            vh_count("rounded", 1);                                              \
        }                                                                       \
    }                                                                           \
    CXX_ALIGN(T, MAX, NAME, v_, n_, up_, dn_);                                   \
    sig = vh_h(vh_h(sig, v_), n_);                                              \
} while (0)

#ifdef __cplusplus
#define CXX_ALIGN(T, MAX, NAME, v_, n_, up_, dn_) do {                           \
    T w = (T)v_;                                                                \
    if (up_ <= (u128)(MAX)) { T r = putils::align_up<T>(w, n_);                  \
        if ((u128)r != up_) vh_viol("cxx-align-up", "align_up(%s %llu, %llu) = %llu not %llu", NAME, S(v_), S(n_), S(r), S(up_)); } \
    T r2 = putils::align_down<T>(w, n_);                                         \
    if ((u128)r2 != dn_) vh_viol("cxx-align-down", "align_down(%s %llu, %llu) = %llu not %llu", NAME, S(v_), S(n_), S(r2), S(dn_)); \
    if (putils::is_aligned<T>(w, n_) != (dn_ == v_)) vh_viol("cxx-is-aligned", "is_aligned(%s %llu, %llu) wrong", NAME, S(v_), S(n_)); \
    if (v_ && ref_pow2(v_) <= (u128)(MAX)) { T r = putils::round_up_pow2<T>(w);  \
        if ((u128)r != ref_pow2(v_)) vh_viol("cxx-pow2", "round_up_pow2(%s %llu) = %llu", NAME, S(v_), S(r)); } \
    vh_count("templates", 1);                                                    \
} while (0)
#else
#define CXX_ALIGN(T, MAX, NAME, v_, n_, up_, dn_) do { } while (0)
#endif

static uint64_t do_align(uint64_t sig)
{
    switch (vrn(9)) {
    case 0: ALIGN_T(uint8_t, UINT8_MAX, "uint8_t"); break;
    case 1: ALIGN_T(uint16_t, UINT16_MAX, "uint16_t"); break;
    case 2: ALIGN_T(uint32_t, UINT32_MAX, "uint32_t"); break;
    case 3: ALIGN_T(int, INT_MAX, "int"); break;
    case 4: ALIGN_T(long, LONG_MAX, "long"); break;
    case 5: ALIGN_T(size_t, SIZE_MAX, "size_t"); break;
    case 6: ALIGN_T(int16_t, INT16_MAX, "int16_t"); break;
    default: ALIGN_T(uint64_t, UINT64_MAX, "uint64_t"); break;
    }
    /* pointers */
    uint64_t n = 1ULL << vrn(20);
    uint64_t a = val(0x7fffffffffffULL);
    char *p = (char *)(uintptr_t)a;
    char *u = _ALIGN_UP(p, n), *d = _ALIGN_DOWN(p, n);
    if ((u128)(uintptr_t)u != ref_up(a, n)) vh_viol("align-up", "_ALIGN_UP(pointer %llx, %llu) = %p", S(a), S(n), (void *)u);
    if ((u128)(uintptr_t)d != ref_down(a, n)) vh_viol("align-down", "_ALIGN_DOWN(pointer %llx, %llu) = %p", S(a), S(n), (void *)d);
    if (!!_IS_ALIGNED(p, n) != (ref_down(a, n) == a)) vh_viol("is-aligned", "_IS_ALIGNED(pointer %llx, %llu) wrong", S(a), S(n));
    vh_count("pointers", 1);
    /* arguments with side effects and low-precedence operators are taken once */
    uint64_t w = 1000 + vrn(1000), w0 = w, k = 8;
    uint64_t r = _ALIGN_UP(w++, k | 16 & 0);
    if (w != w0 + 1 || r != ref_up(w0, 8)) vh_viol("once", "_ALIGN_UP evaluated its argument %lld times or misread an expression (%llu)", (long long)(w - w0), S(r));
    w = w0; r = NEXTPOW2(w++);
    if (w != w0 + 1 || r != ref_pow2(w0)) vh_viol("once", "NEXTPOW2 evaluated its argument %lld times", (long long)(w - w0));
    w = w0; r = _ALIGN_DOWN(w++, 64);
    if (w != w0 + 1 || r != ref_down(w0, 64)) vh_viol("once", "_ALIGN_DOWN evaluated its argument %lld times", (long long)(w - w0));
    return sig;
}

/* ---- clamped index ---- */
#define CLAMP_T(TI, TS, NAME, ii, ss, inr) do {                                  \
    TI i_ = (TI)(ii); TS s_ = (TS)(ss);                                         \
    TI r_ = array_index_nospec(i_, s_);                                          \
    TI want_ = (inr) ? i_ : (TI)0;                                               \
    if (r_ != want_) vh_viol("nospec", "array_index_nospec(%s %lld, %llu) = %lld, index is %s", NAME, (long long)i_, S(s_), (long long)r_, (inr) ? "in range" : "out of range"); \
    vh_count((inr) ? "in_range" : "out_of_range", 1);                            \
} while (0)

static uint64_t do_clamp(uint64_t sig)
{
    uint64_t s = val(1ULL << 63), i;
    switch (vrn(4)) {
    case 0: i = s ? vr() % s : 0; break;
    case 1: i = s + vrn(5) - 2; break;
    case 2: i = val(UINT64_MAX); break;
    default: i = s - 1; break;
    }
    vh_case_add(" clamp %llu size %llu", S(i), S(s));
    CLAMP_T(uint64_t, uint64_t, "uint64_t", i, s, i < s);
    uint64_t m = __array_index_mask_nospec(i, s);
    if (m != (i < s ? ~0ULL : 0)) vh_viol("nospec-mask", "mask of index %llu for size %llu is %llx", S(i), S(s), S(m));
    int si = (int)vr(); unsigned us = (unsigned)(vr() >> vrn(32)); if (vrn(2) && us) si = (int)(vr() % us);
    CLAMP_T(int, unsigned, "int", si, us, si >= 0 && (uint64_t)si < us);
    uint8_t bi = (uint8_t)vr(); int bs = (int)vrn(257);
    CLAMP_T(uint8_t, int, "uint8_t", bi, bs, (int)bi < bs);
    uint32_t ui = (uint32_t)(vr() >> vrn(32)); uint64_t ls = vrn(2) ? vrn(70000) : (vr() >> (1 + vrn(40)));
    CLAMP_T(uint32_t, uint64_t, "uint32_t", ui, ls, ui < ls);
    uint64_t j = i; uint64_t z = array_index_nospec(j++, s);
    if (j != i + 1 || z != (i < s ? i : 0)) vh_viol("once", "array_index_nospec evaluated its index %lld times", (long long)(j - i));
    return vh_h(vh_h(sig, i), s);
}

/* ---- durations and clocks ---- */
#define DUR(MACRO, mul, NAME) do {                                               \
    u128 w_ = (u128)n * (mul);                                                   \
    if (w_ <= UINT64_MAX) {                                                     \
        uint64_t r_ = MACRO(n);                                                  \
        if (r_ != w_) vh_viol("duration", "%s(%llu) = %llu, which is %llu", NAME, S(n), S(r_), S(w_)); \
        vh_count("durations", 1);                                                \
        if (n <= INT_MAX) { int q_ = (int)n; r_ = MACRO(q_);                      \
            if (r_ != w_) vh_viol("duration", "%s((int)%llu) = %llu, which is %llu", NAME, S(n), S(r_), S(w_)); } \
        if (n >= 3 && n <= UINT_MAX) { unsigned q_ = (unsigned)n - 3; r_ = MACRO(q_ + 3); \
            if (r_ != w_) vh_viol("duration", "%s(x + 3) = %llu for x + 3 = %llu, which is %llu", NAME, S(r_), S(n), S(w_)); } \
    }                                                                           \
} while (0)

static uint64_t do_time(uint64_t sig)
{
    uint64_t n = val(UINT64_MAX);
    vh_case_add(" n=%llu", S(n));
    DUR(_Hour, 3600ULL * 1000000000, "_Hour");
    DUR(_Minute, 60ULL * 1000000000, "_Minute");
    DUR(_Second, 1000000000ULL, "_Second");
    DUR(_Millisecond, 1000000ULL, "_Millisecond");
    DUR(_Microsecond, 1000ULL, "_Microsecond");
    DUR(_Nanosecond, 1ULL, "_Nanosecond");
    DUR(_SEC, 1000000ULL, "_SEC");
    DUR(_MSEC, 1000ULL, "_MSEC");
    DUR(_USEC, 1ULL, "_USEC");

    f_real_s = vr() >> (21 + vrn(40)); f_real_us = vrn(1000000);      /* up to 2^43 s */
    f_mono_s = vr() >> (31 + vrn(33)); f_mono_ns = vrn(1000000000);   /* up to 2^33 s */
    if (vrn(4) == 0) { f_real_us = vrn(2) ? 999999 : 0; f_mono_ns = vrn(2) ? 999999999 : 0; }
    fake_on = 1;
    uint64_t a = now(), b = timenow_us(), c = timenow();
    fake_on = 0;
    u128 us = (u128)f_real_s * 1000000 + f_real_us, ns = (u128)f_mono_s * 1000000000 + f_mono_ns;
    if (a != us) vh_viol("clock", "now() is %llu at %llu s %llu us", S(a), S(f_real_s), S(f_real_us));
    if (b != us) vh_viol("clock", "timenow_us() is %llu at %llu s %llu us", S(b), S(f_real_s), S(f_real_us));
    if (c != ns) vh_viol("clock", "timenow() is %llu at %llu s %llu ns", S(c), S(f_mono_s), S(f_mono_ns));
    vh_count("clocks", 3);
    vh_count("clock_calls", clock_calls); clock_calls = 0;
    /* the real clocks never run backwards between two reads */
#if defined(__x86_64__)
    {   /* the cycle counter lies between two readings of the counter itself (unless the thread moves to another processor) */
        int ok = 0; uint64_t a0 = 0, m0 = 0, b0 = 0; for (int k = 0; k < 200 && !ok; k++) { a0 = __builtin_ia32_rdtsc(); m0 = sys_cpu_timestamp(); b0 = __builtin_ia32_rdtsc(); ok = a0 <= m0 && m0 <= b0; sys_cpu_pause(); }
        if (!ok) vh_viol("clock", "sys_cpu_timestamp() is %llu between %llu and %llu", S(m0), S(a0), S(b0)); vh_count("cycle_counts", 1);
    }
#endif
    uint64_t t0 = timenow(), t1 = timenow();
    if (t1 < t0) vh_viol("clock", "timenow() went from %llu to %llu", S(t0), S(t1));
    return vh_h(vh_h(sig, n), f_real_s);
}

/* ---- allocation helpers ---- */
struct odd { char a; uint64_t b; char c[5]; };
static uint64_t do_alloc(uint64_t sig)
{
    size_t n = 1 + vrn(200);
    /* dirty the heap so that zeroing is visible */
    char *junk = (char *)malloc(n * sizeof(struct odd)); memset(junk, 0x5a, n * sizeof(struct odd)); free(junk);
    struct odd *z = NEWZA(struct odd, n);
    if (!z) return sig;
    for (size_t i = 0; i < n * sizeof *z; i++)
        if (((char *)z)[i]) { vh_viol("alloc", "NEWZA left byte %zu non-zero", i); break; }
    memset(z, 0x33, n * sizeof *z);
    size_t m = n + 1 + vrn(100);
    z = RENEWA(struct odd, z, m - 1 + 1);
    if (!z) return sig;
    for (size_t i = 0; i < n * sizeof *z; i++)
        if (((char *)z)[i] != 0x33) { vh_viol("alloc", "RENEWA lost byte %zu", i); break; }
    memset(z, 0x44, m * sizeof *z);
    struct odd *y = NEWA(struct odd, n + 1), *x = NEW(struct odd), *v = NEWZ(struct odd);
    if (y) memset(y, 1, (n + 1) * sizeof *y);
    if (x) memset(x, 1, sizeof *x);
    if (v) for (size_t i = 0; i < sizeof *v; i++) if (((char *)v)[i]) { vh_viol("alloc", "NEWZ left byte %zu non-zero", i); break; }
    DEL(z); DEL(y); DEL(x); DEL(v); DEL(v);
    if (z || y || x || v) vh_viol("alloc", "DEL left the pointer set");
    struct odd arr[7]; uint16_t brr[13];
    if (ARRAY_SIZE(arr) != 7 || ARRAY_SIZE(brr) != 13) vh_viol("array-size", "ARRAY_SIZE is %zu and %zu for 7 and 13 elements", ARRAY_SIZE(arr), ARRAY_SIZE(brr));
    int64_t q = (int64_t)(vr() << vrn(64));
    if (!!(likely(q)) != !!q || !!(unlikely(q)) != !!q) vh_viol("likely", "likely/unlikely(%lld) changed the truth value", (long long)q);
    vh_count("allocations", 5);
    return vh_h(sig, n);
}

int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        uint64_t sig = 0x49;
        unsigned k = (unsigned)(c % 8);
        if (k < 3) { vh_case("align"); sig = do_align(sig); }
        else if (k < 5) { vh_case("clamp"); sig = do_clamp(sig); }
        else if (k < 7) { vh_case("time"); sig = do_time(sig); }
        else { vh_case("alloc"); sig = do_alloc(sig); }
        vh_count("evals", 1);
        vh_sig(sig);
        if (c < 8) vh_sample("%s", vh_casebuf);
        if (vh_nviol) break;
    }
    return vh_end();
}
