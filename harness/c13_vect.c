/* C13: growable vectors against plain arrays, several element types */
#include "vh.h"
#include "fast/vect.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define T int
#define NAME i32
#define MK(x) ((int)(x))
#define EQ(a, b) ((a) == (b))
#define CMPE(a, b) ((a) < (b) ? -1 : (a) > (b))
#include "c13_vect.h"
#undef T
#undef NAME
#undef MK
#define T uint64_t
#define NAME u64
#define MK(x) (x)
#include "c13_vect.h"
#undef T
#undef NAME
#undef MK
#define T unsigned char
#define NAME u8
#define MK(x) ((unsigned char)(x))
#include "c13_vect.h"
#undef T
#undef NAME
#undef MK
#undef EQ
#undef CMPE
typedef struct { char tag[3]; uint64_t a; uint16_t b; } __attribute__((packed)) rec;
static rec mkrec(uint64_t x) { rec r; memcpy(r.tag, &x, 3); r.a = vh_mix(x); r.b = (uint16_t)x; return r; }
#define T rec
#define NAME rec
#define MK(x) mkrec(x)
#define EQ(x, y) ({ T x_ = (x), y_ = (y); !memcmp(&x_, &y_, sizeof x_); })
#define CMPE(x, y) memcmp(&(x), &(y), sizeof(x))
#include "c13_vect.h"
/* pushing an expression whose type is narrower or wider than the element */
VECT_TYPEDEF(mix64, uint64_t); VECT_TYPEDEF(mix16, uint16_t);
static void mixed(void)
{
    mix64 v; mix16 w; VECT_INIT(&v, 2); VECT_INIT(&w, 2); int n = 1 + (int)vrn(40); uint64_t m[50]; int k = 0;
    for (int i = 0; i < n; i++) { unsigned char x = (unsigned char)vr(); if (vrp(50)) { VECT_PUSH_FRONT(&v, x); VECT_PUSH_FRONT(&w, (long)x); memmove(m + 1, m, (size_t)k * 8); m[0] = x; } else { VECT_PUSH_BACK(&v, x); VECT_PUSH_BACK(&w, (long)x); m[k] = x; } k++; }
    for (int i = 0; i < k; i++) if (VECT_ELEM(&v, i) != m[i] || VECT_ELEM(&w, i) != m[i]) { vh_viol("vect:conversion", "element %d of %d is %llu/%u, pushed %llu", i, k, (unsigned long long)VECT_ELEM(&v, i), VECT_ELEM(&w, i), (unsigned long long)m[i]); break; }
    VECT_FINI(&v); VECT_FINI(&w);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        int t = (int)vrn(4); vh_case("type=%d", t); uint64_t s = t == 0 ? run_i32() : t == 1 ? run_u64() : t == 2 ? run_u8() : run_rec(); mixed();
        vh_count("evals", 1); vh_sig(vh_h(s, (uint64_t)t)); if (c < 3) vh_sample("element type %d", t); if (vh_nviol) break;
    }
    return vh_end();
}
