/* C15: single-threaded ring queue and growable byte buffer */
#include "vh.h"
#include "fast/queue.h"
#include "fast/buf.h"
typedef struct { uint64_t a; unsigned char b; } item;
FQ_TYPEDEF(q5, int, 5); FQ_TYPEDEF(q2, uint64_t, 2); FQ_TYPEDEF(q1, char, 1); FQ_TYPEDEF(q64, unsigned short, 64); FQ_DYN_TYPEDEF(qd, item);
#define RUN(q, sz, TY, MKE, EQE) do { TY m[600], e, z; uint32_t head = 0, cnt = 0, cap = (uint32_t)(sz)-1; uint64_t ops = 20 + vrsz(2000); int bias = 55; \
    for (uint64_t o = 0; o < ops && !vh_nviol; o++) { if (o % 61 == 0) bias = vrp(33) ? 90 : vrp(50) ? 20 : 55; \
        if (vrp(bias)) { e = MKE(vr()); int r = FQ_ENQ(q, e); if (r != (cnt < cap)) vh_viol("fq:enq", "enqueue with %u of %u pending returned %d", cnt, cap, r); if (r) { m[(head + cnt) % 600] = e; cnt++; } else vh_count("full", 1); } \
        else if (vrp(97)) { memset(&z, 0x3c, sizeof z); TY z0 = z; int r = FQ_DEQ(q, z); if (r != (cnt > 0)) vh_viol("fq:deq", "dequeue with %u pending returned %d", cnt, r); if (r) { if (!EQE(z, m[head])) vh_viol("fq:order", "dequeued element is not the oldest"); head = (head + 1) % 600; cnt--; } else { if (memcmp(&z, &z0, sizeof z)) vh_viol("fq:deq-empty", "failed dequeue changed the target"); vh_count("empty", 1); } } \
        else if (vrp(30)) { FQ_RESET(q); cnt = 0; } \
        if (FQ_SIZE(q) != cnt || !!FQ_EMPTY_P(q) != !cnt || !!FQ_FULL_P(q) != (cnt == cap)) vh_viol("fq:state", "size %u empty %d full %d with %u of %u pending", FQ_SIZE(q), FQ_EMPTY_P(q), FQ_FULL_P(q), cnt, cap); sig = vh_h(sig, cnt); } \
    vh_count("ops", ops); } while (0)
#define ID(x) (x)
static item mki(uint64_t x) { item i; memset(&i, 0, sizeof i); i.a = x; i.b = (unsigned char)(x >> 9); return i; }
#define EQS(a, b) ((a) == (b))
#define EQI(x, y) ((x).a == (y).a && (x).b == (y).b)
#define HEAPQ(T, n, sz, ET) { T *q = malloc(sizeof *q); FQ_INIT(q, sz); RUN(q, sz, ET, ID, EQS); FQ_FINI(q); free(q); }
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        int k = (int)vrn(7); vh_case("kind=%d", k); uint64_t sig = (uint64_t)k;
        switch (k) {
        case 0: HEAPQ(q5, 0, 5, int) break; case 1: HEAPQ(q2, 0, 2, uint64_t) break; case 2: HEAPQ(q1, 0, 1, char) break; case 3: HEAPQ(q64, 0, 64, unsigned short) break;
        case 4: { uint32_t sz = 1 + (uint32_t)vrn(500); qd q; FQ_DYN_INIT(&q, sz); sig = vh_h(sig, sz); RUN(&q, sz, item, mki, EQI); FQ_DYN_FINI(&q); break; }
        default: {
            fast_buf b; size_t init = vrp(30) ? 0 : vrp(50) ? 1 + vrn(3) : 1 + vrsz(300); static unsigned char m[200000]; size_t n = 0; sig = vh_h(sig, init);
            if (fast_buf_init(&b, init) != &b) vh_viol("buf:init", "return value"); if (fast_buf_cap(&b) < init) vh_viol("buf:init", "capacity %zu, asked %zu", fast_buf_cap(&b), init);
            uint64_t ops = 10 + vrsz(1500); for (uint64_t o = 0; o < ops && !vh_nviol; o++) {
                int op = (int)vrn(9); if (n > 150000) op = 7;
                if (op < 4) { uint8_t x = (uint8_t)vr(); fast_buf_append_byte(&b, x); m[n++] = x; }
                else if (op < 6 && n && vrp(12)) { size_t o = vrn(n), z = 1 + vrn(n - o); if (n + z > 9000) z = 0; vh_count("selfs", 1); if (fast_buf_append_buf(&b, fast_buf_ptr(&b) + o, z) != &b) vh_viol("buf:append", "return value of a self-append"); memmove(m + n, m + o, z); n += z; }
                else if (op < 6) { size_t z = vrp(20) ? fast_buf_cap(&b) - n : vrp(20) ? fast_buf_cap(&b) - n + 1 : vrsz(500); if (z > 2000) z = 2000; unsigned char *s = malloc(z + (z == 0)); vrbytes(s, z); if (fast_buf_append_buf(&b, s, z) != &b) vh_viol("buf:append", "return value"); memcpy(m + n, s, z); n += z; free(s); }
                else if (op == 6) { size_t z = vrsz(300); fast_buf_grow(&b, z); if (fast_buf_cap(&b) < n + z) vh_viol("buf:grow", "capacity %zu for %zu+%zu", fast_buf_cap(&b), n, z); unsigned char *p = fast_buf_ptr(&b) + n; vrbytes(p, z); memcpy(m + n, p, z); if (fast_buf_advance(&b, z) != &b) vh_viol("buf:advance", "not the buffer returned"); n += z; }
                else if (op == 7) { if (vrp(10) || n > 150000) { fast_buf_reset(&b); n = 0; } }
                else { size_t z = vrsz(2000); fast_buf_reserve(&b, z); if (fast_buf_cap(&b) < z) vh_viol("buf:reserve", "capacity %zu, asked %zu", fast_buf_cap(&b), z); }
                if (fast_buf_len(&b) != n) vh_viol("buf:len", "length %zu, expected %zu", fast_buf_len(&b), n); if (fast_buf_cap(&b) < n) vh_viol("buf:cap", "capacity below length");
                if ((o % 16 == 0 || o + 1 == ops) && memcmp(fast_buf_ptr(&b), m, n)) vh_viol("buf:content", "content of %zu bytes differs after operation %d", n, op);
                sig = vh_h(sig, (uint64_t)op * 1000 + n);
            }
            fast_buf_fini(&b); if (fast_buf_len(&b) || fast_buf_ptr(&b)) vh_viol("buf:fini", "not empty"); fast_buf_fini(&b); vh_count("bufs", 1); vh_count("ops", ops); break; }
        }
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("kind %d", k); if (vh_nviol) break;
    }
    return vh_end();
}
