/* C08: Bloom filters: no false negatives, counting multiset semantics, false-positive rate, element count, memory */
#include "vh.h"
#include <math.h>
#include "utils/utils.h"
#include "utils/bloom.h"
static uint64_t ent;
int getentropy(void *p, size_t n) { unsigned char *q = p; while (n--) { ent = vh_mix(ent + 0x1234567); *q++ = (unsigned char)(ent >> 33); } return 0; }
static uint64_t desc_count(Bloom *b)
{
    static char buf[65536]; memset(buf, 0, sizeof buf); Bloom_desc(b, buf, sizeof buf); unsigned long long t = 0, v; char *p = buf;
    while ((p = strstr(p, " elem"))) { char *q = p; while (q > buf && q[-1] >= '0' && q[-1] <= '9') q--; v = strtoull(q, 0, 10); t += v; p++; }
    /* a short buffer is not overrun */
    size_t n = vrn(200) + 1; char *s = malloc(n); Bloom_desc(b, s, n); if (strnlen(s, n) >= n) vh_viol("bloom:desc-term", "description not terminated in %zu bytes", n); free(s);
    return t;
}
typedef struct { uint64_t k; int mult; } ent_t;
static ent_t E[200000];
static uint64_t key(int style, uint64_t i, uint64_t b) { return style == 0 ? vh_mix(b + i) : style == 1 ? i : style == 2 ? (i << 32) : style == 3 ? b ^ (i << 56) ^ i : ~i; }
static Bloom *mk(int kind, uint64_t n, double e) { return kind == 2 ? Counting_bloom_new(n, e) : Standard_bloom_new(n, e, kind); }
/* comparison: equal histories (with the same salt) compare equal, filters that answer differently do not */
static void equality(void)
{
    int kind = (int)vrn(3), m = (int)vrn(400), same; uint64_t n = 1 + vrn(300), base = vr(), s0 = vr(); double e = 0.001 + (double)vrn(300) / 1000; vh_case("compare: kind=%d n=%llu e=%g m=%d", kind, (unsigned long long)n, e, m);
    ent = s0; Bloom *a = mk(kind, n, e); ent = s0; Bloom *b = mk(kind, n, e); uint64_t eb = ent, ea = ent; if (!a || !b) { vh_viol("bloom:new", "creation failed"); return; }
    int at = vrp(50) ? (int)vrn((uint64_t)m + 1) : m;
    for (int i = 0; i < m; i++) { uint64_t k = vh_mix(base + (uint64_t)i); ent = ea; Bloom_probe(a, k); ea = ent; ent = eb; Bloom_probe(b, k); eb = ent; /* each layer of a scalable filter draws a salt of its own */ if (kind == 2 && vrp(20)) { k = vh_mix(base + vrn((uint64_t)i + 1)); if (Bloom_remove(a, k) != Bloom_remove(b, k)) vh_viol("bloom:eq-remove", "removal from equal filters differs"); } if (i == at && !Bloom_eq(a, b)) vh_viol("bloom:eq", "the same %d additions give different filters", i); }
    if (!Bloom_eq(a, b) || !Bloom_eq(b, a) || !Bloom_eq(a, a)) vh_viol("bloom:eq", "the same %d additions give different filters", m);
    uint64_t x = vr(); for (int t = 0; t < 200 && Bloom_find(a, x); t++) x = vr();
    if (!Bloom_find(a, x)) { Bloom_probe(a, x); if (!Bloom_find(a, x)) vh_viol("bloom:forgot-now", "key not found right after adding it"); if (Bloom_eq(a, b) || Bloom_eq(b, a)) vh_viol("bloom:eq-different", "equal although only one contains %llx", (unsigned long long)x); vh_count("unequal", 1); if (kind == 2) { if (!Bloom_remove(a, x)) vh_viol("bloom:remove", "remove of a found key failed"); if (!Bloom_eq(a, b)) vh_viol("bloom:eq", "unequal after the addition was undone"); } }
    /* the same key once more counts in a counting filter */
    if (kind == 2 && m) { uint64_t k = vh_mix(base); if (Bloom_find(a, k) && Bloom_eq(a, b)) { Bloom_probe(b, k); same = Bloom_eq(a, b); Bloom_remove(b, k); if (same) vh_viol("bloom:eq-different", "equal although one counts a key once more"); if (!Bloom_eq(a, b)) vh_viol("bloom:eq", "unequal after the addition was undone"); } }
    ent = s0; Bloom *o = mk((kind + 1 + (int)vrn(2)) % 3, n, e); if (o && (Bloom_eq(b, o) || Bloom_eq(o, b))) vh_viol("bloom:eq-kind", "filters of different kinds compare equal"); Bloom_delete(o);
    ent = s0; o = mk(kind, n * 8 + 100, e); for (int i = 0; o && i < m; i++) Bloom_probe(o, vh_mix(base + (uint64_t)i)); if (o && kind != 1 && (Bloom_eq(b, o) || Bloom_eq(o, b))) vh_viol("bloom:eq-size", "filters of different sizes compare equal"); Bloom_delete(o);
    if (m) { ent = s0 ^ 0x5a5a5a; o = mk(kind, n, e); for (int i = 0; o && i < m; i++) Bloom_probe(o, vh_mix(base + (uint64_t)i)); int diff = 0; for (int t = 0; t < 3000 && !diff; t++) { uint64_t q = vr(); diff = !Bloom_find(b, q) != !Bloom_find(o, q); } if (o && diff && (Bloom_eq(b, o) || Bloom_eq(o, b))) vh_viol("bloom:eq-salt", "filters that answer differently compare equal"); if (diff) vh_count("salted_unequal", 1); Bloom_delete(o); }
    Bloom_delete(a); Bloom_delete(b); vh_count("compared", 1);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        if (vrp(15)) { equality(); if (vh_nviol) break; }
        ent = vr(); int kind = (int)vrn(3); double e; switch (vrn(5)) { case 0: e = 0.001; break; case 1: e = 0.01; break; case 2: e = 0.5; break; case 3: e = pow(2, -(double)(1 + vrn(20))); break; default: e = 0.0001 + (double)vrn(3000) / 10000.0; }
        uint64_t n = 1 + vrsz(vrp(10) ? 20000 : 2000); int fp = vrp(20); if (fp) { n = 1000 + vrn(8000); }
        int style = fp ? 0 : (int)vrn(5); uint64_t base = vr();
        vh_case("kind=%d n=%llu e=%g style=%d fp=%d", kind, (unsigned long long)n, e, style, fp);
        Bloom st, *b; int stat = vrp(50); memset(&st, 0xa5, sizeof st);
        if (kind == 2) b = stat ? Counting_bloom_init(&st, n, e) : Counting_bloom_new(n, e); else b = stat ? Standard_bloom_init(&st, n, e, kind) : Standard_bloom_new(n, e, kind);
        if (!b) { vh_viol("bloom:new", "creation failed"); continue; }
        uint64_t adds = 0; uint64_t m = fp ? n : kind == 1 ? n * (1 + vrn(vrp(5) ? 600 : 40)) : 1 + vrn(2 * n); if (m > 200000) m = 200000; if (kind == 1 && fp) m = n * (1 + vrn(12)); if (m > 60000 && fp) m = 60000;
        if (!fp && kind == 1 && vrp(10)) { m = 20000; }
        int maxmult = vrp(30) ? 600 : 3, muls = 0;
        for (uint64_t i = 0; i < m; i++) { E[i].k = key(style, i, base); E[i].mult = 0; }
        if (kind != 2) {
            for (uint64_t i = 0; i < m; i++) {
                Bloom_probe(b, E[i].k); adds++; if (!fp && vrp(3)) { Bloom_probe(b, E[i].k); adds++; }
                if (!Bloom_find(b, E[i].k)) { vh_viol("bloom:forgot-now", "key %llx not found right after adding it", (unsigned long long)E[i].k); break; }
                if (vrp(2) && i) { uint64_t q = E[vrn(i)].k; if (!Bloom_find(b, q)) { vh_viol("bloom:forgot", "member %llx not found", (unsigned long long)q); break; } }
            }
            if (vrp(20)) { uint64_t q = vr(); if (!Bloom_remove(b, q)) vh_viol("bloom:remove-noop", "no-op remove failed"); }
            for (uint64_t i = 0; i < m; i++) if (!Bloom_find(b, E[i].k)) { vh_viol("bloom:forgot", "member %llx (%llu of %llu) not found", (unsigned long long)E[i].k, (unsigned long long)i, (unsigned long long)m); break; }
        } else {
            uint64_t steps = m * 3 + 50; if (steps > 20000) steps = 20000; int64_t cnt = 0;
            for (uint64_t s = 0; s < steps && !vh_nviol; s++) {
                ent_t *x = &E[fp ? s % m : vrn(m)];
                int op = (int)vrn(10); if (fp) { if (s >= m) break; op = 0; }
                if (op < 6) { int t = 1; if (!fp && maxmult > 3 && muls < 5 && vrp(1)) { t = 200 + (int)vrn(400); muls++; } for (int i = 0; i < t; i++) Bloom_probe(b, x->k); x->mult += t; cnt += t; }
                else if (op < 9) { int in = Bloom_find(b, x->k), r = Bloom_remove(b, x->k);
                    if (!in) { if (r) vh_viol("bloom:remove-absent", "remove of an absent key reported success"); }
                    else { if (!r) vh_viol("bloom:remove", "remove of a found key failed"); cnt--; if (x->mult > 0) x->mult--; else { /* false positive: the multiset is no longer known */ goto fpremoved; } } }
                if (s % 101 == 0) for (uint64_t i = 0; i < m; i++) if (E[i].mult > 0 && !Bloom_find(b, E[i].k)) { vh_viol("bloom:counting-forgot", "key %llx added %d times more than removed, not found", (unsigned long long)E[i].k, E[i].mult); break; }
            }
            for (uint64_t i = 0; i < m; i++) if (E[i].mult > 0 && !Bloom_find(b, E[i].k)) { vh_viol("bloom:counting-forgot", "key %llx added %d times more than removed, not found", (unsigned long long)E[i].k, E[i].mult); break; }
            fpremoved: adds = (uint64_t)cnt; vh_count("counting_runs", 1);
        }
        uint64_t d = desc_count(b); if (d != adds) vh_viol("bloom:count", "described element count %llu, reference %llu", (unsigned long long)d, (unsigned long long)adds);
        if (fp) {
            uint64_t pos = 0, tr = 20000; for (uint64_t i = 0; i < tr; i++) pos += !!Bloom_find(b, vh_mix(base ^ 0x5555) + i * 0x9e3779b97f4a7c15ull);
            double lim = kind == 1 ? 10 * e : e, exp_ = (double)tr * (lim > 1 ? 1 : lim); double bound = exp_ * 1.6 + 6 * sqrt(exp_) + 20;
            if ((double)pos > bound) vh_viol("bloom:fp-rate", "%llu of %llu absent keys reported present; requested rate %g", (unsigned long long)pos, (unsigned long long)tr, e);
            vh_count("fp_runs", 1); if (c < 60) vh_sample("kind=%d n=%llu added=%llu e=%g: false positives %llu/%llu", kind, (unsigned long long)n, (unsigned long long)m, e, (unsigned long long)pos, (unsigned long long)tr);
        }
        if (stat) Bloom_fini(b); else Bloom_delete(b);
        vh_count("evals", 1); vh_count("adds", adds); vh_sig(vh_h(vh_h(n, (uint64_t)(e * 1e6)), (uint64_t)(kind * 16 + style) + (m << 8)));
        if (vh_nviol) break;
    }
    return vh_end();
}
