/* C39: seeded generators against their published definitions; seeding under controlled entropy; independence of states */
#include "vh.h"
#include "utils/xorshift-rand.h"
#include "utils/xoroshiro.h"
#include "utils/romu-rand.h"
#include "utils/splitmix.h"
extern double frand(void);
typedef uint64_t u64;
static u64 ent[64]; static int nent, given, zeros; int __real_getentropy(void *, size_t);
int __wrap_getentropy(void *b, size_t n) { if (n != 8 || nent >= 64) { given++; return __real_getentropy(b, n); } u64 v = zeros ? (zeros--, 0) : vr() | 1; ent[nent++] = v; memcpy(b, &v, 8); return 0; }
static u64 R(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 sm(u64 *x) { *x += 0x9E3779B97F4A7C15ull; u64 z = *x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
/* reference generators: 0 xs64*, 1 xs128+, 2 xs1024*, 3 xoroshiro128+, 4 quad, 5 trio, 6 duo, 7 splitmix */
typedef struct ref { u64 s[16]; unsigned p; } ref;
static u64 step(int k, ref *r)
{
    u64 *s = r->s, a, b, w, x, y, z;
    switch (k) {
    case 0: s[0] ^= s[0] >> 12; s[0] ^= s[0] << 25; s[0] ^= s[0] >> 27; return s[0] * 2685821657736338717ull;
    case 1: a = s[0]; b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b;
    case 2: a = s[r->p]; r->p = (r->p + 1) & 15; b = s[r->p]; b ^= b << 31; s[r->p] = b ^ a ^ (b >> 11) ^ (a >> 30); return s[r->p] * 1181783497276652981ull;
    case 3: a = s[0]; b = s[1]; y = a + b; b ^= a; s[0] = R(a, 55) ^ b ^ (b << 14); s[1] = R(b, 36); return y;
    case 4: w = s[0]; x = s[1]; y = s[2]; z = s[3]; s[0] = 15241094284759029579ull * z; s[1] = z + R(w, 52); s[2] = y - x; s[3] = R(y + w, 19); return x;
    case 5: x = s[0]; y = s[1]; z = s[2]; s[0] = 15241094284759029579ull * z; s[1] = R(y - x, 12); s[2] = R(z - y, 44); return x;
    case 6: x = s[0]; s[0] = 15241094284759029579ull * s[1]; s[1] = R(s[1], 36) + R(s[1], 15) - x; return x;
    default: return sm(&s[0]);
    }
}
typedef union gen { xs64star a; xs128plus b; xs1024star c; xoro128plus d; romu r; u64 sm; } gen;
static u64 draw(int k, gen *g) { switch (k) { case 0: return xs64star_u64(&g->a); case 1: return xs128plus_u64(&g->b); case 2: return xs1024star_u64(&g->c); case 3: return xoro128plus_u64(&g->d); case 4: return romu_quad(&g->r); case 5: return romu_trio(&g->r); case 6: return romu_duo(&g->r); default: return splitmix64(&g->sm); } }
static void init(int k, gen *g, u64 a, u64 b) { switch (k) { case 0: xs64star_init(&g->a, a); break; case 1: xs128plus_init(&g->b, a); break; case 2: xs1024star_init(&g->c, a); break; case 3: xoro128plus_init(&g->d, a); break; case 4: romu_quad_init(&g->r, a, b); break; case 5: romu_trio_init(&g->r, a, b); break; case 6: romu_duo_init(&g->r, a); break; default: g->sm = a; } }
static void view(int k, const gen *g, ref *r)
{   /* state of a generator, in the order of its definition */
    memset(r, 0, sizeof *r); switch (k) { case 0: r->s[0] = g->a.v; break; case 1: r->s[0] = g->b.v[0]; r->s[1] = g->b.v[1]; break; case 2: memcpy(r->s, g->c.v, 128); r->p = g->c.p; break; case 3: r->s[0] = g->d.v0; r->s[1] = g->d.v1; break; case 4: r->s[0] = g->r.w; r->s[1] = g->r.x; r->s[2] = g->r.y; r->s[3] = g->r.z; break; case 5: r->s[0] = g->r.x; r->s[1] = g->r.y; r->s[2] = g->r.z; break; case 6: r->s[0] = g->r.x; r->s[1] = g->r.y; break; default: r->s[0] = g->sm; }
}
static const char *nm[] = { "xorshift64*", "xorshift128+", "xorshift1024*", "xoroshiro128+", "RomuQuad", "RomuTrio", "RomuDuo", "SplitMix64" };
int main(int argc, char **argv)
{
    vh_init(argc, argv); { u64 x = 1234567; if (sm(&x) != 6457827717110365317ull || sm(&x) != 3203168211198807973ull) vh_emitf("@X", "reference"); }
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        enum { N = 5 }; gen *g[N] = { 0 }; ref r[N]; int k[N]; uint64_t sig = 0; vh_case("generators");
        for (int i = 0; i < N && !vh_nviol; i++) {
            k[i] = (int)vrn(8); g[i] = malloc(sizeof **g); memset(g[i], 0xA5, sizeof **g); int kind = (int)vrn(4); u64 s = kind == 0 ? 0 : vrp(10) ? 0x61c8864680b583ebull : vrp(10) ? ~0ull : vrp(20) ? 1 + vrn(5) : vr(), s2 = vrp(15) ? 0 : vr(); if (k[i] == 7 && !s) s = 1;
            if (kind == 1 && k[i] != 7) {   /* a state set by hand */
                u64 *w = (u64 *)g[i]; size_t n = k[i] == 0 ? 1 : k[i] == 2 ? 16 : k[i] < 4 ? 2 : 4; for (size_t q = 0; q < n; q++) w[q] = vrp(20) ? vrn(3) : vrp(10) ? ~0ull : vr(); if (k[i] == 2) g[i]->c.p = (uint32_t)vrn(16); vh_case_add(" %s(state)", nm[k[i]]); view(k[i], g[i], &r[i]); vh_count("states", 1);
            } else {
                nent = 0; zeros = vrp(10) ? 1 + (int)vrn(2) : 0; int z0 = zeros; init(k[i], g[i], s, s2); vh_case_add(" %s(%llx,%llx)", nm[k[i]], (unsigned long long)s, (unsigned long long)s2); view(k[i], g[i], &r[i]);
                u64 any = 0; for (int q = 0; q < 16; q++) any |= r[i].s[q]; if (!any && k[i] != 7) { vh_viol("prng:zero-state", "%s seeded with %llx%s is in the all-zero state", nm[k[i]], (unsigned long long)s, z0 ? " (entropy source gave zero)" : ""); break; } if (k[i] == 2 && r[i].p > 15) { vh_viol("prng:index", "index %u", r[i].p); break; }
                int need = k[i] != 7 && (!s || ((k[i] == 4 || k[i] == 5) && !s2)); if ((nent > 0) != need) { vh_viol("prng:entropy", "%s(%llx,%llx) took %d seeds from the system", nm[k[i]], (unsigned long long)s, (unsigned long long)s2, nent); break; } vh_count(need ? "system_seeded" : "seeded", 1);
                if (!need) { gen again; memset(&again, 0x5A, sizeof again); init(k[i], &again, s, s2); ref r2; view(k[i], &again, &r2); if (memcmp(&r2, &r[i], sizeof r2)) { vh_viol("prng:repeat", "%s: the same seed %llx gives another state", nm[k[i]], (unsigned long long)s); break; } }
                else { gen again; nent = 0; zeros = 0; init(k[i], &again, s, s2); ref r2; view(k[i], &again, &r2); if (!memcmp(&r2, &r[i], sizeof r2)) { vh_viol("prng:same-seed", "%s: two system-seeded generators have the same state", nm[k[i]]); break; } }
            }
            sig = vh_h(sig, (u64)k[i] * 31 + r[i].s[0]);
        }
        int draws = vrp(95) ? 50 + (int)vrn(200) : 5000;
        for (int d = 0; d < draws && !vh_nviol; d++) { int i = (int)vrn(N); u64 a = draw(k[i], g[i]), b = step(k[i], &r[i]); if (a != b) vh_viol("prng:sequence", "draw %d: %s gives %016llx, expected %016llx", d, nm[k[i]], (unsigned long long)a, (unsigned long long)b); vh_count("draws", 1); }
        for (int i = 0; i < N && !vh_nviol; i++) { ref e; view(k[i], g[i], &e); if (memcmp(&e, &r[i], sizeof e)) vh_viol("prng:state", "%s: state differs from the definition", nm[k[i]]); }
        for (int i = 0; i < N; i++) free(g[i]);
        for (int i = 0; i < 5 && !vh_nviol; i++) { double f = frand(); if (!(f >= 0.0 && f < 1.0)) vh_viol("prng:frand", "frand gives %.17g", f); vh_count("frand", 1); }
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    if (!vh_nviol && vh_only == ~0ull) { /* frand must be able to reach all of its range */ int lo = 0, hi = 0; uint64_t low = 0; for (int i = 0; i < 100000; i++) { double f = frand(); lo += f < 0.01; hi += f >= 0.99; u64 v; double x = f + 1.0; memcpy(&v, &x, 8); low |= v; } if (!lo || !hi || (low & 0xfffffffffffffull) != 0xfffffffffffffull) vh_viol("prng:frand-range", "100000 draws: %d below 0.01, %d above 0.99, mantissa bits %llx", lo, hi, (unsigned long long)low); }
    return vh_end();
}
