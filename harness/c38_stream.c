/* C38: incremental hashing under every chunking, with digests read in between and states reused, against one-shot references */
#include "vh.h"
#include "utils/siphash.h"
#define XXH_STATIC_LINKING_ONLY
#include "utils/xxhash.h"
#include "refhash.h"
static void unused(void) __attribute__((unused)); static void unused(void) { (void)r_m32; (void)r_m86; (void)r_m64; (void)r_fast; (void)r_fnv; (void)r_fnv64; (void)r_hsieh; (void)r_city128; }
static siphash24_state *S; static XXH32_state_t *A; static XXH64_state_t *B; static u64 key[2];
static void upd(const u8 *p, size_t n) { u8 *x = malloc(n + !n); memcpy(x, p, n); siphash24_update(S, x, n); if (XXH32_update(A, x, n) || XXH64_update(B, x, n)) vh_viol("stream:error", "update of %zu bytes reports an error", n); if (memcmp(x, p, n)) vh_viol("stream:input", "chunk modified"); free(x); vh_count("updates", 1); if (!n) vh_count("empty_updates", 1); }
static void chk(const u8 *p, size_t n, u64 s, const char *when)
{
    siphash24_state cp = *S; u64 g = siphash24_finish(&cp), w = r_sip(p, n, key); if (g != w) vh_viol("stream:siphash", "%s, %zu bytes: %016llx, expected %016llx", when, n, (unsigned long long)g, (unsigned long long)w);
    u64 a = XXH32_digest(A), b = XXH64_digest(B); if (a != r_x32(p, n, (u32)s)) vh_viol("stream:xxh32", "%s, %zu bytes: %08llx, expected %08x", when, n, (unsigned long long)a, r_x32(p, n, (u32)s)); if (b != r_x64(p, n, s)) vh_viol("stream:xxh64", "%s, %zu bytes: %016llx, expected %016llx", when, n, (unsigned long long)b, (unsigned long long)r_x64(p, n, s));
    if (g != siphash24(p, n, key) || a != XXH32(p, n, (u32)s) || b != XXH64(p, n, s)) vh_viol("stream:oneshot", "%s, %zu bytes: incremental and one-shot values differ", when, n);
    vh_count("digests", 3);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        S = malloc(sizeof *S); memset(S, 0xA5, sizeof *S); A = XXH32_createState(); B = XXH64_createState(); if (!A || !B) { vh_viol("stream:create", "no state"); break; } uint64_t sig = 0; int rounds = 1 + (int)vrn(3);
        for (int r = 0; r < rounds && !vh_nviol; r++) {
            size_t n = vrp(70) ? vrn(200) : vrsz(6000); u64 s = vrp(20) ? 0 : vr(); key[0] = s; key[1] = vh_mix(s); u8 *p = malloc(n + !n); vrbytes(p, n); siphash24_init(S, key); if (XXH32_reset(A, (u32)s) || XXH64_reset(B, s)) vh_viol("stream:reset", "reset fails");
            vh_case("round %d: %zu bytes, seed %llx, chunks", r, n, (unsigned long long)s); size_t i = 0, done = 0; int style = (int)vrn(4); size_t stop = r < rounds - 1 && vrp(30) ? vrn(n + 1) : n; sig = vh_h(sig, n);
            if (vrp(10)) chk(p, 0, s, "before any update");
            while (i < stop || vrp(8)) { size_t l = style == 0 ? vrn(10) : style == 1 ? (size_t[]){ 0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65 }[vrn(14)] : style == 2 ? 1 + vrn(3) : vrsz(stop - i); if (l > stop - i) l = stop - i; vh_case_add(" %zu", l); upd(p + i, l); i += l; sig = vh_h(sig, l); if (vrp(15)) { chk(p, i, s, "in between"); vh_count("continued", 1); } if (++done > 4000 || vh_nviol) break; }
            if (!vh_nviol && i == stop) chk(p, i, s, stop < n ? "abandoned" : "at the end"); if (r) vh_count("reused", 1);
            XXH32_canonical_t c4; XXH64_canonical_t c8; u64 v = vr(); XXH32_canonicalFromHash(&c4, (u32)v); XXH64_canonicalFromHash(&c8, v); for (int q = 0; q < 4; q++) if (c4.digest[q] != (u8)((u32)v >> (24 - 8 * q))) vh_viol("stream:canonical32", "byte %d of the canonical form of %08x", q, (u32)v); for (int q = 0; q < 8; q++) if (c8.digest[q] != (u8)(v >> (56 - 8 * q))) vh_viol("stream:canonical64", "byte %d", q); if (XXH32_hashFromCanonical(&c4) != (u32)v || XXH64_hashFromCanonical(&c8) != v) vh_viol("stream:canonical", "no round trip");
            free(p);
        }
        XXH32_freeState(A); XXH64_freeState(B); free(S); vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}
