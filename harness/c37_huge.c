/* C37, C38: byte strings of two and four gigabytes (a few megabytes mapped again and again): one-shot (mode=one) and incremental (mode=inc) */
#include "vh.h"
#include <sys/mman.h>
#include "utils/hashfunc.h"
#include "utils/siphash.h"
#define XXH_STATIC_LINKING_ONLY
#include "utils/xxhash.h"
#include "refhash.h"
static void unused(void) __attribute__((unused)); static void unused(void) { (void)r_fast; (void)r_city128; }
static u8 *map(size_t n)
{
    size_t unit = 4u << 20, tot = (n + unit - 1) / unit * unit; int fd = memfd_create("vh", 0); if (fd < 0 || ftruncate(fd, (off_t)unit)) return 0; u8 *p = mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0;
    for (size_t i = 0; i < tot; i += unit) if (mmap(p + i, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 0;
    close(fd); vrbytes(p, unit); return p;
}
#define NONE 12
int main(int argc, char **argv)
{
    vh_init(argc, argv); int inc = !strcmp(vh_mode, "inc");
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        /* the first cases of a run cover every function once */
        int f = (int)((vh_shard * (inc ? 1 : 2) + c) % (inc ? 3 : NONE)); int four = inc ? 1 : vrp(25); size_t n = ((size_t)1 << (four ? 32 : 31)) + vrn(inc ? 4000 : 400); if (vrp(10)) n -= 300; u64 s = vr(), key[2] = { vr(), vr() }, h2[2], g2[2]; u32 h4[4]; u64 g = 0, w = 0; uint_128_t r; const char *nm = "";
        size_t pad = 4u << 20, off = pad - n % pad; u8 *m = map(n + off); if (!m) { vh_emitf("@X", "cannot map"); return 3; } u8 *p = m + off;     /* the string ends where the mapping ends */
        vh_case("%s: function %d on %zu bytes, seed %llx", inc ? "incremental" : "one-shot", f, n, (unsigned long long)s);
        if (inc) {
            siphash24_state S; XXH32_state_t *A = XXH32_createState(); XXH64_state_t *B = XXH64_createState(); siphash24_init(&S, key); XXH32_reset(A, (u32)s); XXH64_reset(B, s); size_t i = 0; int k = 0, style = (int)vrn(3);
            while (i < n) { size_t l = k == 0 && style == 0 ? 1 + vrn(40) : style == 1 ? (1u << 30) + vrn(99) : n - i - (n - i > 9000 ? vrn(9000) : 0); if (n - i < 9000) l = 1 + vrn(200); if (l > n - i) l = n - i; vh_case_add(" %zu", l); if (f == 0) siphash24_update(&S, p + i, l); else if (f == 1) XXH32_update(A, p + i, l); else XXH64_update(B, p + i, l); i += l; k++; vh_count("updates", 1); }
            if (f == 0) { nm = "siphash"; g = siphash24_finish(&S); w = r_sip(p, n, key); } else if (f == 1) { nm = "xxh32"; g = XXH32_digest(A); w = r_x32(p, n, (u32)s); } else { nm = "xxh64"; g = XXH64_digest(B); w = r_x64(p, n, s); }
            XXH32_freeState(A); XXH64_freeState(B); if (g != w) vh_viol("stream:huge", "%s of %zu bytes in %d chunks: %016llx, expected %016llx", nm, n, k, (unsigned long long)g, (unsigned long long)w);
        } else {
            u32 s3 = (u32)s; g2[0] = g2[1] = h2[0] = h2[1] = 0;
            switch (f) {
            case 0: nm = "murmur32"; g = murmur3_hash_32(p, n, s3); w = r_m32(p, n, s3); break;
            case 1: nm = "murmur128"; r = murmur3_hash_128(p, n, s3); g2[0] = r.v[0]; g2[1] = r.v[1]; r_m86(p, n, s3, h4); h2[0] = (u64)h4[0] << 32 | h4[1]; h2[1] = (u64)h4[2] << 32 | h4[3]; break;
            case 2: nm = "murmur64_128"; r = murmur3_hash64_128(p, n, s3); g2[0] = r.v[0]; g2[1] = r.v[1]; r_m64(p, n, s3, h2); break;
            case 3: nm = "fnv32"; g = fnv_hash(p, n, s3); w = r_fnv(p, n); break;
            case 4: nm = "fnv64"; g = fnv_hash64(p, n, s); w = r_fnv64(p, n); break;
            case 5: nm = "hsieh"; g = hsieh_hash(p, n, s3); w = r_hsieh(p, n, s3); break;
            case 6: nm = "fasthash64"; g = fasthash64(p, n, s); w = r_fast(p, n, s); break;
            case 7: nm = "siphash"; g = siphash24(p, n, key); w = r_sip(p, n, key); break;
            case 8: nm = "xxh32"; g = XXH32(p, n, s3); w = r_x32(p, n, s3); break;
            case 9: nm = "xxh64"; g = XXH64(p, n, s); w = r_x64(p, n, s); break;
            case 10: nm = "city64"; g = city_hash(p, n, s); w = c16(r_city(p, n) - CK2, s); break;
            default: nm = "city128"; r = city_hash_128(p, n, (uint_128_t){ { s, key[1] } }); g2[0] = r.v[0]; g2[1] = r.v[1]; r_city128s(p, n, s, key[1], h2); break;
            }
            if (g != w || g2[0] != h2[0] || g2[1] != h2[1]) vh_viol("hash:huge", "%s of %zu bytes: %016llx %016llx %016llx, expected %016llx %016llx %016llx", nm, n, (unsigned long long)g, (unsigned long long)g2[0], (unsigned long long)g2[1], (unsigned long long)w, (unsigned long long)h2[0], (unsigned long long)h2[1]);
        }
        munmap(m, n + off); vh_count("evals", 1); vh_count("huge", 1); vh_count("bytes", n); vh_sig(vh_h(n, (uint64_t)f)); vh_sample("%s of %zu bytes", nm, n); if (vh_nviol) break;
    }
    return vh_end();
}
