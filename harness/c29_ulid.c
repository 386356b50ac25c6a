/* C29: ULIDs */
#include "vh.h"
#include <sys/time.h>
#include <time.h>
#include "utils/ulid.h"
#include "bits_stat.h"
static int failing, delivered; int __real_getentropy(void *, size_t);
int __wrap_getentropy(void *p, size_t n) { if (failing) { delivered = 1; errno = failing; return -1; } return __real_getentropy(p, n); }
/* the clock the code sees */
static int fake; static struct timespec now; int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *); time_t __real_time(time_t *);
int __wrap_gettimeofday(struct timeval *tv, void *z) { if (!fake) return __real_gettimeofday(tv, z); tv->tv_sec = now.tv_sec; tv->tv_usec = now.tv_nsec / 1000; return 0; }
int __wrap_clock_gettime(clockid_t k, struct timespec *t) { if (!fake || k != CLOCK_REALTIME) return __real_clock_gettime(k, t); *t = now; return 0; }
time_t __wrap_time(time_t *t) { if (!fake) return __real_time(t); if (t) *t = now.tv_sec; return now.tv_sec; }
static const char B[] = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"; typedef unsigned __int128 u128;
static void text(const uint8_t *u, char *o) { u128 v = 0; for (int i = 0; i < 16; i++) v = v << 8 | u[i]; for (int i = 25; i >= 0; i--) { o[i] = B[(int)(v & 31)]; v >>= 5; } o[26] = 0; }
static int val(const char *s, uint8_t *u)
{
    if (strlen(s) != 26) return 0; u128 v = 0;
    for (int i = 0; i < 26; i++) { int ch = s[i]; if (ch >= 'a' && ch <= 'z') ch -= 32; const char *p = ch > 0 ? strchr(B, ch) : 0; if (!p) return 0; if (i == 0 && p - B > 7) return 0; v = v << 5 | (unsigned)(p - B); }
    for (int i = 15; i >= 0; i--) { u[i] = (uint8_t)v; v >>= 8; } return 1;
}
static uint8_t *seen; static size_t ns; static int cmp10(const void *a, const void *b) { return memcmp(a, b, 10); }
int main(int argc, char **argv)
{
    vh_init(argc, argv); seen = malloc(10 * 20 * vh_cases + 16); uint8_t orb[10] = {0}, andb[10]; memset(andb, 255, 10);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        uint64_t sig; int kind = (int)vrn(4); char txt[64];
        if (kind == 0) {
            /* a run of ULIDs at increasing times */
            uint64_t ms = vrp(50) ? 1700000000000ull + vrn(100000000) : vrp(50) ? vr() & 0xffffffffffffull : (1ull << (8 + vrn(40))) - 3; int k = 2 + (int)vrn(10); uint8_t prev[16]; char pt[32] = ""; vh_case("generate %d from ms %llu", k, (unsigned long long)ms); sig = vh_h(vh_h(5, ms), (uint64_t)k);
            for (int i = 0; i < k && !vh_nviol; i++) {
                uint64_t usec = vrn(1000), nsec = vrn(1000); now.tv_sec = (time_t)(ms / 1000); now.tv_nsec = (long)(ms % 1000 * 1000000 + usec * 1000 + nsec); uint8_t *u = malloc(16); failing = vrp(2) ? EIO : 0; delivered = 0; fake = 1; int r = ulid_generate(u, 16); fake = 0; int f = failing; failing = 0;
                if (delivered) { if (r >= 0) vh_viol("ulid:entropy", "returned %d though the entropy source failed", r); vh_count("entropy_failures", 1); free(u); continue; }
                if (f) { free(u); continue; }
                if (r != 16) { vh_viol("ulid:ret", "returned %d", r); free(u); break; }
                uint64_t t = 0; for (int q = 0; q < 6; q++) t = t << 8 | u[q]; if (t != ms) vh_viol("ulid:time", "carries %llu ms, created at %llu", (unsigned long long)t, (unsigned long long)ms);
                char *o = malloc(27); if (ulid_tostring(o, 27, u) < 0) vh_viol("ulid:print-ret", "refused 27 bytes"); else { text(u, txt); if (strcmp(o, txt)) vh_viol("ulid:print", "'%s' expected '%s'", o, txt); if (pt[0]) { if (memcmp(prev, u, 16) >= 0) vh_viol("ulid:order", "a later ULID is not larger"); if (strcmp(pt, o) >= 0) vh_viol("ulid:text-order", "'%s' then '%s'", pt, o); vh_count("ordered", 1); } strcpy(pt, o); }
                memcpy(prev, u, 16); memcpy(seen + 10 * ns++, u + 6, 10); for (int q = 0; q < 10; q++) orb[q] |= u[6 + q], andb[q] &= u[6 + q]; free(o); free(u); vh_count("generated", 1);
                ms = (ms + 1 + (vrp(50) ? vrn(3) : vrsz(1u << 30))) & 0xffffffffffffull; if (ms < 1u << 31) pt[0] = 0;
            }
            size_t bs = vrn(16); uint8_t *u = malloc(bs ? bs : 1); int r = ulid_generate(bs ? u : u + 1, bs); if (bs ? r != -ENOSPC : r >= 0) vh_viol("ulid:space", "%zu bytes: returned %d", bs, r); free(u); if (vrp(10) && ulid_generate(0, 16) >= 0) vh_viol("ulid:null", "no buffer accepted");
            /* the real clock */
            if (vrp(20)) { struct timespec a, b; uint8_t v[16]; clock_gettime(CLOCK_REALTIME, &a); r = ulid_generate(v, 16); clock_gettime(CLOCK_REALTIME, &b); uint64_t t = 0, x = (uint64_t)a.tv_sec * 1000 + (uint64_t)a.tv_nsec / 1000000, y = (uint64_t)b.tv_sec * 1000 + (uint64_t)b.tv_nsec / 1000000; for (int q = 0; q < 6; q++) t = t << 8 | v[q]; if (r != 16 || t + 2 < x || t > y + 2) vh_viol("ulid:realtime", "%llu not in %llu..%llu", (unsigned long long)t, (unsigned long long)x, (unsigned long long)y); vh_count("real_clock", 1); }
        } else if (kind == 1) {
            uint8_t v[16]; vrbytes(v, 16); if (vrp(20)) memset(v, vrp(50) ? 255 : 0, 16); if (vrp(30)) { memset(v, 0, 16); v[vrn(16)] = (uint8_t)(1 << vrn(8)); } size_t bs = vrp(60) ? 27 : vrp(60) ? vrn(27) : 27 + vrn(20); vh_case("print %s into %zu", vh_hex(v, 16), bs); sig = vh_h(vh_hb(2, v, 16), bs); uint8_t *u = vh_dup(v, 16); char *o = malloc(bs ? bs : 1); int r = ulid_tostring(bs ? o : o + 1, bs, u); text(v, txt);
            if (bs < 27) { if (r != -ENOSPC) vh_viol("ulid:print-space", "%zu bytes: returned %d", bs, r); } else if (r < 26 || r > 27 || strcmp(o, txt)) vh_viol("ulid:print", "returned %d '%.30s', expected '%s'", r, o, txt); else { uint8_t *p = malloc(16); if (ulid_fromstring(p, 16, o) != 16 || memcmp(p, v, 16)) vh_viol("ulid:roundtrip", "text form does not parse back: %s", vh_hex(p, 16)); free(p); }
            free(o); free(u); vh_count(bs < 27 ? "print_refused" : "printed", 1);
        } else {
            size_t n = 26; for (size_t i = 0; i < 26; i++) txt[i] = B[i ? vrn(32) : vrn(8)]; txt[26] = 0; if (vrp(50)) for (int i = 0; i < 26; i++) if (vrp(50) && txt[i] >= 'A') txt[i] += 32;
            if (kind == 3) for (uint64_t m = 1 + vrn(2); m; m--) switch (vrn(5)) { case 0: txt[vrn(n)] = (char)vpick("ILOUilou-/:@[`{ "); break; case 1: txt[vrn(n)] = (char)(1 + vrn(255)); break; case 2: txt[0] = B[vrn(32)]; break; case 3: n = vrn(26); txt[n] = 0; if (!n) n = 1, strcpy(txt, "0"); break; default: n = strlen(txt); txt[n] = '0'; txt[n + 1] = 0; n++; }
            n = strlen(txt); size_t bs = vrp(70) ? 16 : vrp(50) ? vrn(16) : 16 + vrn(8); vh_case("parse '%s' into %zu", vh_str((unsigned char *)txt, n), bs); sig = vh_h(vh_hb(3, txt, n), bs); uint8_t w[16]; int can = val(txt, w); char *s = vh_dup(txt, n + 1); uint8_t *u = malloc(bs ? bs : 1); memset(u, 0xa5, bs ? bs : 1);
            int r = ulid_fromstring(bs ? u : u + 1, bs, s); if (bs < 16 ? r >= 0 : can ? r != 16 : r >= 0) vh_viol("ulid:parse-ret", "returned %d for a %s text (room %zu)", r, can ? "valid" : "damaged", bs); else if (r == 16 && memcmp(u, w, 16)) vh_viol("ulid:parse", "%s, expected %s", vh_hex(u, 16), vh_hex(w, 16));
            else if (r == 16) { char *o = malloc(27); for (char *q = txt; *q; q++) if (*q >= 'a') *q -= 32; if (ulid_tostring(o, 27, u) < 0 || strcmp(o, txt)) vh_viol("ulid:reprint", "'%s' parses and prints as '%s'", txt, o); free(o); }
            vh_count(bs < 16 ? "parse_small" : can ? "parsed" : "parse_refused", 1); free(u); free(s);
            if (kind == 2 && vrp(1)) {  /* every byte at every place of a valid text */
                char g[27]; for (int i = 0; i < 26; i++) g[i] = B[i ? vrn(32) : vrn(8)]; g[26] = 0;
                for (int i = 0; i < 26 && !vh_nviol; i++) { char was = g[i]; for (int b = 1; b < 256; b++) { uint8_t x[16] = {0}; g[i] = (char)b; int can2 = val(g, w), r2 = ulid_fromstring(x, 16, g); if (can2 ? r2 != 16 || memcmp(x, w, 16) : r2 >= 0) { vh_viol("ulid:parse-byte", "byte %02x at place %d: returned %d, the text is %s", b, i, r2, can2 ? "valid" : "damaged"); break; } } g[i] = was; }
                vh_count("byte_places", 26 * 255);
            }
        }
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    qsort(seen, ns, 10, cmp10); for (size_t i = 1; i < ns; i++) if (!memcmp(seen + 10 * i, seen + 10 * (i - 1), 10)) { vh_viol("ulid:dup", "two ULIDs have the same random bits"); break; }
    if (ns > 200) for (int i = 0; i < 10; i++) if (orb[i] != 255 || andb[i]) vh_viol("ulid:random", "bits of random byte %d never change", i);
    vh_bits(seen, ns, 10, 0, "ulid:correlated");
    free(seen); return vh_end();
}
