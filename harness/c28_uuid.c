/* C28: UUIDs */
#include "vh.h"
#include "utils/uuid.h"
#include "bits_stat.h"
ssize_t uuid2str(char *out, size_t outsz, uint8_t *uuid);
static int failing, delivered; int __real_getentropy(void *, size_t);
int __wrap_getentropy(void *p, size_t n) { if (failing) { delivered = 1; errno = failing; return -1; } return __real_getentropy(p, n); }
static uint8_t *seen; static size_t ns; static int cmp16(const void *a, const void *b) { return memcmp(a, b, 16); }
static void fmt(char *o, const uint8_t *u, int lower) { char *p = o; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) *p++ = '-'; p += sprintf(p, lower ? "%02x" : "%02X", u[i]); } }
static int canonical(const char *s, uint8_t *u)
{
    if (strlen(s) != 36) return 0; int k = 0; for (int i = 0; i < 36; i++) { int d = i == 8 || i == 13 || i == 18 || i == 23; if (d) { if (s[i] != '-') return 0; continue; } const char *h = "0123456789abcdef", *q = strchr(h, s[i] | ((s[i] >= 'A' && s[i] <= 'F') ? 32 : 0)); if (!q) return 0; u[k / 2] = (uint8_t)(k & 1 ? u[k / 2] | (q - h) : (q - h) << 4); k++; } return 1;
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); seen = malloc(16 * vh_cases + 16);
    int orv = 0, andv = 255; uint8_t orb[16] = {0}, andb[16]; memset(andb, 255, 16); (void)orv; (void)andv; uint64_t gen = 0;
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        uint64_t sig; int kind = (int)vrn(4); char txt[64];
        if (kind == 0) {
            size_t bs = vrp(70) ? 16 : vrp(50) ? vrn(16) : 16 + vrn(10); uint8_t *u = malloc(bs ? bs : 1); memset(u, 0xa5, bs ? bs : 1); failing = vrp(5) ? EIO : 0; delivered = 0; vh_case("generate into %zu%s", bs, failing ? ", entropy fails" : ""); sig = vh_h(c, bs);
            int nul = vrp(3), r = uuid_generate(nul ? 0 : bs ? u : u + 1, bs);
            if (bs == 0 || nul) { if (r >= 0 || (bs != 0 ? 0 : r != -EINVAL)) vh_viol("uuid:null", "%s: returned %d", bs ? "no buffer" : "no room", r); }
            else if (bs < 16) { if (r != -ENOSPC) vh_viol("uuid:space", "%zu bytes: returned %d", bs, r); }
            else if (delivered) { if (r >= 0) vh_viol("uuid:entropy", "returned %d though the entropy source failed", r); vh_count("entropy_failures", 1); }
            else if (!failing) { if (r != 16) vh_viol("uuid:ret", "returned %d", r); else { if (u[6] >> 4 != 4 || u[8] >> 6 != 2) vh_viol("uuid:version", "version/variant bits wrong: %s", vh_hex(u, 16)); for (size_t i = 16; i < bs; i++) if (u[i] != 0xa5) vh_viol("uuid:excess", "byte %zu written", i); memcpy(seen + 16 * ns++, u, 16); gen++; for (int i = 0; i < 16; i++) orb[i] |= u[i], andb[i] &= u[i]; vh_count("generated", 1); } }
            failing = 0; free(u);
        } else if (kind == 1) {
            uint8_t v[16], back[16]; vrbytes(v, 16); if (vrp(20)) memset(v, vrp(50) ? 255 : 0, 16); size_t bs = vrp(50) ? 37 : vrp(60) ? vrn(37) : 37 + vrn(20); vh_case("print %s into %zu", vh_hex(v, 16), bs); sig = vh_h(vh_hb(2, v, 16), bs);
            fmt(txt, v, 0); for (int f = 0; f < 2; f++) { uint8_t *u = vh_dup(v, 16); char *o = malloc(bs ? bs : 1); memset(o, 0x5a, bs ? bs : 1); int r = f ? (int)uuid2str(bs ? o : o + 1, bs, u) : uuid_tostring(bs ? o : o + 1, bs, u); if (bs < 37) { if (r != -ENOSPC) vh_viol("uuid:print-space", "%zu bytes: returned %d", bs, r); } else if (r != 37 || strcasecmp(o, txt)) vh_viol("uuid:print", "returned %d '%.40s', expected '%s'", r, o, txt); else if (!f) { uint8_t *p = malloc(16); if (uuid_fromstring(p, 16, o) != 16 || memcmp(p, v, 16)) vh_viol("uuid:roundtrip", "printed form does not parse back"); free(p); } free(o); free(u); }
            (void)back; vh_count(bs < 37 ? "print_refused" : "printed", 1);
        } else {
            uint8_t v[16]; vrbytes(v, 16); fmt(txt, v, vrp(50)); size_t n = 36; if (vrp(20)) for (int i = 0; i < 36; i++) if (vrp(50)) txt[i] = (char)((txt[i] >= 'a' && txt[i] <= 'f') ? txt[i] - 32 : (txt[i] >= 'A' && txt[i] <= 'F') ? txt[i] + 32 : txt[i]);
            if (kind == 3) for (uint64_t m = 1 + vrn(3); m; m--) switch (vrn(6)) { case 0: txt[vrn(n)] = (char)vpick("gG-/:@`xz_ {"); break; case 1: txt[vrn(n)] = (char)(1 + vrn(255)); break; case 2: { size_t a = vrn(n), b = vrn(n); char t = txt[a]; txt[a] = txt[b]; txt[b] = t; break; } case 3: for (int i = 0; i < (int)n; i++) if (txt[i] == '-' && vrp(70)) txt[i] = "0f"[vrn(2)]; break; case 4: if (vrp(50)) { n = 1 + vrn(36); txt[n] = 0; } else { n = 36 + vrn(4); for (size_t i = strlen(txt); i < n; i++) txt[i] = '0'; txt[n] = 0; } break; default: { size_t a = (size_t[]){8, 13, 18, 23}[vrn(4)]; if (a < n && a + 1 < n) { char t = txt[a]; txt[a] = txt[a + 1]; txt[a + 1] = t; } } }
            n = strlen(txt); size_t bs = vrp(70) ? 16 : vrp(50) ? vrn(16) : 16 + vrn(8); vh_case("parse '%s' into %zu", vh_str((unsigned char *)txt, n), bs); sig = vh_h(vh_hb(3, txt, n), bs); uint8_t w[18]; int can = canonical(txt, w); char *s = vh_dup(txt, n + 1); uint8_t *u = malloc(bs ? bs : 1); memset(u, 0xa5, bs ? bs : 1);
            int r = uuid_fromstring(bs ? u : u + 1, bs, s); if (bs < 16 ? r >= 0 : can ? r != 16 : r >= 0) vh_viol("uuid:parse-ret", "returned %d for a%s text (room %zu)", r, can ? " canonical" : " damaged", bs); else if (r == 16) { if (memcmp(u, w, 16)) vh_viol("uuid:parse", "%s, expected %s", vh_hex(u, 16), vh_hex(w, 16)); for (size_t i = 16; i < bs; i++) if (u[i] != 0xa5) vh_viol("uuid:excess", "byte %zu written", i); }
            vh_count(bs < 16 ? "parse_small" : can ? "parsed" : "parse_refused", 1); free(u); free(s);
            if (kind == 2 && vrp(1)) {  /* every byte at every place of a canonical text */
                char g[40]; fmt(g, v, vrp(50));
                for (int i = 0; i < 36 && !vh_nviol; i++) { char was = g[i]; for (int b = 1; b < 256; b++) { uint8_t x[16] = {0}; g[i] = (char)b; int can2 = canonical(g, w), r2 = uuid_fromstring(x, 16, g); if (can2 ? r2 != 16 || memcmp(x, w, 16) : r2 >= 0) { vh_viol("uuid:parse-byte", "byte %02x at place %d: returned %d, the text is %s", b, i, r2, can2 ? "canonical" : "damaged"); break; } } g[i] = was; }
                vh_count("byte_places", 36 * 255);
            }
        }
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    qsort(seen, ns, 16, cmp16); for (size_t i = 1; i < ns; i++) if (!memcmp(seen + 16 * i, seen + 16 * (i - 1), 16)) { vh_viol("uuid:dup", "two generated UUIDs are equal"); break; }
    if (gen > 200) for (int i = 0; i < 16; i++) { uint8_t m = i == 6 ? 0x0f : i == 8 ? 0x3f : 0xff; if ((orb[i] & m) != m || (andb[i] & m)) vh_viol("uuid:random", "bits of byte %d never change over %llu UUIDs", i, (unsigned long long)gen); }
    { static const uint8_t fixed[16] = { [6] = 0xf0, [8] = 0xc0 }; vh_bits(seen, ns, 16, fixed, "uuid:correlated"); }
    free(seen); return vh_end();
}
