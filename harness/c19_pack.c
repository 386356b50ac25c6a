/* C19: Pack/Unpack against a format interpreter that makes the arguments as it goes */
#include "vh.h"
#include <ctype.h>
#include "utils/pack.h"
#define MAXA 24
#define MAXB 70000
static uint8_t ref[MAXB + 4096]; static size_t nref;
static uint64_t G[MAXA]; static double D[8]; static int ng, nd; static void *tofree[64]; static int nfree;
static void *keep(void *p) { tofree[nfree++] = p; return p; }
static void done(void) { while (nfree) free(tofree[--nfree]); }
static int width(int c) { switch (c) { case 'b': case 'B': return 1; case 's': case 'S': return 2; case 'i': case 'I': case 'f': return 4; case 'l': case 'L': case 'D': return 8; } return 0; }
static void putn(uint64_t v, int w, int be) { for (int i = 0; i < w; i++) ref[nref + (size_t)(be ? w - 1 - i : i)] = (uint8_t)(v >> (8 * i)); nref += (size_t)w; }
static uint64_t getn(const uint8_t *p, int w, int be) { uint64_t v = 0; for (int i = 0; i < w; i++) v |= (uint64_t)p[be ? w - 1 - i : i] << (8 * i); return v; }
static ssize_t call(ssize_t (*fn)(uint8_t *, size_t, const char *, ...), uint8_t *b, size_t n, const char *f)
{
    return fn(b, n, f, G[0], G[1], G[2], G[3], G[4], G[5], G[6], G[7], G[8], G[9], G[10], G[11], G[12], G[13], G[14], G[15], G[16], G[17], G[18], G[19], G[20], G[21], G[22], G[23], D[0], D[1], D[2], D[3], D[4], D[5], D[6], D[7]);
}
static int bad;  /* the format (or an argument) is wrong at the point reached */
struct tok { int c, vla; unsigned __int128 num; int hasnum; };
/* next element: 1 element, 0 end, -1 malformed */
static int next(const char **pf, struct tok *t)
{
    const char *f = *pf; int star = 0; t->vla = 0; t->num = 0; t->hasnum = 0;
    for (;;) { while (isspace((unsigned char)*f)) f++; if (*f != '*') break; if (star) { t->c = '*'; return -1; } star = 1; f++; t->vla = 1; *pf = f; return 2; }
    if (!*f) return 0;
    while (isdigit((unsigned char)*f)) { t->hasnum = 1; if (t->num < ((unsigned __int128)1 << 100)) t->num = t->num * 10 + (unsigned)(*f - '0'); f++; }
    t->c = (unsigned char)*f; if (*f) f++; *pf = f; return 1;
}
static char fmt[600]; static size_t cap; /* bytes the reference may produce */
/* builds the arguments for Pack and the expected bytes; returns 0 if the call must fail */
static int ref_pack(const char *f)
{
    int be = 0, pend = 0; uint32_t vn = 0; struct tok t; nref = 0; ng = nd = 0; if (*f == '<') f++; else if (*f == '>') { be = 1; f++; }
    for (;;) {
        int r = next(&f, &t); if (r == 0) return !pend; if (ng >= MAXA - 2 || nd >= 8 || nfree > 50) return -1;
        if (r == 2) { if (pend) return 0; vn = vrp(20) ? 0 : vrp(30) ? 1 : vrp(5) ? (uint32_t)vr() : (uint32_t)vrsz(40); G[ng++] = vn | (vrp(30) ? vr() << 32 : 0); if (nref + 4 > cap) return 0; putn(vn, 4, be); pend = 1; continue; }
        if (r < 0) return 0;
        if (t.hasnum && t.num == 0) return -1;
        if (t.hasnum && pend) return 0;
        int w = width(t.c), z = t.c == 'z' || t.c == 'Z', x = t.c == 'x'; if (!w && !z && !x) return 0;
        unsigned __int128 n = pend ? vn : t.hasnum ? t.num : 1;
        if (x) { if (n > cap - nref) return 0; memset(ref + nref, 0, (size_t)n); nref += (size_t)n; }
        else if (z) {
            char *s = 0; size_t l = 0; if (!vrp(10)) { l = vrsz(60); s = keep(malloc(l + 1)); for (size_t i = 0; i < l; i++) { s[i] = (char)vr(); if (!s[i]) s[i] = 'q'; } s[l] = 0; }
            G[ng++] = (uint64_t)(uintptr_t)s; if (!pend && !t.hasnum) n = l + 1;
            if (n > cap - nref) return 0; for (size_t i = 0; i < (size_t)n; i++) ref[nref + i] = i < l ? (uint8_t)s[i] : 0; nref += (size_t)n;
        } else if (!pend && n == 1) {
            uint64_t v = vr(); if (vrp(30)) v = vrp(50) ? 0 : ~0ull; if (w < 8 && vrp(50)) v &= (1ull << (8 * w)) - 1;
            if (t.c == 'f') { float q = vrp(20) ? 0.0f : (float)((double)(int64_t)vr() * (vrp(50) ? 1e-20 : 1e10)); D[nd++] = q; uint32_t u; memcpy(&u, &q, 4); v = u; }
            else if (t.c == 'D') { double q; uint64_t b = vr(); memcpy(&q, &b, 8); if (q != q) q = 1.5; D[nd++] = q; memcpy(&v, &q, 8); }
            else G[ng++] = v;
            if ((size_t)w > cap - nref) return 0; putn(v, w, be);
        } else {
            if (n == 0) { G[ng++] = (uint64_t)(uintptr_t)keep(malloc(1)); }
            else if (n * (unsigned)w > cap - nref) { G[ng++] = (uint64_t)(uintptr_t)keep(malloc((size_t)w)); return 0; }
            else { uint8_t *a = keep(malloc((size_t)n * (size_t)w)); vrbytes(a, (size_t)n * (size_t)w); G[ng++] = (uint64_t)(uintptr_t)a; for (size_t i = 0; i < (size_t)n; i++) putn(getn(a + i * (size_t)w, w, 0), w, be); }
        }
        pend = 0;
    }
}
struct exp { int kind, w, be; size_t n; const uint8_t *src; void *dst; } ; static struct exp X[64]; static int nx;
/* Unpack: arguments and expectations for the bytes in[0..len) ; 0 must fail */
static int ref_unpack(const char *f, const uint8_t *in, size_t len, size_t *used)
{
    int be = 0, pend = 0; uint32_t vn = 0; struct tok t; size_t p = 0; ng = nd = nx = 0; if (*f == '<') f++; else if (*f == '>') { be = 1; f++; }
    for (;;) {
        int r = next(&f, &t); if (r == 0) { *used = p; return !pend; } if (ng >= MAXA - 2 || nfree > 50) return -1;
        if (r == 2) { if (pend) return 0; uint32_t *q = keep(malloc(4)); G[ng++] = (uint64_t)(uintptr_t)q; if (vrp(2)) { G[ng - 1] = 0; return 0; } if (len - p < 4) return 0; vn = (uint32_t)getn(in + p, 4, be); X[nx++] = (struct exp){ 0, 4, be, 1, in + p, q }; p += 4; pend = 1; continue; }
        if (r < 0) return 0;
        if (t.hasnum && t.num == 0) return -1;
        if (t.hasnum && pend) return 0;
        int w = width(t.c), z = t.c == 'z' || t.c == 'Z', x = t.c == 'x'; if (!w && !z && !x) return 0;
        unsigned __int128 n = pend ? vn : t.hasnum ? t.num : 1;
        if (x) { if (n > len - p) return 0; p += (size_t)n; }
        else if (z) {
            char **q = keep(malloc(sizeof *q)); *q = 0; G[ng++] = (uint64_t)(uintptr_t)q; if (vrp(2)) { G[ng - 1] = 0; return 0; }
            if (!pend && !t.hasnum) { const uint8_t *e = len > p ? memchr(in + p, 0, len - p) : 0; X[nx++] = (struct exp){ 2, 1, be, 0, 0, q }; if (!e) return 0; n = (size_t)(e - (in + p)) + 1; X[nx - 1].n = (size_t)n; X[nx - 1].src = in + p; p += (size_t)n; }
            else if (pend && n == 0) ;
            else { X[nx++] = (struct exp){ 2, 1, be, 0, 0, q }; if (n > len - p) return 0; X[nx - 1].n = (size_t)n; X[nx - 1].src = in + p; p += (size_t)n; }
        } else if (pend) {
            void **q = keep(malloc(sizeof *q)); *q = 0; G[ng++] = (uint64_t)(uintptr_t)q; if (vrp(2)) { G[ng - 1] = 0; return 0; }
            if (n) { X[nx++] = (struct exp){ 1, w, be, 0, 0, q }; if (n * (unsigned)w > len - p) return 0; X[nx - 1].n = (size_t)n; X[nx - 1].src = in + p; p += (size_t)n * (size_t)w; }
        } else {
            size_t sz = n * (unsigned)w > len - p ? (size_t)w : (size_t)n * (size_t)w; void *q = keep(malloc(sz)); memset(q, 0xA5, sz); G[ng++] = (uint64_t)(uintptr_t)q; if (vrp(2)) { G[ng - 1] = 0; return 0; }
            if (n * (unsigned)w > len - p) return 0; X[nx++] = (struct exp){ 0, w, be, (size_t)n, in + p, q }; p += (size_t)n * (size_t)w;
        }
        pend = 0;
    }
}
static void freeouts(void) { for (int i = 0; i < nx; i++) if (X[i].kind) { free(*(void **)X[i].dst); *(void **)X[i].dst = 0; } }
static void mkfmt(void)
{
    static const char T[] = "bBsSiIlLfDxzZ"; size_t k = 0; int n = (int)vrn(9); if (vrp(60)) fmt[k++] = vrp(50) ? '<' : '>';
    int big = vrp(4);
    for (int i = 0; i < n; i++) {
        while (vrp(30)) fmt[k++] = " \t\n\v\f\r"[vrn(6)];
        if (vrp(22)) { fmt[k++] = '*'; while (vrp(40)) fmt[k++] = ' '; } else if (vrp(35)) k += (size_t)sprintf(fmt + k, "%llu", (unsigned long long)(1 + vrsz(big ? 900 : 12)));
        fmt[k++] = T[vrn(13)];
    }
    while (vrp(20)) fmt[k++] = ' ';
    fmt[k] = 0;
    if (vrp(25) && k) { /* damage */
        for (int i = 0, m = 1 + (int)vrn(3); i < m; i++) { size_t p = vrn(k); switch (vrn(8)) { case 0: fmt[p] = (char)(128 + vrn(128)); break; case 1: fmt[p] = (char)(1 + vrn(255)); break; case 2: fmt[p] = 0; k = strlen(fmt); if (!k) return; break; case 3: fmt[p] = '*'; break; case 4: fmt[p] = (char)('1' + vrn(9)); break; case 5: fmt[p] = "{|}~\x7f^_@["[vrn(9)]; break; case 6: { char s[64]; sprintf(s, "%s%c", (const char *[]){ "4294967296", "4294967295", "18446744073709551615", "18446744073709551616", "2305843009213693952", "9223372036854775808", "4611686018427387905", "99999999999999999999999999999", "9223372036854775807", "1152921504606846977" }[vrn(10)], T[vrn(13)]); size_t l = strlen(s); memmove(fmt + p + l, fmt + p, k - p + 1); memcpy(fmt + p, s, l); k += l; break; } default: fmt[k] = "5*9<>"[vrn(5)]; fmt[++k] = 0; } }
        vh_count("damaged_formats", 1);
    }
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        mkfmt(); char *f = vh_dups(fmt); uint64_t sig = vh_hb(1, fmt, strlen(fmt)); memset(G, 0, sizeof G);
        /* size needed with room to spare */
        cap = MAXB; uint64_t save = vh_rs; int ok = ref_pack(f); size_t need = nref; 
        if (ok < 0) { done(); free(f); vh_count("skipped", 1); continue; }
        done(); vh_rs = save; cap = !ok ? vrsz(600) : vrp(40) ? need : vrp(50) ? (need ? need - 1 : 0) : vrp(50) ? vrsz(need) : need + vrsz(100); size_t cap0 = cap; vh_rs = save;
        ok = ref_pack(f); uint8_t *b = malloc(cap0 ? cap0 : 1); uint8_t *bb = cap0 ? b : b + 1; memset(b, 0xEE, cap0 ? cap0 : 1);
        vh_case("pack fmt='%s' bufsize=%zu needs %zu %s", vh_str(f, strlen(f)), cap0, need, ok ? "" : "(must fail)"); vh_rs = vh_mix(save);
        if (ok >= 0) {
            ssize_t r = call(Pack, bb, cap0, f);
            if (ok && r != (ssize_t)nref) vh_viol("pack:result", "returned %zd, expected %zu", r, nref);
            else if (!ok && r >= 0) vh_viol("pack:accepted", "returned %zd for what must fail", r);
            else if (ok && memcmp(bb, ref, nref)) vh_viol("pack:bytes", "packed %s expected %s", vh_hex(bb, nref), vh_hex(ref, nref));
            else if (ok) for (size_t i = nref; i < cap0; i++) if (bb[i] != 0xEE) { vh_viol("pack:beyond", "byte %zu beyond the result (%zu) written", i, nref); break; }
            vh_count(ok ? "packed" : "pack_refused", 1); if (ok && nref == cap0) vh_count("exact_fit", 1); if (!ok && need && cap0 == need - 1) vh_count("one_short", 1);
        }
        done(); free(b);
        /* unpack: the packed bytes, a prefix of them, or arbitrary ones */
        size_t ulen; uint8_t *u; int how = (int)vrn(4);
        if (how < 2 && ok > 0) { ulen = how ? nref : vrn(nref + 1); u = vh_dup(ref, ulen); }
        else { ulen = vrsz(300); u = malloc(ulen ? ulen : 1); for (size_t i = 0; i < ulen; i++) u[i] = vrp(60) ? 0 : vrp(60) ? (uint8_t)vrn(8) : (uint8_t)vr(); }
        uint8_t *ub = ulen ? u : u + 1; size_t used = 0; memset(G, 0, sizeof G); int uok = ref_unpack(f, ub, ulen, &used);
        if (uok >= 0) {
            vh_case("unpack fmt='%s' bytes(%zu)=%s", vh_str(f, strlen(f)), ulen, vh_hex(ub, ulen));
            ssize_t r = call(Unpack, ub, ulen, f);
            if (uok && r != (ssize_t)used) vh_viol("unpack:result", "returned %zd, expected %zu", r, used);
            else if (!uok && r >= 0) vh_viol("unpack:accepted", "returned %zd for what must fail", r);
            else if (uok) for (int i = 0; i < nx; i++) {
                struct exp *e = &X[i]; uint8_t *got = e->kind ? *(uint8_t **)e->dst : e->dst; if (!got) { vh_viol("unpack:null", "output %d not allocated", i); break; }
                if (e->kind == 2) { if (memcmp(got, e->src, e->n) || got[e->n]) { vh_viol("unpack:string", "string %d is %s", i, vh_hex(got, e->n + 1)); break; } }
                else for (size_t k = 0; k < e->n; k++) if (getn(got + k * (size_t)e->w, e->w, 0) != getn(e->src + k * (size_t)e->w, e->w, e->be)) { vh_viol("unpack:value", "element %zu of output %d differs", k, i); break; }
            }
            vh_count(uok ? "unpacked" : "unpack_refused", 1); freeouts();
        }
        done(); free(u); free(f);
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}
