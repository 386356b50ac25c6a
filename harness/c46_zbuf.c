/* C46: zbuf wrappers: chunked compression and decompression with partial, failing callbacks and a counting allocator, against one-shot zlib */
#include "vh.h"
#include "zlib/zbuf.h"
typedef unsigned char u8;
static long live, allocs; static long failalloc;
static void *za(void *o, unsigned n, unsigned s) { (void)o; if (failalloc && ++allocs >= failalloc) return 0; live++; return calloc(n, s); }
static void zf(void *o, void *p) { (void)o; if (p) { live--; free(p); } }
typedef struct sink { u8 *p; size_t n, cap; int mode, calls, fail, failret, failed, dead; u8 *lo, *hi; int oob; } sink;
static int put(void *o, void *b, int len)
{
    sink *s = o; s->calls++; if ((u8 *)b < s->lo || (u8 *)b + len > s->hi || len <= 0) s->oob = 1; if (s->fail && s->calls >= s->fail && (s->dead || !s->failed)) { s->failed = 1; return s->failret; }
    int k = s->mode == 0 ? len : 1 + (int)vrn((uint64_t)len); if (s->mode == 2) k = 1; if (s->n + (size_t)k > s->cap) { s->cap = (s->n + (size_t)k) * 2; s->p = realloc(s->p, s->cap); } memcpy(s->p + s->n, b, (size_t)k); s->n += (size_t)k; return k;
}
static size_t chunk(int m, size_t rest) { size_t k = m == 0 ? rest : m == 1 ? 1 : m == 2 ? vrn(20) : vrn(rest + 1); return k > rest ? rest : k; }
static int rawinf(const u8 *p, size_t n, u8 **out, size_t *on, size_t *used, int wb) { z_stream z; memset(&z, 0, sizeof z); if (inflateInit2(&z, wb)) return -9; size_t cap = 1000; u8 *o = malloc(cap); *on = 0; z.next_in = (Bytef *)p; z.avail_in = (uInt)n; int r; do { if (*on == cap) o = realloc(o, cap *= 2); z.next_out = o + *on; z.avail_out = (uInt)(cap - *on); r = inflate(&z, Z_NO_FLUSH); *on = cap - z.avail_out; } while (r == Z_OK && (z.avail_in || !z.avail_out) && *on < (64u << 20)); *used = n - z.avail_in; inflateEnd(&z); *out = o; return r; }
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        size_t n = vrp(10) && c % 500 != 77 ? 0 : vrp(30) && c % 500 != 77 ? vrn(30) : c % 500 == 77 ? 1500000 + vrn(2500000) : vrp(85) ? vrsz(8000) : vrsz(200000); u8 *x = malloc(n + 1); int kind = (int)vrn(4); for (size_t i = 0; i < n; i++) x[i] = kind == 0 ? (u8)vr() : kind == 1 ? (u8)('a' + vrn(3)) : kind == 2 ? 0 : i > 40 && !vrp(2) ? x[i - 1 - i % 37] : (u8)vr();
        int lev = (int)vrn(12) - 1, wb = vrp(50) ? 15 : vrp(50) ? 0 : 9 + (int)vrn(7); size_t ob = vrp(30) ? 1 + vrn(8) : vrp(50) ? 1 + vrn(300) : 1 + vrn(20000); u8 *buf = malloc(ob); if (n > 20000 && ob < 64) ob = 64, buf = realloc(buf, ob);
        sink s; memset(&s, 0, sizeof s); s.lo = buf; s.hi = buf + ob; s.mode = (int)vrn(3); if (s.mode == 2 && n > 3000) s.mode = 1; int cm = (int)vrn(4); if (cm == 1 && n > 5000) cm = 3; int cf = vrp(15) ? 1 + (int)vrn(6) : 0; s.fail = cf; s.failret = vrp(50) ? 0 : -1 - (int)vrn(50); s.dead = (int)vrn(2); failalloc = vrp(5) ? 1 + (long)vrn(5) : 0; allocs = 0; int ended2 = 0; size_t fed1 = 0;
        vh_case("%zu bytes (kind %d), level %d, window %d, buffer %zu, chunking %d, callback %d%s", n, kind, lev, wb, ob, cm, s.mode, cf ? " failing" : ""); uint64_t sig = vh_hb(n * 31 + ob + (uint64_t)lev * 7, x, n < 3000 ? n : 3000); live = 0;
        z_buf_context *zc = malloc(sizeof *zc); z_buf_context_init(zc, buf, (uInt)ob, put, &s); z_buf_context_set_allocator(zc, za, zf, 0); int r = z_buf_compress_init(zc, lev, wb), err = 0;
        if (failalloc && r != Z_OK) { if (r >= 0) vh_viol("zbuf:alloc", "init without memory returned %d", r); if (live) vh_viol("zbuf:leak", "a failed init leaves %ld blocks", live); vh_count("failed_allocs", 1); goto next; }
        failalloc = 0; if (r != Z_OK) { vh_viol("zbuf:init", "init returned %d", r); goto next; }
        for (size_t i = 0; i < n && !err;) { size_t k = chunk(cm, n - i); u8 *d = vh_dup(x + i, k); r = z_buf_compress(zc, d, (int)k); i += k; if (r != Z_OK) err = r; else vh_count("chunks", 1); if (zc->z.avail_in == 0) free(d); else { /* refused input stays pending */ int e2 = z_buf_compress_end(zc); ended2 = e2 == Z_OK; fed1 = i; if (e2 == Z_OK && !s.failed) vh_viol("zbuf:pending", "input left over"); free(d); goto ended; } }
        r = z_buf_compress_end(zc); if (!err && r != Z_OK) err = r;
    ended:
        if (s.oob) vh_viol("zbuf:callback", "callback was given memory outside the buffer or no data");
        if (live) vh_viol("zbuf:leak", "compression leaves %ld blocks of the allocator", live);
        if (!s.failed && err) vh_viol("zbuf:compress", "compression returned %d", err); else if (s.failed && !err) vh_viol("zbuf:unreported", "a failing callback was not reported by compression"); if (s.failed) { if (err > 0) vh_viol("zbuf:unreported", "failing callback reported as %d", err); vh_count("callback_failures", 1); }
        if (!vh_nviol && !s.failed) {
            u8 *o; size_t on, used; int q = rawinf(s.p ? s.p : (u8 *)"", s.n, &o, &on, &used, 15); if (q != Z_STREAM_END || used != s.n) vh_viol("zbuf:stream", "the output is not one complete stream (zlib says %d, %zu of %zu bytes used)", q, used, s.n); else if (on != n || memcmp(o, x, n)) vh_viol("zbuf:content", "the stream holds other data"); free(o); vh_count("compressed", 1);
        }
        if (!vh_nviol && s.failed && ended2) {   /* refused once, taken up again at the end: nothing may be lost */
            u8 *o; size_t on, used; int q = rawinf(s.p ? s.p : (u8 *)"", s.n, &o, &on, &used, 15); if (q != Z_STREAM_END || used != s.n || on != fed1 || memcmp(o, x, fed1)) vh_viol("zbuf:resume", "a refused output was taken up again and reported as complete, but the stream is not (zlib says %d, %zu of %zu bytes)", q, on, fed1); free(o); vh_count("resumed", 1);
        }
        if (!vh_nviol && !s.failed) {   /* decompress, possibly damaged */
            int dmg = (int)vrn(6); size_t zn = s.n, tail = 0; u8 *z = malloc(zn + 64); memcpy(z, s.p, zn); if (dmg == 0) { zn = vrn(zn); } else if (dmg == 1) { for (int i = 1 + (int)vrn(3); i; i--) z[vrn(zn)] ^= (u8)(1u << vrn(8)); } else if (dmg == 2) { tail = 1 + vrn(40); vrbytes(z + zn, tail); zn += tail; } u8 *ref; size_t rn, rused; int rr = rawinf(z, zn, &ref, &rn, &rused, 15); if (rn > (32u << 20)) { free(ref); free(z); goto next; }
            sink t; memset(&t, 0, sizeof t); size_t ob2 = vrp(40) ? 1 + vrn(8) : vrp(50) ? 1 + vrn(300) : 1 + vrn(20000); if (rn > 20000 && ob2 < 64) ob2 = 64; u8 *b2 = malloc(ob2); t.lo = b2; t.hi = b2 + ob2; t.mode = (int)vrn(3); if (t.mode == 2 && rn > 3000) t.mode = 1; t.fail = vrp(12) ? 1 + (int)vrn(6) : 0; t.failret = vrp(50) ? 0 : -1 - (int)vrn(50); t.dead = (int)vrn(2); int m2 = (int)vrn(4); if (m2 == 1 && zn > 5000) m2 = 3; vh_case_add("; %s, %zu bytes back through %zu, chunking %d%s", dmg == 0 ? "truncated" : dmg == 1 ? "damaged" : dmg == 2 ? "with a tail" : "intact", zn, ob2, m2, t.fail ? ", callback failing" : "");
            z_buf_context_init(zc, b2, (uInt)ob2, put, &t); z_buf_context_set_allocator(zc, za, zf, 0); live = 0; r = z_buf_uncompress_init(zc, vrp(50) ? 15 : 0); if (r != Z_OK) vh_viol("zbuf:init", "uncompress init returned %d", r); err = 0; int end = 0; size_t fed = 0; u8 *pend = 0;
            while (fed < zn && !err && !end) { size_t k = chunk(m2, zn - fed); u8 *d = vh_dup(z + fed, k); r = z_buf_uncompress(zc, d, (int)k); fed += k; if (r == Z_STREAM_END) end = 1; else if (r != Z_OK) err = r; if (zc->z.avail_in) { pend = d; if (!end && !err) { vh_viol("zbuf:pending", "input left over"); break; } } else free(d); }
            int e1 = err; r = z_buf_uncompress_end(zc); if (r < 0 && !err) err = r;
            if (t.failed && e1 == Z_MEM_ERROR && r == Z_OK && !vh_nviol) { u8 *p2; size_t n2, u2; int q2 = rawinf(z, fed, &p2, &n2, &u2, 15); if (t.n != n2) vh_viol("zbuf:resume", "refused output was taken up again and reported as complete, but %zu of %zu bytes came back", t.n, n2); else if (t.n && memcmp(t.p, p2, t.n)) vh_viol("zbuf:resume", "refused output was taken up again and reported as complete, but %zu of %zu bytes came back", t.n, n2); free(p2); vh_count("resumed", 1); }
            free(pend);
            if (t.oob) vh_viol("zbuf:callback", "callback was given memory outside the buffer or no data"); if (live) vh_viol("zbuf:leak", "decompression leaves %ld blocks", live);
            if (t.failed) { if (!err) vh_viol("zbuf:unreported", "a failing callback was not reported"); vh_count("callback_failures", 1); }
            else if (rr == Z_STREAM_END) { if (!end || err) vh_viol("zbuf:end", "a complete stream ended with end=%d, error %d", end, err); else if (t.n != rn || memcmp(t.p, ref, rn)) vh_viol("zbuf:back", "got %zu bytes back, expected %zu", t.n, rn); vh_count(dmg == 2 ? "tails" : "roundtrips", 1); }
            else { if (end) vh_viol("zbuf:undetected", "an incomplete or damaged stream was accepted (zlib says %d)", rr); else if (rr != Z_OK && rr != Z_BUF_ERROR && !err) vh_viol("zbuf:undetected", "damage was not reported (zlib says %d)", rr); else if (!err && !end && t.n != rn) vh_viol("zbuf:cut-short", "%zu of the %zu bytes before the end of the data came back", t.n, rn); else if (t.n > rn || (t.n && memcmp(t.p, ref, t.n))) vh_viol("zbuf:prefix", "wrong bytes before the damage"); vh_count(dmg == 0 ? "truncations" : "damages", 1); }
            free(t.p); free(b2); free(ref); free(z);
        }
    next:
        free(zc); free(buf); free(s.p); free(x); if (n > 1000000) vh_count("megabytes", 1); vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}
