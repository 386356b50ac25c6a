/* C41: freadline over generated streams with chunked reads and injected errors, against a reference line splitter */
#include "vh.h"
#include "utils/utils.h"
#include "utils/strutils.h"
typedef struct src { const unsigned char *p; size_t n, i, fail; int how, hit; } src;
static ssize_t rd(void *c, char *b, size_t n)
{
    src *s = c; if (s->i >= s->fail && s->i <= s->n && s->fail != (size_t)-1) { s->hit = 1; errno = EIO; return -1; }
    size_t l = s->n - s->i; if (l > n) l = n; if (s->how && l) { size_t m = 1 + vrn((uint64_t)s->how); if (l > m) l = m; } if (s->fail != (size_t)-1 && l > s->fail - s->i) l = s->fail - s->i; memcpy(b, s->p + s->i, l); s->i += l; return (ssize_t)l;
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        int cap = vrp(40) ? 1 + (int)vrn(6) : vrp(80) ? 1 + (int)vrn(60) : 1 + (int)vrn(5000); size_t n = 0, max = 1 + vrsz(vrp(90) ? 400 : 20000); unsigned char *t = malloc(max * 3 + 200);
        int nl = (int)vrn(12); for (int i = 0; i < nl && n < max; i++) {   /* lines with lengths around the capacity */
            size_t l = vrp(20) ? 0 : vrp(30) ? (size_t)cap - 1 : vrp(15) ? (size_t)cap : vrp(10) ? (size_t)cap + 1 : vrp(80) ? vrn((uint64_t)cap + 1) : vrn(50); if (l > max + 100 - (n > max ? max : n)) l = 1;
            for (size_t q = 0; q < l; q++) { unsigned char ch = vrp(60) ? (unsigned char)('a' + vrn(26)) : (unsigned char)vr(); if (ch == '\r' || ch == '\n') ch = 0; t[n++] = ch; }
            if (i == nl - 1 && vrp(50)) break; int k = (int)vrn(4); if (k == 0) t[n++] = '\r'; else if (k == 1) { t[n++] = '\r'; t[n++] = '\n'; } else t[n++] = '\n';
        }
        unsigned char *x = vh_dup(t, n); free(t); src s = { x, n, 0, (size_t)-1, vrp(60) ? 1 + (int)vrn(9) : 0, 0 }; if (vrp(15)) s.fail = vrn(n + 1);
        vh_case("buffer %d, reads of %d, failure at %zd, stream of %zu: %s", cap, s.how, (ssize_t)s.fail, n, vh_hex(x, n < 300 ? n : 300));
        FILE *f = fopencookie(&s, "r", (cookie_io_functions_t){ .read = rd }); if (!f) vh_emitf("@X", "fopencookie"); if (vrp(30)) setvbuf(f, 0, _IONBF, 0);
        size_t p = 0; uint64_t sig = vh_hb((uint64_t)cap * 131 + s.fail, x, n); int lines = 0;
        for (;;) {
            /* reference: next line */
            size_t q = p; while (q < n && x[q] != '\r' && x[q] != '\n') q++; size_t len = q - p; int eof = p == n, term = q < n; int needs = (int)(term ? q + 1 : q);
            unsigned char *b = malloc((size_t)cap); memset(b, 0xA5, (size_t)cap); errno = 0; int r = freadline(f, b, cap);
            int toolong = len > (size_t)cap - 1; (void)needs;
            if (s.fail != (size_t)-1 && !toolong && s.fail <= q) { /* the error lies before the end of this line */ if (r != -EIO) vh_viol("readline:error", "line %d: a read error at %zu returned %d", lines, s.fail, r); vh_count("errors", 1); free(b); break; }
            if (s.fail != (size_t)-1 && toolong && s.fail <= p + (size_t)cap) { if (r != -EIO && r != -ENOSPC) vh_viol("readline:error", "line %d: a read error at %zu returned %d", lines, s.fail, r); free(b); break; }
            if (s.hit && r == -EIO) { free(b); break; }
            if (eof) { if (r != 0) vh_viol("readline:eof", "end of file returned %d", r); if (!feof(f)) vh_viol("readline:eof", "0 at the end but not at end of file"); vh_count("eofs", 1); free(b); break; }
            if (toolong) { if (r != -ENOSPC) vh_viol("readline:toolong", "a line of %zu characters for a buffer of %d returned %d", len, cap, r); vh_count("too_long", 1); free(b); break; }
            if (r != (int)len) vh_viol(term ? "readline:length" : "readline:last", "line %d of %zu characters (%s) returned %d", lines, len, term ? "terminated" : "last, without newline", r);
            else if (memcmp(b, x + p, len)) vh_viol("readline:bytes", "line %d: got %s, expected %s", lines, vh_hex(b, len), vh_hex(x + p, len));
            else if (b[len]) vh_viol("readline:nul", "line %d of %zu is not terminated", lines, len);
            if (!len) vh_count("empty_lines", 1); if (len == (size_t)cap - 1) vh_count("full_lines", 1); if (!term) vh_count("unterminated", 1); vh_count("lines", 1); lines++;
            free(b); p = q + (size_t)term; if (term && x[q] == '\r' && p < n && x[p] == '\n') { p++; vh_count("crlf", 1); } if (vh_nviol) break;
        }
        fclose(f); free(x); vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}
