/* C32: getopt_long/getopt against an independent model of the option-parsing contract */
#include "vh.h"
#include <getopt.h>
extern int optreset;
#define Z(s) ((s) ? (s) : "(null)")
typedef struct ev { int ret; const char *arg; int idx; int opt; int err; } ev;   /* idx -1: unset */
static char os[80]; static struct option *lo; static int nlo; static int *flags;
static ev E[400]; static int nE; static int order[200], norder, nopr; static int argc_, inorder, posix_, colon;
static char **orig; static int unspec;   /* -W followed by an empty argument: no contract */
static void add(int ret, const char *arg, int idx, int opt, int err) { E[nE++] = (ev){ ret, arg, idx, opt, err }; }
static int model_long(int i, const char *nm, int arg_follows_at)
{   /* returns number of further arguments used */
    const char *eq = strchr(nm, '='); size_t l = eq ? (size_t)(eq - nm) : strlen(nm); int m = -1, ex = 0, amb = 0; (void)i;
    for (int k = 0; k < nlo; k++) if (!strncmp(lo[k].name, nm, l)) { if (strlen(lo[k].name) == l) { m = k; ex = 1; break; } if (m < 0) m = k; else amb = 1; }
    if (m < 0 || (amb && !ex)) { add('?', 0, -1, 0, 1); return 0; }
    if (eq && lo[m].has_arg == no_argument) { add(colon ? ':' : '?', 0, -1, lo[m].flag ? 0 : lo[m].val, 1); return 0; }
    const char *a = eq ? eq + 1 : 0; int used = 0;
    if (!a && lo[m].has_arg == required_argument) { if (arg_follows_at < argc_) { a = orig[arg_follows_at]; used = 1; } else { add(colon ? ':' : '?', 0, -1, lo[m].flag ? 0 : lo[m].val, 1); return 0; } }
    add(lo[m].flag ? 0 : lo[m].val, a, m, 0, 0); return used;
}
static void model(int longs)
{
    nE = norder = nopr = 0; int opr[200]; const char *o = os + (*os == '-' || *os == '+'); order[norder++] = 0; int i;
    for (i = 1; i < argc_; i++) {
        const char *a = orig[i];
        if (a[0] != '-' || !a[1]) { if (inorder) { add(1, a, -1, 0, 0); order[norder++] = i; continue; } if (posix_) break; opr[nopr++] = i; continue; }
        order[norder++] = i;
        if (a[1] == '-' && !a[2]) { i++; break; }
        if (a[1] == '-') { int u = model_long(i, a + 2, i + 1); if (u) order[norder++] = ++i; continue; }
        for (const char *p = a + 1; *p; p++) {
            const char *h = *p == ':' ? 0 : strchr(o, *p); if (!h) { add('?', 0, -1, *p, 1); continue; }
            if (*p == 'W' && h[1] == ';' && longs) { if (p[1]) { int u = model_long(i, p + 1, i + 1); if (u) order[norder++] = ++i; } else if (i + 1 < argc_) { order[norder++] = ++i; if (!orig[i][0]) unspec = 1; int u = model_long(i, orig[i], i + 1); if (u) order[norder++] = ++i; } else add(colon ? ':' : '?', 0, -1, 'W', 1); break; }
            if (h[1] != ':') { add(*p, 0, -1, 0, 0); continue; }
            if (p[1]) { add(*p, p + 1, -1, 0, 0); break; }
            if (h[2] == ':') { add(*p, 0, -1, 0, 0); break; }
            if (i + 1 < argc_) { order[norder++] = ++i; add(*p, orig[i], -1, 0, 0); } else add(colon ? ':' : '?', 0, -1, *p, 1);
            break;
        }
    }
    for (int k = 0; k < nopr; k++) order[norder + k] = opr[k]; int first = norder; norder += nopr; for (; i < argc_; i++) order[norder++] = i; nopr = argc_ - first;
}
static char *word(void) { char b[40]; size_t n = vrp(10) ? 0 : 1 + vrn(6); for (size_t i = 0; i < n; i++) b[i] = (char)vpick("abcdefXY=:1/."); b[n] = 0; return vh_dups(b); }
static char *mkarg(int longs)
{
    char b[80]; size_t n = 0; int k = (int)vrn(10);
    if (k < 2) return word();
    if (k == 2) return vh_dups("-");
    if (k == 3) return vh_dups(vrp(70) ? "--" : "-");
    if (k < 7 && longs) {
        b[n++] = '-'; b[n++] = '-'; if (nlo && vrp(90)) { const char *nm = lo[vrn((uint64_t)nlo)].name; size_t l = strlen(nm), t = vrp(50) ? l : vrn(l + 1); if (!t) t = l; memcpy(b + n, nm, t); n += t; if (vrp(8)) b[n++] = vpick("abcz"); } else { size_t t = 1 + vrn(4); while (t--) b[n++] = vpick("abco-"); }
        if (vrp(30)) { b[n++] = '='; size_t t = vrn(5); while (t--) b[n++] = vpick("xy=-1"); }
    } else { b[n++] = '-'; size_t t = 1 + vrn(4); while (t--) { int c = vrp(85) && os[0] ? os[vrn(strlen(os))] : vpick("abcdz:"); if (c == '-' && n == 1) c = 'a'; if (c == '+' || c == ';' || c == '-') c = 'b'; b[n++] = (char)c; } if (vrp(25)) { t = 1 + vrn(5); while (t--) b[n++] = vpick("abcd=1"); } }
    b[n] = 0; return vh_dups(b);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); FILE *err0 = stderr; char errbuf[4000];
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        int longs = vrp(80); uint64_t sig = 0; int abandoned = 0;
        for (int round = 0; round < 2 && !vh_nviol; round++) {
            /* option string and table */
            size_t n = 0; int k = (int)vrn(10); inorder = posix_ = 0; int env = vrp(15); if (k < 2) { os[n++] = '+'; posix_ = 1; } else if (k < 4) { os[n++] = '-'; inorder = 1; env = 0; } if (env) { setenv("POSIXLY_CORRECT", "1", 1); posix_ = 1; } else unsetenv("POSIXLY_CORRECT");
            colon = vrp(30); if (colon) os[n++] = ':'; uint32_t seen = 0; for (int q = (int)vrn(8); q > 0; q--) { int l = (int)vrn(8); if (seen >> l & 1) continue; seen |= 1u << l; os[n++] = (char)('a' + l); if (vrp(50)) { os[n++] = ':'; if (vrp(40)) os[n++] = ':'; } } if (longs && vrp(15)) { os[n++] = 'W'; os[n++] = ';'; } os[n] = 0; char *osx = vh_dups(os);
            nlo = (int)vrn(9); flags = calloc((size_t)nlo + 1, sizeof(int)); lo = calloc((size_t)nlo + 1, sizeof *lo); for (int q = 0; q < nlo; q++) { char nm[20]; size_t l = 1 + vrn(6); for (size_t z = 0; z < l; z++) nm[z] = (char)(z ? vpick("oab-") : vpick("oab")); nm[l] = 0; for (int z = 0; z < q; z++) if (!strcmp(lo[z].name, nm)) { snprintf(nm, sizeof nm, "%s%d", lo[z].name, q); break; } lo[q].name = vh_dups(nm); lo[q].has_arg = (int)vrn(3); lo[q].flag = vrp(25) ? &flags[q] : 0; lo[q].val = vrp(50) ? 'A' + q : 1000 + q; }
            argc_ = 1 + (int)(vrp(80) ? vrn(9) : vrn(40)); char **av = malloc(sizeof(char *) * (size_t)(argc_ + 1)), **pv = malloc(sizeof(char *) * (size_t)(argc_ + 1)); av[0] = vh_dups("prog"); for (int q = 1; q < argc_; q++) av[q] = mkarg(longs); av[argc_] = 0; memcpy(pv, av, sizeof(char *) * (size_t)(argc_ + 1)); orig = av;
            int oe = vrp(50); vh_case("%s opts='%s'%s opterr=%d%s longs:", longs ? "getopt_long" : "getopt", os, env ? " POSIXLY_CORRECT" : "", oe, abandoned ? " (after an abandoned parse)" : ""); for (int q = 0; q < nlo && longs; q++) vh_case_add(" %s/%d%s", lo[q].name, lo[q].has_arg, lo[q].flag ? "f" : ""); vh_case_add(" args:"); for (int q = 1; q < argc_; q++) vh_case_add(" '%s'", av[q]);
            unspec = 0; model(longs); int stop_at = round == 0 && vrp(50) ? (nE ? (int)vrn((uint64_t)nE) : 0) : 100000; abandoned = 0; int withidx = vrp(80);
            if (round && vrp(50)) { optreset = 1; optind = 1; } else optind = 0; opterr = oe; int at = 0, guard = 0;
            for (;;) {
                if (unspec) { abandoned = 1; break; }
                if (at == stop_at) { abandoned = 1; vh_count("abandoned", 1); break; }
                int idx = -7; FILE *m = fmemopen(errbuf, sizeof errbuf, "w"); errbuf[0] = 0; stderr = m; optarg = (char *)"stale"; int r = longs ? getopt_long(argc_, pv, osx, lo, withidx ? &idx : 0) : getopt(argc_, pv, osx); fflush(m); long el = ftell(m); fclose(m); stderr = err0;
                if (++guard > 500) { vh_viol("getopt:endless", "no end"); break; }
                if (r == -1) { if (at != nE) vh_viol("getopt:early", "ended after %d of %d options, next should be %d", at, nE, E[at].ret); break; }
                if (at >= nE) { vh_viol("getopt:extra", "option %d (argument '%s') beyond the %d expected", r, Z(optarg), nE); break; }
                ev *e = &E[at++]; sig = vh_h(sig, (uint64_t)(uint32_t)r + (uint64_t)e->err * 1000 + (e->arg ? 5000 : 0));
                if (r != e->ret) { vh_viol("getopt:ret", "option number %d is %d, expected %d", at, r, e->ret); break; }
                if (!e->err && optarg != e->arg) { vh_viol("getopt:arg", "option number %d (%d) has argument '%s', expected '%s'", at, r, Z(optarg), Z(e->arg)); break; }
                if (e->err && optopt != e->opt) { vh_viol("getopt:optopt", "error number %d: optopt %d, expected %d", at, optopt, e->opt); break; }
                if (longs && withidx && e->idx >= 0 && idx != e->idx) { vh_viol("getopt:idx", "long option index %d, expected %d", idx, e->idx); break; }
                if (e->idx >= 0) { vh_count("long_options", 1); if (lo[e->idx].flag) { if (flags[e->idx] != lo[e->idx].val) { vh_viol("getopt:flag", "flag of '%s' not set", lo[e->idx].name); break; } flags[e->idx] = 0; } }
                for (int q = 0; q < nlo; q++) if (flags[q]) { vh_viol("getopt:flag", "flag of '%s' set", lo[q].name); break; }
                if ((el > 0) != (e->err && oe && !colon)) { vh_viol("getopt:message", "option number %d: message '%s' with opterr %d%s", at, Z(errbuf), oe, colon ? ", leading colon" : ""); break; }
                vh_count(e->err ? "errors" : e->ret == 1 ? "in_order" : "options", 1); if (e->arg) vh_count("arguments", 1);
            }
            if (!vh_nviol && !abandoned) {
                if (argc_ - optind != nopr) vh_viol("getopt:optind", "optind %d leaves %d operands, expected %d", optind, argc_ - optind, nopr);
                else for (int q = 0; q < argc_; q++) if (pv[q] != av[order[q]]) { vh_viol("getopt:permute", "position %d holds '%s', expected '%s'", q, pv[q], av[order[q]]); break; }
                if (pv[argc_]) vh_viol("getopt:end", "vector end overwritten"); vh_count("operands", (uint64_t)nopr); vh_count("parsed", 1); if (nopr && norder != argc_) vh_viol("model", "internal");
            }
            for (int q = 0; q < argc_; q++) free(av[q]); free(av); free(pv); for (int q = 0; q < nlo; q++) free((char *)lo[q].name); free(lo); free(flags); free(osx);
        }
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}
