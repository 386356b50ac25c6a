/* C43: error, warn and die: every byte written to the error stream against a reference; exit codes; order with standard output */
#include "vh.h"
#include <locale.h>
#include <wchar.h>
#include "error.h"
void __sanitizer_set_report_fd(void *) __attribute__((weak));
static int memfd; static int save1, save2;
static void redir(void) { fflush(0); if (ftruncate(memfd, 0)) {} lseek(memfd, 0, SEEK_SET); dup2(memfd, 1); dup2(memfd, 2); }
static void unredir(void) { fflush(0); dup2(save1, 1); dup2(save2, 2); }
int main(int argc, char **argv)
{
    vh_init(argc, argv); memfd = open(vh_tmp, O_TMPFILE | O_RDWR | O_APPEND, 0600); if (memfd < 0) { char p[300]; snprintf(p, sizeof p, "%s/err", vh_tmp); memfd = open(p, O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600); } if (memfd < 0) vh_emitf("@X", "scratch file"); save1 = fcntl(1, F_DUPFD_CLOEXEC, 500); save2 = fcntl(2, F_DUPFD_CLOEXEC, 501);
    if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void *)(intptr_t)save2); static char full[40000], want[50000], got[60000];
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        size_t n = vrp(15) ? 0 : vrp(50) ? vrn(80) : vrp(60) ? 2030 + vrn(30) : vrn(6000); char *a = malloc(n + 2); for (size_t i = 0; i < n; i++) a[i] = vrp(85) ? (char)('a' + vrn(26)) : vrp(90) ? (char)(32 + vrn(95)) : (char)(128 + vrn(128)); int nl = vrp(35); if (nl) { a[n] = '\n'; a[n + 1] = 0; } else a[n] = 0;
        int form = (int)vrn(6), num = (int)vr(); int which = (int)vrn(3) /* error warn die */, st = which == 0 ? (vrp(15) ? (int)vrn(300) - 20 : 0) : which == 2; int e = which ? 0 : vrp(30) ? 0 : vrp(60) ? (int)vrn(140) : vrp(50) ? -(int)vrn(140) : vrp(50) ? 1000 + (int)vrn(100000) : (vrp(50) ? 0x7fffffff : -0x7fffffff); if (which == 2 && !vrp(8)) { which = 1; st = 0; } int bad = form == 5 && vrp(20);
        static char prog[400]; int pk = (int)vrn(4); if (pk == 0) program_name = 0; else { size_t pl = pk == 3 ? vrn(390) : vrn(12); memset(prog, 'P', pl); prog[pl] = 0; program_name = prog; } int pend = vrp(30);
        if (form == 0) snprintf(full, sizeof full, "%s", a); else if (form == 1) snprintf(full, sizeof full, "%d:%s", num, a); else if (form == 2) snprintf(full, sizeof full, "[%-20s]%s", "xy", a); else if (form == 3) snprintf(full, sizeof full, "%s%%%c%s", a + (n ? n - 1 : 0), 'q', a); else if (form == 4) snprintf(full, sizeof full, "%*s%s", num & 63, "w", a); else snprintf(full, sizeof full, "%s", a);
        if (form == 3) { /* keep a line break at the end only */ size_t k = 0; for (size_t i = 0; full[i]; i++) if (full[i] != '\n' || !full[i + 1]) full[k++] = full[i]; full[k] = 0; }
        vh_case("%s(%d, %d) form %d, %zu bytes%s, program name of %zd%s%s", which == 0 ? "error" : which == 1 ? "warn" : "die", st, e, form, strlen(full), nl ? " with newline" : "", program_name ? (ssize_t)strlen(prog) : -1, pend ? ", pending output" : "", bad ? ", unprintable argument" : "");
        wchar_t wbad[] = { 0xdc80, 'x', 0 }; int forked = st != 0 || which == 2; char f3[8]; snprintf(f3, sizeof f3, "%s", n ? (a[n - 1] == '\n' ? "" : "") : ""); (void)f3;
        redir(); pid_t p = 0; int stc = 0; if (pend) printf("PENDING|");
#define CALL(...) (which == 0 ? error(st, e, __VA_ARGS__) : which == 1 ? warn(__VA_ARGS__) : die(__VA_ARGS__))
        fflush(forked ? stderr : stderr); if (forked && pend) { fflush(stdout); } if (!forked || !(p = fork())) {
            if (bad) CALL("%ls", wbad); else if (form == 0) CALL("%s", a); else if (form == 1) CALL("%d:%s", num, a); else if (form == 2) CALL("[%-20s]%s", "xy", a); else if (form == 3) CALL("%s", full); else if (form == 4) CALL("%*s%s", num & 63, "w", a); else { char *esc = malloc(2 * n + 4); size_t k = 0; for (size_t i = 0; a[i]; i++) { if (a[i] == '%') esc[k++] = '%'; esc[k++] = a[i]; } esc[k] = 0; char *x = vh_dup(esc, k + 1); free(esc); CALL(x); free(x); }
            if (forked) _exit(which == 0 && st == 0 ? 99 : 98);
        }
        if (forked) while (waitpid(p, &stc, 0) < 0 && errno == EINTR) ;
        unredir(); lseek(memfd, 0, SEEK_SET); ssize_t g = 0, k; while ((k = read(memfd, got + g, sizeof got - 1 - (size_t)g)) > 0) g += k; got[g] = 0;
        if (forked) { int xs = which == 2 ? 1 : st & 255; if (!WIFEXITED(stc) || WEXITSTATUS(stc) != xs) vh_viol("error:exit", "ended with status %#x, expected exit code %d (%s)", stc, xs, vh_str(got, (size_t)g < 300 ? (size_t)g : 300)); vh_count("exits", 1); }
        /* reference: head, message, tail */
        size_t fl = strlen(full); if (fl && full[fl - 1] == '\n') full[--fl] = 0; int ae = e < 0 ? -e : e; char head[500], tail[300]; snprintf(head, sizeof head, "%s%s%s", pend ? "PENDING|" : "", program_name ? program_name : "", program_name ? ": " : ""); if (which == 0 && e) snprintf(tail, sizeof tail, ": %s [%d]\n", strerror(ae), ae); else strcpy(tail, "\n"); size_t hl = strlen(head), tl = strlen(tail);
        if (!vh_nviol) {
            if ((size_t)g < hl + tl || memcmp(got, head, hl)) vh_viol("error:head", "wrote %s, expected to begin with %s", vh_str(got, (size_t)g < 200 ? (size_t)g : 200), vh_str(head, hl < 100 ? hl : 100));
            else if (memcmp(got + g - tl, tail, tl)) vh_viol("error:tail", "ends with %s, expected %s", vh_str(got + ((size_t)g > 100 ? (size_t)g - 100 : 0), (size_t)g > 100 ? 100 : (size_t)g), vh_str(tail, tl));
            else { size_t ml = (size_t)g - hl - tl; char *m = got + hl; if (bad) vh_count("unprintable", 1); else if (fl < 2000 ? ml != fl : ml > fl || ml < 2000) vh_viol("error:length", "%zu bytes of a message of %zu written", ml, fl); else if (memcmp(m, full, ml)) vh_viol("error:message", "message differs"); if (ml < fl && !bad) vh_count("truncated", 1); if (memchr(m, '\n', ml)) vh_viol("error:newline", "a newline inside the line"); if (!ml) vh_count("empty", 1); }
        }
        vh_count(which == 0 ? "errors" : which == 1 ? "warnings" : "deaths", 1); if (e) vh_count("errnos", 1); if (pend) vh_count("pending", 1); uint64_t sig = vh_hb((uint64_t)(which * 100 + form), full, fl); sig = vh_h(sig, (uint64_t)e); free(a);
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    (void)want; return vh_end();
}
