/* C42: portable_readpass on pseudo-terminals and pipes; progress bars on pseudo-terminals of every width */
#include "vh.h"
#include <termios.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <pty.h>
#include <dirent.h>
#include <time.h>
#include <inttypes.h>
#include "utils/readpass.h"
#include "utils/progbar.h"
#include "utils/strutils.h"
static int tcfail, tccalls;
int __real_tcsetattr(int, int, const struct termios *);
int __wrap_tcsetattr(int fd, int a, const struct termios *t) { tccalls++; if (tcfail && tccalls == tcfail) { errno = EPERM; return -1; } return __real_tcsetattr(fd, a, t); }
static int tgfail; int __real_tcgetattr(int, struct termios *);
int __wrap_tcgetattr(int fd, struct termios *t) { if (tgfail) { errno = EPERM; return -1; } return __real_tcgetattr(fd, t); }
typedef struct rep { int r, set, settings, fds; size_t n; char pw[2100]; int sameterm; } rep;
static int nfds(void) { int n = 0; for (int i = 0; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void onint(int s) { (void)s; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static char out[65536]; static size_t nout;
static int drain(int fd, int ms) { struct pollfd p = { fd, POLLIN, 0 }; int r = poll(&p, 1, ms); if (r <= 0) return 0; ssize_t k = read(fd, out + nout, sizeof out - 1 - nout); if (k <= 0) return -1; nout += (size_t)k; out[nout] = 0; return 1; }
static size_t count(const char *s, const char *w) { size_t n = 0, l = strlen(w); for (const char *p = s; (p = strstr(p, w)); p += l) n++; return n; }
static void ptext(char *b, size_t n) { for (size_t i = 0; i < n; i++) { int k = (int)vrn(10); b[i] = k < 7 ? (char)(33 + vrn(94)) : k < 8 ? ' ' : (char)(0xa1 + vrn(90)); } b[n] = 0; }
static size_t plen(int tty) { int k = (int)vrn(10); return k == 0 ? 0 : k < 7 ? 1 + vrn(30) : k < 8 ? 2040 + vrn(7) : tty ? vrn(2047) : 2047 + vrn(50); }
/* one password entry */
static uint64_t password(void)
{
    enum { PIPE, TTYIN, DEVTTY, NOTTY }; int how = (int)vrn(4), tty = how == TTYIN || how == DEVTTY, decoy = how == PIPE && vrp(40), confirm = vrp(50), crlf = vrp(20), kind = (int)vrn(10), echo0 = vrp(85), fail = tty && vrp(8);
    /* what is typed: pairs of lines; the reference result */
    char *ln[8]; int nl = 0, want = 0, last = 0; const char *expect = 0; int eofat = -1, intat = -1; int lim = 2047;
    if (!confirm) { size_t n = plen(tty); ln[0] = malloc(n + 1); ptext(ln[0], n); nl = 1; expect = ln[0]; }
    else { int good = (int)vrn(4); for (int t = 0; t < 3; t++) { size_t n = vrn(40), m; char *a = malloc(n + 1), *b; ptext(a, n); if (t == good) b = strdup(a); else { if (n && vrp(50)) { b = strdup(a); b[vrn(n)] ^= 1; } else { m = n + 1 + vrn(4); b = malloc(m + 1); memcpy(b, a, n); ptext(b + n, m - n); } } ln[nl++] = a; ln[nl++] = b; if (t == good) { expect = a; break; } } if (good == 3) want = -EINVAL; }
    for (int i = 0; i < nl; i++) for (char *p = ln[i]; *p; p++) if (*p == 0x7f) *p = 'x';
    if (kind == 0) { eofat = (int)vrn((uint64_t)nl); want = -1; expect = 0; } else if (kind == 1 && tty) { intat = (int)vrn((uint64_t)nl); want = -EINTR; expect = 0; }
    if (fail) { want = -EPERM; expect = 0; }
    last = nl; if (expect && strlen(expect) + 1 + (size_t)crlf > (size_t)lim) { /* too long: only its beginning fits */ vh_count("overlong", 1); }
    vh_case("%s%s, %s, %d lines%s, end at %d, interrupt at %d, echo %d%s: first %zu bytes", decoy ? "a terminal that is not asked, " : "", how == PIPE ? "pipe" : how == TTYIN ? "terminal on stdin" : how == DEVTTY ? "controlling terminal" : "no terminal", confirm ? "confirm" : "single", nl, crlf ? " (CRLF)" : "", eofat, intat, echo0, fail ? ", settings refused" : "", strlen(ln[0]));
    int m = -1, s = -1, in[2] = { -1, -1 }, rp[2]; struct termios t0; if (tty || decoy) { if (openpty(&m, &s, 0, 0, 0)) vh_emitf("@X", "openpty: %s", strerror(errno)); tcgetattr(s, &t0); t0.c_lflag &= ~(tcflag_t)ECHOCTL; if (!echo0) t0.c_lflag &= ~(tcflag_t)ECHO; if (crlf) t0.c_iflag &= ~(tcflag_t)ICRNL; if (vrp(30)) t0.c_lflag &= ~(tcflag_t)ECHONL; t0.c_iflag |= IUTF8; t0.c_iflag &= ~(tcflag_t)(ISTRIP | IXON); tcsetattr(s, TCSANOW, &t0); tcgetattr(s, &t0); }
    if (!tty || how == DEVTTY) { if (pipe(in)) vh_emitf("@X", "pipe"); }
    if (pipe(rp)) vh_emitf("@X", "pipe"); fflush(0); pid_t pid = fork();
    if (!pid) {
        rep r; memset(&r, 0, sizeof r); setsid(); close(rp[0]); if (tty) { close(m); ioctl(s, TIOCSCTTY, 0); dup2(how == TTYIN ? s : in[0], 0); /* with a controlling terminal to ask, standard input is something else */ dup2(s, 1); dup2(s, 2); } else { if (decoy) { close(m); ioctl(s, TIOCSCTTY, 0); } dup2(in[0], 0); int e = open("/dev/null", O_WRONLY); dup2(e, 1); dup2(e, 2); }
        if (in[0] >= 0) { close(in[1]); if (in[0]) close(in[0]); } struct sigaction a = { .sa_handler = onint }; sigaction(SIGINT, &a, 0); tcfail = fail ? 1 : 0; tccalls = 0; if (fail && (kind & 1)) { tgfail = 1; tcfail = 0; } alarm(20);
        char *pw = (char *)-1; struct termios t1; int f0 = nfds(); errno = 0; r.r = portable_readpass(&pw, "Pass", confirm ? "Again" : 0, how == DEVTTY || how == NOTTY); r.fds = nfds() - f0; tgfail = 0; r.set = pw != (char *)-1;
        if (r.r == 0 && r.set) { r.n = strlen(pw); memcpy(r.pw, pw, r.n < sizeof r.pw ? r.n : sizeof r.pw - 1); free(pw); } if (tty || decoy) { tcgetattr(s, &t1); r.sameterm = t1.c_iflag == t0.c_iflag && t1.c_oflag == t0.c_oflag && t1.c_lflag == t0.c_lflag && t1.c_cflag == t0.c_cflag && !memcmp(t1.c_cc, t0.c_cc, sizeof t0.c_cc); }
        if (write(rp[1], &r, sizeof r) < 0) _exit(1); _exit(0);
    }
    close(rp[1]); if (in[0] >= 0) close(in[0]); nout = 0; out[0] = 0; double t1 = now() + 20; if (how == DEVTTY && write(in[1], "not this\nnot this\n", 18) < 0) {} if (decoy) { if (write(m, "nor this\n", 9) < 0) {} vh_count("decoys", 1); } const char *eol = crlf ? "\r\n" : "\n"; int typed = 0;
    if (tty) {
        if (!fail) for (int i = 0; i < last; i++) {   /* type a line only after its prompt has been shown */
            const char *pr = confirm && (i & 1) ? "Again: " : "Pass: "; size_t need = (size_t)(confirm ? i / 2 : i) + 1; int dead = 0; while (count(out, pr) < need && now() < t1) if (drain(m, 200) < 0) { dead = 1; break; } else { int st; if (waitpid(pid, &st, WNOHANG | WNOWAIT) < 0) {} siginfo_t si; si.si_pid = 0; if (!waitid(P_PID, (id_t)pid, &si, WEXITED | WNOHANG | WNOWAIT) && si.si_pid == pid && count(out, pr) < need) { while (drain(m, 0) > 0) ; if (count(out, pr) < need) { dead = 1; break; } } }
            if (dead || now() >= t1) { vh_viol("readpass:prompt", "line %d was never asked for (output: %s)", i, vh_str(out, nout < 200 ? nout : 200)); break; }
            if (i == eofat) { char e = 4; if (write(m, &e, 1) < 0) {} break; } if (i == intat) { if (vrp(50) && write(m, "abc", 3) < 0) {} char e = 3; siginfo_t si; do { if (write(m, &e, 1) < 0) break; drain(m, 100); si.si_pid = 0; } while (now() < t1 && !waitid(P_PID, (id_t)pid, &si, WEXITED | WNOHANG | WNOWAIT) && si.si_pid != pid); break; }
            size_t l = strlen(ln[i]); for (size_t o = 0; o < l;) { size_t k = l - o > 200 ? 200 : l - o; ssize_t w = write(m, ln[i] + o, k); if (w <= 0) break; o += (size_t)w; drain(m, 0); } if (write(m, eol, strlen(eol)) < 0) {} typed++;
        }
        while (now() < t1) { siginfo_t si; si.si_pid = 0; drain(m, 5); if (!waitid(P_PID, (id_t)pid, &si, WEXITED | WNOHANG | WNOWAIT) && si.si_pid == pid) break; } while (drain(m, 0) > 0) ;
    } else { signal(SIGPIPE, SIG_IGN); int n = eofat >= 0 ? eofat : last; for (int i = 0; i < n; i++) { if (write(in[1], ln[i], strlen(ln[i])) < 0) {} if (write(in[1], eol, strlen(eol)) < 0) {} } }
    if (in[1] >= 0) close(in[1]);
    rep r; ssize_t k = read(rp[0], &r, sizeof r); close(rp[0]); int st; waitpid(pid, &st, 0); if (k != (ssize_t)sizeof r && !vh_nviol) { vh_viol("readpass:died", "the reader died (status %#x)", st); }
    if (!vh_nviol) {
        if (want == 0) { size_t wl = strlen(expect); if (wl > (size_t)lim) wl = (size_t)lim; if (r.r != 0 || !r.set) vh_viol("readpass:fails", "returned %d for a typed password of %zu bytes", r.r, strlen(expect)); else if (wl + (size_t)crlf < (size_t)lim && (r.n != strlen(expect) || memcmp(r.pw, expect, r.n))) vh_viol("readpass:bytes", "got %s, typed %s", vh_str(r.pw, r.n), vh_str(expect, strlen(expect))); else if (wl + (size_t)crlf >= (size_t)lim && (r.n > wl || memcmp(r.pw, expect, r.n) || r.n + 2 < wl)) vh_viol("readpass:long", "an over-long password of %zu bytes gave %zu", strlen(expect), r.n); vh_count("passwords", 1); if (!wl) vh_count("empty", 1); }
        else if (want == -1 ? r.r >= 0 : r.r != want) vh_viol(eofat >= 0 ? "readpass:eof" : intat >= 0 ? "readpass:interrupt" : "readpass:error", "returned %d, expected %s%d", r.r, want == -1 ? "below 0, not " : "", want); else vh_count(eofat >= 0 ? "eofs" : intat >= 0 ? "interrupts" : fail ? "refused" : "mismatches", 1);
        if ((tty || decoy) && !r.sameterm) vh_viol("readpass:terminal", "terminal settings were not restored (returned %d)", r.r);
        if (r.fds) vh_viol("readpass:fd", "%d descriptors left open", r.fds);
        if (tty) for (int i = 0; i < typed && !vh_nviol; i++) if (strlen(ln[i]) >= 4 && strstr(out, ln[i])) vh_viol("readpass:echo", "typed text was echoed: %s", vh_str(out, nout < 300 ? nout : 300)); if (tty) vh_count("typed_lines", (uint64_t)typed);
    }
    uint64_t sig = (uint64_t)how * 7 + (uint64_t)kind; for (int i = 0; i < nl; i++) { sig = vh_hb(sig, ln[i], strlen(ln[i])); free(ln[i]); } if (m >= 0) { close(m); close(s); } return sig;
}
static int pm = -1, ps = -1;
static ssize_t shown(char *b, size_t n)
{   /* everything that has reached the terminal: a marker byte sent last tells when it is complete */
    size_t k = 0; if (write(ps, "\1", 1) != 1) vh_emitf("@X", "pty"); double t = now() + 20; while (k < n && now() < t) { struct pollfd p = { pm, POLLIN, 0 }; poll(&p, 1, 1000); ssize_t r = read(pm, b + k, n - k); if (r > 0) k += (size_t)r; if (k && b[k - 1] == 1) return (ssize_t)k - 1; } vh_emitf("@X", "pty marker"); return 0;
}
static uint64_t bar(void)
{
    if (pm < 0) { if (openpty(&pm, &ps, 0, 0, 0)) vh_emitf("@X", "openpty"); struct termios t; tcgetattr(ps, &t); cfmakeraw(&t); tcsetattr(ps, TCSANOW, &t); fcntl(pm, F_SETFL, O_NONBLOCK); }
    struct winsize w; memset(&w, 0, sizeof w); w.ws_row = 24; w.ws_col = (unsigned short)(vrp(70) ? vrn(110) : vrp(50) ? vrn(4) : vr()); ioctl(ps, TIOCSWINSZ, &w);
    int tk = (int)vrn(8), human = vrp(50); uint64_t total = tk == 0 ? 0 : tk < 4 ? 1 + vrn(300) : tk < 6 ? vr() >> vrn(64) : tk < 7 ? UINT64_MAX - vrn(3) : UINT64_MAX / 100 + vrn(5) - 2; vh_case("bar of %d columns, total %" PRIu64 "%s:", w.ws_col, total, human ? " (human)" : "");
    int where = (int)vrn(12); int fd = ps, pp[2] = { -1, -1 }; if (where == 0) { if (pipe(pp)) vh_emitf("@X", "pipe"); fd = pp[1]; } else if (where == 1) fd = -1;
    progress *p = malloc(sizeof *p); memset(p, 0xA5, sizeof *p); progressbar_init(p, fd, total, human ? P_HUMAN : 0); unsigned __int128 cur = 0; int steps = 1 + (int)vrn(40), pct0 = 0, wid = -1, done0 = 0; char line[1200] = ""; char b[5000]; uint64_t sig = total * 31 + w.ws_col;
    for (int i = 0; i < steps && !vh_nviol; i++) {
        uint64_t inc; int k = (int)vrn(8); if (k == 0) inc = 0; else if (k == 1 && total && (uint64_t)cur < total) inc = total - (uint64_t)cur - vrn(2); else if (k < 6) inc = total ? vrn(total / (uint64_t)steps * 2 + 2) : vrsz(1ull << 40); else inc = vrsz(total ? total : 1 << 30); if (cur + inc > UINT64_MAX) inc = 0; cur += inc; sig = vh_h(sig, inc); vh_case_add(" +%" PRIu64, inc);
        progressbar_update(p, inc); ssize_t n = shown(b, sizeof b - 1); if (fd != ps) { if (n > 0) vh_viol("bar:notty", "output without a terminal"); if (pp[0] >= 0) { fcntl(pp[0], F_SETFL, O_NONBLOCK); if (read(pp[0], b, 10) > 0) vh_viol("bar:notty", "output on a pipe"); } vh_count("silent", 1); continue; }
        if (n > 0) { b[n] = 0; char *q = b; char *l = strrchr(b, '\r'); if (l) q = l + 1; if (strlen(q) >= sizeof line) { vh_viol("bar:long", "%zu bytes in a line", strlen(q)); break; } if (line[0] && q == b) { vh_viol("bar:append", "drawn without erasing the previous line: %s", vh_str(b, strlen(b))); break; } strcpy(line, q); vh_count("drawn", 1); }
        uint64_t cu = (uint64_t)cur; char c[64], t[64], want[160]; if (human) { humanize_size(c, sizeof c, cu); humanize_size(t, sizeof t, total); } else { snprintf(c, sizeof c, total ? "%5" PRIu64 : "%" PRIu64, cu); snprintf(t, sizeof t, "%5" PRIu64, total); }
        if (!total) { snprintf(want, sizeof want, "%-20s ...", c); if (strcmp(line, want)) vh_viol("bar:count", "shows '%s', expected '%s'", line, want); continue; }
        char pre[200]; snprintf(pre, sizeof pre, "%-6s/%6s", c, t); char pad[240]; snprintf(pad, sizeof pad, "%-20s [", pre); if (strncmp(line, pad, strlen(pad))) { vh_viol("bar:prefix", "shows '%s', expected '%s...'", line, pad); break; }
        char *q = line + strlen(pad); int o = 0, d = 0, pct = -1, end = 0; while (*q == 'o') o++, q++; while (*q == '.') d++, q++; if (sscanf(q, "] %d%%%n", &pct, &end) < 1 || !end || q[end]) { vh_viol("bar:form", "shows '%s'", line); break; }
        int ex = cur >= total ? 100 : (int)((unsigned __int128)100 * cu / total), slack = cu > UINT64_MAX / 100 && ex < 99; if (pct != ex && !(slack && pct == ex + 1)) vh_viol("bar:percent", "%" PRIu64 " of %" PRIu64 " shown as %d%%, expected %d%%", cu, total, pct, ex);
        else if (wid >= 0 && o + d != wid) vh_viol("bar:width", "the bar's width changes from %d to %d", wid, o + d); else if (o + d < 1) vh_viol("bar:width", "no bar"); else if (pct < pct0 || o < done0) vh_viol("bar:monotone", "falls from %d%% (%d) to %d%% (%d)", pct0, done0, pct, o); else if ((d == 0) != (pct == 100)) vh_viol("bar:full", "bar %s at %d%%", d ? "not full" : "full", pct); else if (w.ws_col > 1 && w.ws_col <= 50 && o + d > w.ws_col) vh_viol("bar:width", "bar of %d in %d columns", o + d, w.ws_col);
        wid = o + d; pct0 = pct; done0 = o; vh_count("bars", 1); if (pct == 100) vh_count("complete", 1);
    }
    if (!vh_nviol) { int clr = (int)vrn(2), nl = (int)vrn(2); progressbar_finish(p, clr, nl); ssize_t n = shown(b, sizeof b - 1); if (n < 0) n = 0; b[n] = 0; if (fd == ps) { int hasnl = strchr(b, '\n') != 0, hasclr = strstr(b, "\x1B[2K") != 0; if (hasnl != nl || hasclr != clr) vh_viol("bar:finish", "finish(%d, %d) wrote %s", clr, nl, vh_str(b, (size_t)n)); } else if (n) vh_viol("bar:notty", "finish wrote to a terminal"); vh_count("finished", 1); }
    free(p); if (pp[0] >= 0) { close(pp[0]); close(pp[1]); } return sig;
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        uint64_t sig = vrp(20) ? password() : bar();
        vh_count("evals", 1); vh_sig(sig); if (c < 4) vh_sample("%.400s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}
