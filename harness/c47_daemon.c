/* C47: daemonize from random initial states; the survivor reports its session, parents, descriptors, directory, mask and pending output */
#include "vh.h"
#include <dirent.h>
#include <pty.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/sysmacros.h>
#include "utils/daemon.h"
pid_t __real_fork(void); int __real_open(const char *, int, ...), __real_dup2(int, int);
static int armed, nfork, ffork, nopen, fopen_, ndup, fdup;
pid_t __wrap_fork(void) { if (armed && ++nfork == ffork) { errno = EAGAIN; return -1; } return __real_fork(); }
int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (armed && ++nopen == fopen_) { errno = EMFILE; return -1; } return __real_open(p, fl, m); }
int __wrap_dup2(int a, int b) { if (armed && ++ndup == fdup) { errno = EBUSY; return -1; } return __real_dup2(a, b); }
typedef struct fdi { int open; dev_t dev, rdev; ino_t ino; int fl, cloex; } fdi; enum { NF = 48 };
typedef struct rep { int r; pid_t pid, ppid, sid, pgrp; int tty, reacq; unsigned mask; char cwd[512]; fdi f[NF]; int rd0, w1, w2; } rep;
static void fds(fdi *f, int skip) { for (int i = 0; i < NF; i++) { struct stat st; memset(&f[i], 0, sizeof f[i]); if (i != skip && !fstat(i, &st)) { f[i].open = 1; f[i].dev = st.st_dev; f[i].rdev = st.st_rdev; f[i].ino = st.st_ino; f[i].fl = fcntl(i, F_GETFL) & O_ACCMODE; f[i].cloex = fcntl(i, F_GETFD) & FD_CLOEXEC; } } }
int main(int argc, char **argv)
{
    vh_init(argc, argv); char dir[400], fpath[400], out[400]; snprintf(dir, sizeof dir, "%s/d", vh_tmp); snprintf(fpath, sizeof fpath, "%s/file", vh_tmp); snprintf(out, sizeof out, "%s/out", vh_tmp); mkdir(dir, 0700); { int f = __real_open(fpath, O_CREAT | O_RDWR, 0600); close(f); }
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        int closed = vrp(50) ? 0 : (int)vrn(8), extra = (int)vrn(6), tty = vrp(25), cwdk = (int)vrn(6), pend = vrp(40), sess = vrp(50); unsigned mask = vrp(50) ? 077 : (unsigned)vrn(01000); int fault = (int)vrn(8); ffork = fopen_ = fdup = 0; if (fault == 0) ffork = 1 + (int)vrn(2); else if (fault == 1) fopen_ = 1 + (int)vrn(3); else if (fault == 2) fdup = 1 + (int)vrn(3);
        const char *cwd = cwdk == 0 ? 0 : cwdk == 1 ? "/" : cwdk == 2 ? fpath : cwdk == 3 ? "/nonexistent/dir" : dir; int badcwd = cwdk == 2 || cwdk == 3;
        vh_case("closed %d, %d extra descriptors, %s, mask %03o, directory %s, fork %d open %d dup2 %d fails%s", closed, extra, tty ? "on a terminal" : sess ? "session leader" : "plain", mask, cwd ? cwd : "(default)", ffork, fopen_, fdup, pend ? ", output pending" : "");
        int p[2], m = -1, s = -1; if (pipe(p)) vh_emitf("@X", "pipe"); if (tty && openpty(&m, &s, 0, 0, 0)) vh_emitf("@X", "openpty"); int of = __real_open(out, O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600); fdi *before = mmap(0, sizeof(fdi) * NF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fflush(0);
        pid_t orig = __real_fork();
        if (!orig) {
            alarm(30); int w = fcntl(p[1], F_DUPFD, 60); close(p[0]); close(p[1]); __real_dup2(of, 1); if (of != 1) close(of); if (tty || sess) setsid(); if (tty) { close(m); ioctl(s, TIOCSCTTY, 0); __real_dup2(s, 0); if (s > 2) close(s); }
            for (int i = 0; i < extra; i++) { int f = __real_open(fpath, O_RDWR, 0); if (vrp(30)) { __real_dup2(f, 10 + i * 3); close(f); } } if (pend) { printf("PENDING\n"); if (closed & 2) fflush(stdout); } for (int i = 0; i < 3; i++) if (closed & 1 << i) close(i);
            umask(mask); if (chdir(vh_tmp)) {} fds(before, w); pid_t me = getpid(); (void)me; armed = 1; int r = daemonize(cwd); armed = 0;
            rep q; memset(&q, 0, sizeof q); q.r = r; q.pid = getpid(); q.ppid = getppid(); q.sid = getsid(0); q.pgrp = getpgrp(); fds(q.f, w); q.mask = umask(0); if (!getcwd(q.cwd, sizeof q.cwd)) strcpy(q.cwd, "?"); char b; if (!r) q.rd0 = (int)fcntl(0, F_SETFL, O_NONBLOCK), q.rd0 = (int)read(0, &b, 1); if (!r) q.w1 = (int)write(1, "x", 1), q.w2 = (int)write(2, "x", 1); int t = __real_open("/dev/tty", O_RDWR, 0); q.tty = t >= 0; if (t >= 0) close(t); int pm, ps; char nm[64]; if (!openpty(&pm, &ps, nm, 0, 0)) { int a = __real_open(nm, O_RDWR, 0), t2 = __real_open("/dev/tty", O_RDWR, 0); q.reacq = t2 >= 0 && !q.tty; (void)a; }
            if (write(w, &q, sizeof q) != sizeof q) _exit(9); if (pend) fflush(stdout); _exit(r ? 7 : 0);
        }
        close(p[1]); int st = -1; while (waitpid(orig, &st, 0) < 0 && errno == EINTR) ; rep q[4]; int n = 0; size_t got = 0; struct pollfd pf = { p[0], POLLIN, 0 }; for (;;) { if (poll(&pf, 1, 40000) <= 0) { vh_viol("daemon:hang", "no report from the daemon"); break; } ssize_t k = read(p[0], (char *)q + got, sizeof q - got); if (k <= 0) break; got += (size_t)k; if (got == sizeof q) break; } n = (int)(got / sizeof *q); close(p[0]);
        if (m >= 0) { close(m); close(s); }
        char o[200]; lseek(of, 0, SEEK_SET); ssize_t on = read(of, o, sizeof o - 1); o[on < 0 ? 0 : on] = 0; close(of); struct stat nul; stat("/dev/null", &nul);
        if (!vh_nviol) {
            if (n != 1) vh_viol("daemon:count", "daemonize returned in %d processes (original ended with %#x)", n, st);
            else if (ffork == 1) { if (q->r != -EAGAIN) vh_viol("daemon:unreported", "a failing fork returned %d", q->r); if (q->pid != orig) vh_viol("daemon:fork", "first fork failed but another process returned"); vh_count("failures", 1); }
            else {
                if (!WIFEXITED(st) || WEXITSTATUS(st)) vh_viol("daemon:exit", "the original process ended with %#x", st);
                int must = ffork || badcwd || fopen_ || fdup; if (ffork) { if (q->r != -EAGAIN) vh_viol("daemon:unreported", "a failing second fork returned %d", q->r); }
                else if (badcwd) { if (q->r != -ENOTDIR && q->r != -ENOENT) vh_viol("daemon:unreported", "directory %s: returned %d", cwd, q->r); } else if (fopen_ && nopen >= 0 && must) { if (q->r >= 0 && (q->f[0].rdev != nul.st_rdev || q->f[1].rdev != nul.st_rdev || q->f[2].rdev != nul.st_rdev || q->rd0 != 0 || q->w1 != 1 || q->w2 != 1)) vh_viol("daemon:unreported", "redirection failed but %d was returned", q->r); }
                else if (fdup) { if (q->r >= 0 && (!q->f[0].open || !q->f[1].open || !q->f[2].open || q->f[0].rdev != nul.st_rdev || q->f[1].rdev != nul.st_rdev || q->f[2].rdev != nul.st_rdev || q->rd0 != 0 || q->w1 != 1 || q->w2 != 1)) vh_viol("daemon:unreported", "dup2 failed but %d was returned", q->r); }
                if (must) vh_count("failures", 1);
                else if (q->r != 0) vh_viol("daemon:fails", "returned %d", q->r);
                else {
                    if (q->pid == orig || q->ppid == orig) vh_viol("daemon:parent", "the daemon is (a child of) the original process"); if (q->sid == getsid(0) || q->sid == orig) vh_viol("daemon:session", "not in a new session"); if (q->sid == q->pid) vh_viol("daemon:leader", "the daemon leads its session"); if (q->tty) vh_viol("daemon:tty", "still has a controlling terminal"); if (q->reacq) vh_viol("daemon:tty", "opening a terminal made it the controlling one");
                    if (q->mask != 022) vh_viol("daemon:mask", "creation mask %03o", q->mask); const char *w = cwd ? cwd : "/tmp"; char rp[4096]; if (!realpath(w, rp)) strcpy(rp, w); if (strcmp(q->cwd, rp)) vh_viol("daemon:cwd", "directory %s, expected %s", q->cwd, rp);
                    for (int i = 0; i < 3; i++) if (!q->f[i].open || q->f[i].rdev != nul.st_rdev || q->f[i].ino != nul.st_ino) vh_viol("daemon:stdio", "descriptor %d is not the null device", i); if (q->rd0 != 0 || q->w1 != 1 || q->w2 != 1) vh_viol("daemon:stdio", "read gives %d, writes give %d and %d", q->rd0, q->w1, q->w2);
                    for (int i = 3; i < NF; i++) if (q->f[i].open != before[i].open) vh_viol("daemon:fd", "descriptor %d %s", i, q->f[i].open ? "was left open" : "was closed"); else if (q->f[i].open && (q->f[i].ino != before[i].ino || q->f[i].dev != before[i].dev)) vh_viol("daemon:fd", "descriptor %d is another file", i);
                    vh_count("daemons", 1); if (tty) vh_count("from_terminal", 1); if (closed) vh_count("closed_stdio", 1);
                }
                if (pend && !vh_nviol && !must && strcmp(o, "PENDING\n")) vh_viol("daemon:output", "pending output came out as %s", vh_str(o, strlen(o))); if (pend) vh_count("pending", 1);
            }
        }
        munmap(before, sizeof(fdi) * NF); uint64_t sig = vh_h(vh_h((uint64_t)closed * 77 + (uint64_t)extra, mask * 64 + (uint64_t)cwdk), (uint64_t)(tty * 8 + pend * 4 + sess * 2 + ffork * 16 + fopen_ * 64 + fdup * 256));
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}
