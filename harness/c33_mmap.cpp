/* C33: mmap_file against pread/pwrite of the same file; /proc/self/maps and descriptor monitors; system exceptions */
#include "vh.h"
#include <string>
#include <vector>
#include <sys/mman.h>
#include "utils/mmap.h"
#include "syserror.h"
using namespace putils; using std::string;
extern "C" { int __real_fstat(int, struct stat *); int __real_ftruncate(int, off_t); void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_open(const char *, int, ...); }
static int lk_err, lk_n, lk_un; static uintptr_t lk_a; static size_t lk_l; extern int inj;
extern "C" int __wrap_mlock(const void *p, size_t n) { lk_n++; lk_un = 0; lk_a = (uintptr_t)p; lk_l = n; if (lk_err) { errno = lk_err; return -1; } return 0; }
extern "C" int __wrap_munlock(const void *p, size_t n) { lk_n++; lk_un = 1; lk_a = (uintptr_t)p; lk_l = n; if (lk_err) { errno = lk_err; return -1; } return 0; }
int inj; static int fail_fstat, fail_trunc, fail_mmap, fail_open;
extern "C" int __wrap_fstat(int f, struct stat *s) { if (inj && fail_fstat) { errno = fail_fstat; return -1; } return __real_fstat(f, s); }
extern "C" int __wrap_ftruncate(int f, off_t n) { if (inj && fail_trunc) { errno = fail_trunc; return -1; } return __real_ftruncate(f, n); }
extern "C" void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (inj && fail_mmap && fd >= 0) { errno = fail_mmap; return MAP_FAILED; } return __real_mmap(a, n, p, f, fd, o); }
extern "C" int __wrap_open(const char *p, int fl, ...) { if (inj && fail_open) { errno = fail_open; return -1; } va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return __real_open(p, fl, m); }
extern "C" int __wrap___open_2(const char *p, int fl) { if (inj && fail_open) { errno = fail_open; return -1; } return __real_open(p, fl); }
static int fdc(void) { int n = 0; for (int i = 0; i < 200; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static int maps(const char *f, std::vector<uintptr_t> *at = 0) { FILE *m = fopen("/proc/self/maps", "r"); char l[6000]; int n = 0; string end = string("/") + f + "\n"; while (fgets(l, sizeof l, m)) if (strlen(l) > end.size() && !strcmp(l + strlen(l) - end.size(), end.c_str())) { uintptr_t a = 0, b = 0; sscanf(l, "%lx-%lx", &a, &b); n += (int)((b - a) / 4096); if (at) at->push_back(a); } fclose(m); return n; }
/* what a derived exception starts from: a code, no text (in memory that was used before) */
struct dex : sys_exception { dex() {} explicit dex(int e) : sys_exception(e) {} };
struct dint : syscall_interrupted { dint() {} };
template <class X, class... A> static void blank(int code, A... a) { void *m = malloc(sizeof(X)); memset(m, 0x5a, sizeof(X)); X *x = new (m) X(a...); if (x->errcode() != code || strnlen(x->what(), 2000)) vh_viol("exc:blank", "code %d text '%.50s', expected code %d and no text", x->errcode(), x->what(), code); x->~X(); free(m); }
static void expect_ex(const sys_exception &x, int err, const char *name, const char *when)
{
    if (x.errcode() != err) vh_viol("mmap:errcode", "%s: exception carries %d, expected %d", when, x.errcode(), err);
    const char *w = x.what(); size_t l = strnlen(w, 2000); if (l >= 1024) { vh_viol("exc:unterminated", "%s: message of %zu bytes", when, l); return; }
    if (strlen(name) < 800) { if (!strstr(w, name)) vh_viol("mmap:message", "%s: message '%.200s' does not name the file", when, w); else if (err && !strstr(w, strerror(err))) vh_viol("mmap:message-cause", "%s: message '%.300s' lacks '%s'", when, w, strerror(err)); }
    vh_count("exceptions", 1);
}
struct mapd { char *p; size_t n; off_t o; };
static uint64_t files(void)
{
    uint64_t sig = 1; char name[64]; snprintf(name, sizeof name, "f%llu", (unsigned long long)vrn(1000)); size_t pg = mmap_file::pagesize(); if (pg != (size_t)sysconf(_SC_PAGESIZE)) vh_viol("mmap:pagesize", "page size %zu", pg);
    size_t sz = vrp(15) ? 0 : vrp(30) ? pg * vrn(5) : vrn(6 * pg); unsigned fl = (vrp(60) ? MMAP_RDWR : MMAP_RDONLY) | (vrp(40) ? MMAP_SHARED : 0) | (vrp(30) ? MMAP_CREATE : 0);
    std::vector<unsigned char> ref(sz); vrbytes(ref.data(), sz); int f = open(name, O_CREAT | O_TRUNC | O_RDWR, 0644); if (sz && write(f, ref.data(), sz) != (ssize_t)sz) vh_emitf("@X", "write"); int f0 = fdc();
    vh_case("file of %zu bytes, flags %#x:", sz, fl); sig = vh_h(sig, fl + sz * 16); std::vector<mapd> ms;
    {
        mmap_file m(name, fl); if (m.filesize() != (off_t)sz || m.filename() != name) vh_viol("mmap:size", "size %lld, name %s", (long long)m.filesize(), m.filename().c_str());
        int ops = 1 + (int)vrn(14);
        for (int o = 0; o < ops && !vh_nviol; o++) {
            int k = (int)vrn(10);
            if (k < 5) {   /* map a window */
                off_t off = (off_t)(vrp(80) ? pg * vrn(ref.size() / pg + 1) : vrn(ref.size() + pg)); size_t left = off < (off_t)ref.size() ? ref.size() - (size_t)off : 0, n = vrp(40) ? left : vrp(60) ? vrn(left + 1) : vrp(50) ? left + 1 + vrn(2 * pg) : 0; bool whole = vrp(15); if (whole) { off = 0; n = ref.size(); } vh_case_add(" map(%lld,%zu)", (long long)off, n);
                bool old = false; for (auto &q : ms) if (q.o == off && q.n == n) old = true; bool grow = (size_t)off + n > ref.size();
                int we = -1; if (!old) { if (grow && !(fl & MMAP_CREATE)) we = 0; else if (grow && !(fl & MMAP_RDWR)) we = EINVAL; else if (!n || off % (off_t)pg) we = EINVAL; }
                fail_trunc = fail_mmap = 0; if (!old && vrp(8)) { if (vrp(50)) fail_mmap = vrp(50) ? ENOMEM : EAGAIN; else fail_trunc = vrp(50) ? ENOSPC : EFBIG; if (we != 0 && grow && fail_trunc) we = fail_trunc; else if (fail_mmap && we != 0 && !(grow && !(fl & MMAP_RDWR))) we = fail_mmap; vh_case_add("!"); }
                bool fileg = grow && (fl & MMAP_CREATE) && (fl & MMAP_RDWR) && !(fail_trunc && we == fail_trunc); 
                try { inj = 1; char *p = (char *)(whole ? m.mmap() : m.mmap(off, n)); inj = 0; if (we >= 0) { vh_viol("mmap:accepted", "mapping %zu bytes at %lld of %zu succeeded, expected an exception (%d)", n, (long long)off, ref.size(), we); break; }
                    if (fileg) { ref.resize((size_t)off + n); vh_count("grown", 1); }
                    if (old) { bool same = false; for (auto &q : ms) if (q.o == off && q.n == n && q.p == p) same = true; if (!same) { vh_viol("mmap:again", "the same window mapped at another address"); break; } }
                    else { if (!p || ((uintptr_t)p & (pg - 1))) { vh_viol("mmap:addr", "address %p", p); break; } ms.push_back({ p, n, off }); } vh_count("windows", 1);
                } catch (const sys_exception &x) { inj = 0; if (we < 0) { vh_viol("mmap:refused", "mapping %zu bytes at %lld of %zu: %s", n, (long long)off, ref.size(), x.what()); break; } if (fileg) ref.resize((size_t)off + n); expect_ex(x, we, name, "mmap"); vh_count("refused", 1); }
                fail_trunc = fail_mmap = 0;
            } else if (k < 6 && !ms.empty()) { size_t i = vrn(ms.size()); vh_case_add(" unmap"); m.unmap(ms[i].p); ms.erase(ms.begin() + (long)i); vh_count("unmapped", 1); if (vrp(30)) { int b = maps(name); char *bogus = (char *)malloc(10); m.unmap(bogus); free(bogus); if (maps(name) != b) vh_viol("mmap:unmap-foreign", "unmapping a foreign pointer removed a mapping"); } }
            else if (k < 8 && !ms.empty() && (fl & MMAP_RDWR)) {   /* write through the mapping */
                auto &q = ms[vrn(ms.size())]; if (!q.n) continue; size_t a = vrn(q.n), l = 1 + vrn(q.n - a < 300 ? q.n - a : 300); if (l > q.n - a) l = q.n - a; vh_case_add(" write"); std::vector<unsigned char> w(l), before(l); vrbytes(w.data(), l); memcpy(before.data(), ref.data() + q.o + a, l); memcpy(q.p + a, w.data(), l); std::vector<unsigned char> got(l); if (pread(f, got.data(), l, q.o + (off_t)a) != (ssize_t)l) vh_viol("mmap:short", "file too short");
                bool reached = !memcmp(got.data(), w.data(), l), kept = !memcmp(got.data(), before.data(), l);
                if (fl & MMAP_SHARED) { if (!reached) vh_viol("mmap:shared-write", "a write to a shared mapping did not reach the file"); } else if (!reached && !kept) vh_viol("mmap:private-write-torn", "a write to a mapping changed the file otherwise"); else if (!reached) for (size_t z = 0; z < l; z++) q.p[a + z] = (char)before[z];   /* either, see the probe below */
                if (reached) memcpy(ref.data() + q.o + a, w.data(), l); vh_count("writes", 1);
            } else if (!ref.empty()) { size_t a = vrn(ref.size()); unsigned char b = (unsigned char)vr(); if ((fl & MMAP_SHARED) || !(fl & MMAP_RDWR)) { ref[a] = b; if (pwrite(f, &b, 1, (off_t)a) != 1) vh_emitf("@X", "pwrite"); } }
            struct stat st; fstat(f, &st); if (st.st_size != (off_t)ref.size()) vh_viol("mmap:filesize", "file has %lld bytes, expected %zu", (long long)st.st_size, ref.size()); if (m.filesize() != (off_t)ref.size()) vh_viol("mmap:size", "filesize() %lld, file %zu", (long long)m.filesize(), ref.size());
            for (auto &q : ms) if (memcmp(q.p, ref.data() + q.o, q.n)) { vh_viol("mmap:content", "window of %zu at %lld differs from the file", q.n, (long long)q.o); break; }
            int want = 0; for (auto &q : ms) want += (int)((q.n + pg - 1) / pg); if (!vh_nviol && maps(name) != want) vh_viol("mmap:maps", "%d pages of the file mapped, expected %d", maps(name), want);
        }
    }
    if (maps(name)) vh_viol("mmap:leak", "%d pages still mapped after destruction", maps(name)); if (fdc() != f0) vh_viol("mmap:fd", "%d descriptors, %d before", fdc(), f0); close(f); unlink(name); vh_count("files", 1); return sig;
}
/* pages locked and unlocked: every byte asked for, and no page without one */
static uint64_t locks(void)
{
    size_t pg = mmap_file::pagesize(), n = 1 + vrn(5 * pg), a, l; int f = open("lk", O_CREAT | O_TRUNC | O_RDWR, 0644); if (ftruncate(f, (off_t)n)) vh_emitf("@X", "ftruncate"); uint64_t sig = vh_h(n, 5);
    { mmap_file m("lk", MMAP_RDWR | MMAP_SHARED); char *p = (char *)m.mmap(); uintptr_t P = (uintptr_t)p;
      for (int o = 0; o < 6 && !vh_nviol; o++) {
        a = vrp(40) ? pg * vrn((n - 1) / pg + 1) : vrn(n); l = vrp(30) ? n - a : 1 + vrn(n - a); if (vrp(30) && n > pg + 8) { a = pg - 1 - vrn(8); l = 2 + vrn(n - a - 1); if (l > n - a) l = n - a; } int un = vrp(50); lk_err = vrp(20) ? (vrp(50) ? ENOMEM : EPERM) : 0; lk_n = 0; vh_case("%s of %zu bytes at %zu of %zu%s", un ? "unlock" : "lock", l, a, n, lk_err ? ", failing" : ""); sig = vh_h(sig, a * 8191 + l);
        try { inj = 1; if (un) m.munlock(p + a, l); else m.mlock(p + a, l); inj = 0; if (lk_err) vh_viol("mmap:lock-error", "a failing lock was not reported"); } catch (const sys_exception &x) { inj = 0; if (!lk_err) vh_viol("mmap:lock-error", "%s", x.what()); else expect_ex(x, lk_err, "lk", "lock"); }
        if (!lk_n || lk_un != un) { vh_viol("mmap:lock-call", "%d calls", lk_n); break; }
        uintptr_t lo = lk_a & ~(pg - 1), hi = (lk_a + lk_l + pg - 1) & ~(pg - 1); if (lo > P + a || hi < P + a + l) vh_viol("mmap:lock-range", "%zu bytes at %zu: pages %zd to %zd affected", l, a, (ssize_t)(lo - P) / (ssize_t)pg, (ssize_t)(hi - P) / (ssize_t)pg); if (lo + pg <= P + a || hi >= P + a + l + pg) vh_viol("mmap:lock-excess", "%zu bytes at %zu: bytes %zd to %zd affected", l, a, (ssize_t)(lo - P), (ssize_t)(hi - P)); vh_count("locks", 1);
      } }
    close(f); unlink("lk"); return sig;
}
/* a sparse file of more than four gigabytes */
static uint64_t huge(void)
{
    size_t pg = mmap_file::pagesize(); off_t G = (off_t)1 << 32, sz = G + (off_t)(pg * (4 + vrn(40))) + (off_t)vrn(pg); int f = open("huge", O_CREAT | O_TRUNC | O_RDWR, 0644); if (ftruncate(f, sz)) { close(f); unlink("huge"); vh_count("no_huge", 1); return 0; } vh_case("sparse file of %lld bytes", (long long)sz);
    off_t o = (off_t)(pg * vrn(3)); unsigned char w[4][64]; off_t at[4] = { o, G + o, G / 2 + o, sz - 64 }; for (int i = 0; i < 4; i++) { vrbytes(w[i], 64); if (pwrite(f, w[i], 64, at[i]) != 64) vh_emitf("@X", "pwrite"); }
    {
        mmap_file m("huge", MMAP_RDWR | MMAP_SHARED | MMAP_CREATE); if (m.filesize() != sz) vh_viol("mmap:size", "size %lld, file %lld", (long long)m.filesize(), (long long)sz); size_t n = pg + vrn(pg); unsigned char *q[4];
        try {
            for (int i = 0; i < 3; i++) { q[i] = (unsigned char *)m.mmap(at[i], n); if (memcmp(q[i], w[i], 64)) vh_viol("mmap:huge", "window at %lld differs from the file", (long long)at[i]); } if (q[0] == q[1]) vh_viol("mmap:huge", "windows four gigabytes apart are the same");
            q[3] = (unsigned char *)m.mmap(); if (memcmp(q[3] + at[3], w[3], 64) || memcmp(q[3] + at[1], w[1], 64) || memcmp(q[3] + at[0], w[0], 64)) vh_viol("mmap:huge", "the whole file differs"); q[1][17] ^= 0xff; unsigned char b; if (pread(f, &b, 1, at[1] + 17) != 1 || b != q[1][17] || q[3][at[1] + 17] != b) vh_viol("mmap:huge", "a write did not reach the file");
            off_t g = (sz / (off_t)pg + 2) * (off_t)pg; unsigned char *e = (unsigned char *)m.mmap(g, 100); e[99] = 7; struct stat st; fstat(f, &st); if (st.st_size != g + 100 || m.filesize() != g + 100) vh_viol("mmap:huge", "grown to %lld (%lld), expected %lld", (long long)st.st_size, (long long)m.filesize(), (long long)(g + 100));
        } catch (const sys_exception &x) { vh_viol("mmap:huge", "%s", x.what()); }
    }
    if (maps("huge")) vh_viol("mmap:leak", "%d pages still mapped", maps("huge")); close(f); unlink("huge"); vh_count("huge", 1); return (uint64_t)sz;
}
static uint64_t badopen(void)
{
    string name; int err = 0, k = (int)vrn(6); fail_fstat = fail_open = 0; unsigned fl = vrp(50) ? MMAP_RDWR : 0;
    if (k == 0) { name = "missing"; err = ENOENT; } else if (k == 1) { size_t n = 256 + vrn(3500); name.assign(n, 'x'); err = ENAMETOOLONG; } else if (k == 2) { name = "secret"; int f = open("secret", O_CREAT | O_WRONLY, 0600); close(f); chmod("secret", 0); err = EACCES; }
    else if (k == 3) { name = "there"; int f = open("there", O_CREAT | O_WRONLY, 0600); close(f); fail_fstat = vrp(50) ? EIO : EOVERFLOW; err = fail_fstat; } else if (k == 4) { name = "dir"; mkdir("dir", 0755); fl = MMAP_RDWR; err = EISDIR; } else { name = "there"; fail_open = vrp(50) ? EMFILE : EINTR; err = fail_open; }
    vh_case("open '%.40s' (%zu) flags %u, expected error %d", name.c_str(), name.size(), fl, err); int f0 = fdc();
    try { inj = 1; mmap_file m(name, fl); inj = 0; vh_viol("mmap:opened", "opening succeeded"); } catch (const sys_exception &x) { inj = 0; expect_ex(x, err, name.c_str(), "open"); } fail_fstat = fail_open = 0; vh_count("bad_opens", 1);
    if (fdc() != f0) vh_viol("mmap:fd", "%d descriptors, %d before", fdc(), f0); return vh_h((uint64_t)k, name.size() + (uint64_t)err * 100000);
}
static string rs(size_t n) { string s(n, 'x'); for (auto &c : s) c = (char)(1 + vrn(255)); return s; }
static void cmp(const char *key, const char *got, const string &full)
{
    size_t l = strnlen(got, 3000); if (l >= 1024) { vh_viol(key, "message not terminated within its buffer"); return; }
    if (full.size() <= 1000 ? string(got) != full : (l < 1000 || full.compare(0, 1000, got, 1000))) vh_viol(key, "message of %zu bytes is not the text of %zu", l, full.size());
}
static uint64_t excs(void)
{
    size_t a = vrp(30) ? vrn(40) : vrp(50) ? vrn(3000) : 1000 + vrn(60), b = vrp(30) ? vrn(40) : vrp(50) ? vrn(3000) : 1000 + vrn(60); string A = rs(a), B = rs(b); int k = (int)vrn(7), e = vrp(80) ? (int)vrn(140) : (int)vr(); vh_case("exception kind %d, text %zu, error text %zu, error %d", k, a, b, e); string t = strerror(e);
    try { switch (k) {
        case 0: { syserror s(e, B); throw sys_exception(s, "%s", A.c_str()); }
        case 1: { syserror s(e, A); throw sys_exception(s); }
        case 2: throw sys_exception("%s/%d", A.c_str(), e);
        case 3: throw lock_owner_died(A);
        case 4: errno = e; throw dll_not_found(A.c_str());
        case 5: errno = e; throw dll_symbol_not_found(A.c_str(), B.c_str());
        default: throw syscall_interrupted("%s", A.c_str()); } }
    catch (const sys_exception &x) {
        int we = k == 0 || k == 1 || k == 4 || k == 5 ? e : 0; if (x.errcode() != we) vh_viol("exc:errcode", "code %d, expected %d", x.errcode(), we);
        string full = k == 0 ? A + ":" + B : k == 1 ? A : k == 2 ? A + "/" + std::to_string(e) : k == 3 ? "Thread owning locked '" + A + "' died" : k == 4 ? "Can't load DLL " + A + ":" + t : "Can't find '" + B + "()' in DLL " + A + ":" + t; cmp("exc:text", x.what(), full); sys_exception y(x); if (strcmp(x.what(), y.what()) || x.errcode() != y.errcode()) vh_viol("exc:copy", "copy differs"); vh_count("texts", 1);
    } catch (const syscall_interrupted &x) { if (x.errcode() != EINTR) vh_viol("exc:errcode", "code %d", x.errcode()); cmp("exc:text", x.what(), A); vh_count("texts", 1); }
    blank<dex>(0); blank<dex>(e, e); blank<dint>(EINTR); { syserror s(e, A.c_str()); if (s.err != e || s.errstr != A) vh_viol("err:pair", "code %d", s.err); syserror n = geterror(e, (const char *)0), w = geterror(e, A.c_str()); if (n.err != e || n.errstr != t || w.err != e || w.errstr != (A.empty() ? t : A + ": " + t)) vh_viol("err:text", "error %d: '%.100s' and '%.100s'", e, n.errstr.c_str(), w.errstr.c_str()); }
    string pre = vrp(30) ? "" : rs(vrn(400)); syserror s = geterror(e, pre); if (s.err != e || s.errstr != (pre.empty() ? t : pre + ": " + t)) vh_viol("err:text", "error %d with a prefix of %zu bytes gives '%.200s'", e, pre.size(), s.errstr.c_str()); errno = e; if (geterrno() != e) vh_viol("err:errno", "geterrno %d", geterrno()); errno = e; syserror z = geterror(); if (z.err != e || z.errstr != t) vh_viol("err:text", "last error %d gives %d '%.100s'", e, z.err, z.errstr.c_str()); vh_count("errors", 1);
    return vh_h((uint64_t)k * 10000 + a, b * 1000 + (uint64_t)(uint32_t)e);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); if (geteuid() == 0) vh_emitf("@X", "must not run as root"); if (chdir(vh_tmp)) { vh_emitf("@X", "scratch"); return vh_end(); }
    if (vh_shard == 0 && vh_begin(0)) {   /* the documented default of a private mapping: probed once, on a fixed history */
        vh_case("probe: 4096 zero bytes, MMAP_RDWR|MMAP_PRIVATE, write 'HELLO' at 0, read the file"); int f = open("probe", O_CREAT | O_TRUNC | O_RDWR, 0644); if (ftruncate(f, 4096)) vh_emitf("@X", "ftruncate"); { mmap_file m("probe", MMAP_RDWR | MMAP_PRIVATE); memcpy(m.mmap(), "HELLO", 5); } char b[5] = { 0 }; if (pread(f, b, 5, 0) != 5) {} close(f); unlink("probe");
        if (!memcmp(b, "HELLO", 5)) { vh_viol("mmap:private-default", "a write to a read-write mapping made without MMAP_SHARED reached the file"); vh_nviol--; }
    }
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue; uint64_t sig; switch (c % 300 == 299 ? 99 : vrn(7)) { case 99: sig = huge(); break; case 0: sig = badopen(); break; case 1: case 2: sig = excs(); break; case 3: sig = locks(); break; default: sig = files(); }
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}
