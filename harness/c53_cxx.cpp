#include <fcntl.h>
/* C53: the C++ operations */
#include "vh.h"
#include <string>
#include <vector>
#include "utils/strmatch.h"
#include "syserror.h"
#include "utils/mmap.h"
using namespace putils;
extern "C" uint64_t c53_cxx(int op, uint64_t s, const char *dir);
extern "C" void c53_cxx_init(uint64_t s);
static std::string txt(uint64_t s, int n) { std::string t; for (int i = 0; i < n; i++) t += (char)('a' + vh_mix(s + (uint64_t)i) % 2); return t; }
template <class M> static uint64_t scan(M &m, uint64_t s) { std::string t = txt(s, 400); uint64_t h = 1; for (int e : m.matchall(t.data(), (int)t.size())) h = vh_h(h, (uint64_t)e); return h; }
template <class M> static uint64_t own(uint64_t s) { std::string p = txt(s, 400).substr(vh_mix(s ^ 9) % 300, 1 + vh_mix(s ^ 7) % 6); M m(p.data(), (int)p.size()); return scan(m, s); }
static kmp_search<char> *K; static boyer_moore_search<char> *B; static rabin_karp_search<char> *R;
void c53_cxx_init(uint64_t s) { delete K; delete B; delete R; std::string p = txt(s, 5); K = new kmp_search<char>(p.data(), 5); B = new boyer_moore_search<char>(p.data(), 5); R = new rabin_karp_search<char>(p.data(), 5); }
uint64_t c53_cxx(int op, uint64_t s, const char *dir)
{
    switch (op) {
    case 0: return own<kmp_search<char>>(s);
    case 1: return own<boyer_moore_search<char>>(s);
    case 2: return own<rabin_karp_search<char>>(s);
    case 3: { int e = (int)(s % 140); syserror x = geterror(e, "prefix " + std::to_string(s % 977)); return vh_hb(1, x.errstr.data(), x.errstr.size()); }
    case 4: { try { throw sys_exception("text %d of %s", (int)(s % 1000), std::string(s % 100, 'x').c_str()); } catch (const sys_exception &x) { return vh_hb(2, x.what(), strlen(x.what())); } }
    case 5: { std::string n = std::string(dir) + "/mm"; unlink(n.c_str()); close(open(n.c_str(), O_CREAT | O_WRONLY, 0600)); uint64_t h = 3; size_t k = 1 + s % 9000; { mmap_file f(n, MMAP_CREATE | MMAP_RDWR | MMAP_SHARED); char *p = (char *)f.mmap(0, k); for (size_t i = 0; i < k; i++) p[i] = (char)vh_mix(s + i); f.unmap(p); }
              { mmap_file f(n, 0); char *p = (char *)f.mmap(0, k); h = vh_hb(h, p, k); f.unmap(p); } return h; }
    case 6: return vh_h(vh_h(scan(*K, s), scan(*B, s)), scan(*R, s));       /* shared search objects */
    default: { uint64_t h = 5; boyer_moore_search<char> b("abab", 4); std::string t = txt(s, 900); for (int e : b.turbo_matchall(t.data(), (int)t.size())) h = vh_h(h, (uint64_t)e); return h; }
    }
}
