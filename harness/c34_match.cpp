/* C34: string search against a naive search; texts and patterns in exactly sized buffers */
#include "vh.h"
#include <vector>
#include <string>
#include <stdexcept>
#include "utils/strmatch.h"
template <class T> struct kmpx : kmp_search<T> { kmpx(const T *p, int n) : kmp_search<T>(p, n) {} std::pair<bool, int> one(const T *t, int n) { return this->match(t, n); } };
static void cmp(const char *key, const std::vector<int> &got, const std::vector<int> &want)
{
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    if (i < got.size() || i < want.size()) vh_viol(key, "%zu matches, expected %zu; first difference at number %zu: %d, expected %d", got.size(), want.size(), i, i < got.size() ? got[i] : -1, i < want.size() ? want[i] : -1);
}
/* characters whose comparisons are counted: the promised linear time of the Knuth-Morris-Pratt search */
struct CC { unsigned short v; }; static uint64_t ncmp;
namespace std { template <> struct char_traits<CC> { typedef CC char_type; static bool eq(const CC &a, const CC &b) { ncmp++; return a.v == b.v; } }; }
static void linear(void)
{
    bool large = vrp(3); size_t m = large ? 60000 + vrn(15000) : 1 + vrn(400), n = large ? 200000 + vrn(100000) : vrn(4000), per = vrp(70) ? 1 + vrn(4) : 1 + vrn(m); CC *p = (CC *)malloc(m * sizeof(CC)), *t = (CC *)malloc(n * sizeof(CC) + 1); int sigma = 1 + (int)vrn(3); vh_case("comparisons: pattern %zu, text %zu, period %zu, alphabet %d", m, n, per, sigma);
    for (size_t i = 0; i < m; i++) p[i].v = i >= per && !(vrp(1) && vrp(10)) ? p[i - per].v : (unsigned short)vrn((uint64_t)sigma); for (size_t i = 0; i < n; i++) t[i].v = i >= per && vrn(1000) ? t[i - per].v : p[i % m].v;
    for (int k = large ? 3 : 0; k > 0; k--) { size_t at = vrn(n - m); memcpy(t + at, p, m * sizeof(CC)); }
    /* the reference: Z values of pattern, separator, text */
    std::vector<int> want; { size_t L = m + 1 + n; std::vector<int> v(L), z(L, 0); for (size_t i = 0; i < m; i++) v[i] = p[i].v; v[m] = -1; for (size_t i = 0; i < n; i++) v[m + 1 + i] = t[i].v; for (size_t i = 1, l = 0, r = 0; i < L; i++) { size_t k = i < r ? std::min(r - i, (size_t)z[i - l]) : 0; while (i + k < L && v[k] == v[i + k]) k++; z[i] = (int)k; if (i + k > r) { l = i; r = i + k; } } for (size_t i = 0; i + m <= n; i++) if (z[m + 1 + i] >= (int)m) want.push_back((int)i); }
    ncmp = 0; kmp_search<CC> k(p, (int)m); auto g = k.matchall(t, (int)n); uint64_t used = ncmp; cmp("match:kmp", g, want); if (used > 3 * (n + 2 * m) + 10) vh_viol("match:linear", "%llu comparisons for a pattern of %zu and a text of %zu (%zu matches)", (unsigned long long)used, m, n, want.size()); if (large && per * 4 > m && sigma > 1) { boyer_moore_search<unsigned short> b((unsigned short *)p, (int)m); rabin_karp_search<unsigned short> r((unsigned short *)p, (int)m); cmp("match:bm", b.matchall((unsigned short *)t, (int)n), want); cmp("match:turbo", b.turbo_matchall((unsigned short *)t, (int)n), want); cmp("match:rk", r.matchall((unsigned short *)t, (int)n), want); vh_count("large", 1); }
    if (large) vh_count("large_kmp", 1); free(p); free(t); vh_count("linear", 1);
}
template <class T> static uint64_t run(void)
{
    int sigma = vrp(40) ? 2 : vrp(40) ? 1 + (int)vrn(4) : vrp(50) ? 26 : 256; bool hi = vrp(40); auto ch = [&]() -> T { uint64_t v = vrn((uint64_t)sigma); return (T)(sigma == 256 ? (sizeof(T) == 2 ? vr() & 0xffff : v) : hi ? (sizeof(T) == 2 ? 0xff80 + v : 0xf0 + v % 16) : 'a' + v); };
    size_t m = vrp(3) ? 0 : vrp(60) ? 1 + vrn(9) : vrp(70) ? 1 + vrn(80) : 1 + vrsz(700), n = vrp(10) ? vrn(m + 1) : vrp(50) ? vrn(60) : vrsz(3000);
    T *p = (T *)malloc(m * sizeof(T) + !m), *t = (T *)malloc(n * sizeof(T) + !n); size_t per = vrp(40) ? 1 + vrn(5) : 0; for (size_t i = 0; i < m; i++) p[i] = per && i >= per && !vrp(3) ? p[i - per] : ch();
    for (size_t i = 0; i < n; i++) t[i] = ch(); if (m) { size_t k = vrn(6); while (k--) { size_t at = vrn(n + 1), l = vrp(60) ? m : vrn(m + 1); for (size_t i = 0; i < l && at + i < n; i++) t[at + i] = p[i]; } if (per) for (size_t i = per; i < n; i++) if (vrp(60)) t[i] = t[i - per]; if (n >= m && vrp(30)) memcpy(t + n - m, p, m * sizeof(T)); if (n >= m && vrp(20)) memcpy(t, p, m * sizeof(T)); }
    vh_case("%zu-byte units, pattern %zu, text %zu, alphabet %d, period %zu: pattern %s text %s", sizeof(T), m, n, sigma, per, vh_hex(p, m * sizeof(T) < 60 ? m * sizeof(T) : 60), vh_hex(t, n * sizeof(T) < 120 ? n * sizeof(T) : 120));
    std::vector<int> want; if (m) for (size_t i = 0; i + m <= n; i++) if (!memcmp(t + i, p, m * sizeof(T))) want.push_back((int)i);
    T *pc = (T *)malloc(m * sizeof(T) + !m); memcpy(pc, p, m * sizeof(T)); kmpx<T> k(pc, (int)m); boyer_moore_search<T> b(pc, (int)m); rabin_karp_search<T> r(pc, (int)m); free(pc);   /* they keep their own copy */
    if (k.patlen() != (int)m || b.patlen() != (int)m || r.patlen() != (int)m || memcmp(k.pat(), p, m * sizeof(T)) || memcmp(b.pat(), p, m * sizeof(T)) || memcmp(r.pat(), p, m * sizeof(T))) vh_viol("match:pattern", "pattern not kept");
    cmp("match:kmp", k.matchall(t, (int)n), want); cmp("match:bm", b.matchall(t, (int)n), want); cmp("match:turbo", b.turbo_matchall(t, (int)n), want); cmp("match:rk", r.matchall(t, (int)n), want);
    auto o = k.one(t, (int)n); if (o.first != !want.empty() || (o.first && o.second != want[0])) vh_viol("match:first", "first match %d/%d, expected %d", o.first, o.second, want.empty() ? -1 : want[0]);
    if (vrp(3)) {   /* a negative length is refused or finds nothing (no text at all is refused by those that check it), and the object stays usable */
        for (int w = 0; w < 5; w++) for (int nul = 0; nul < 2; nul++) { if (nul && (w == 0 || w == 3)) continue; const T *tt = nul ? (const T *)0 : t; int nn = nul ? (int)n : -1 - (int)vrsz(0x7fffff00), refused = 0; size_t found = 0; try { if (w == 0) found = k.matchall(tt, nn).size(); else if (w == 1) b.matchall(tt, nn); else if (w == 2) b.turbo_matchall(tt, nn); else if (w == 3) found = r.matchall(tt, nn).size(); else k.one(tt, nn); } catch (const std::length_error &) { refused = 1; } if (w == 0 || w == 3 ? found > 0 : !refused) vh_viol("match:negative", "%s accepted (call %d, length %d)", nul ? "no text" : "a negative length", w, nn); }
        vh_count("refused", 1); cmp("match:after-refusal", k.matchall(t, (int)n), want); cmp("match:after-refusal", b.matchall(t, (int)n), want); cmp("match:after-refusal", r.matchall(t, (int)n), want);
    }
    cmp("match:again", b.turbo_matchall(t, (int)n), want);   /* a search object can be reused */
    vh_count("searches", 5); vh_count("matches", want.size()); if (want.size() > 1) { for (size_t i = 1; i < want.size(); i++) if (want[i] - want[i - 1] < (int)m) { vh_count("overlapping", 1); break; } } if (m > 32 && want.size()) vh_count("long_found", 1); if (m > n) vh_count("longer_than_text", 1); if (!m) vh_count("empty", 1); if (hi && want.size()) vh_count("high_bytes_found", 1);
    uint64_t s = vh_h(vh_hb(1, p, m * sizeof(T)), vh_hb(2, t, n * sizeof(T))); free(p); free(t); return s;
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue; uint64_t s = vrp(60) ? run<char>() : vrp(50) ? run<unsigned char>() : run<char16_t>();
        if (c == 0) { int threw = 0; try { kmp_search<char> x("a", -1); } catch (const std::length_error &) { threw++; } try { boyer_moore_search<char> x("a", -1); } catch (const std::length_error &) { threw++; } try { rabin_karp_search<char> x("a", -1); } catch (const std::length_error &) { threw++; } if (threw != 3) vh_viol("match:negative", "negative pattern length accepted"); }
        if (c % 4 == 0) linear(); vh_count("evals", 1); vh_sig(s); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}
