/* C17: binary heap against a multiset */
#include "vh.h"
#include <map>
#include <vector>
struct E2 { uint32_t key; uint32_t tag; };
static long nswap;
template <class T> static void swap(T *h, int a, int b) { nswap++; T t = h[a]; h[a] = h[b]; h[b] = t; }
#include "utils/minheap.h"
struct C1 { static bool lt(const uint32_t &a, const uint32_t &b) { return a < b; } static bool gt(const uint32_t &a, const uint32_t &b) { return a > b; } };
struct C2 { static bool lt(const E2 &a, const E2 &b) { return a.key < b.key; } static bool gt(const E2 &a, const E2 &b) { return a.key > b.key; } };
static uint32_t keyof(uint32_t x) { return x; } static uint32_t keyof(const E2 &x) { return x.key; }
static uint64_t idof(uint32_t x) { return x; } static uint64_t idof(const E2 &x) { return (uint64_t)x.key << 32 | x.tag; }
static uint32_t ntag; static void mk(uint32_t &o, uint32_t k) { o = k; } static void mk(E2 &o, uint32_t k) { o.key = k; o.tag = ntag++; }
template <class T, class C> static uint64_t run(void)
{
    int max = vrp(50) ? 1 + (int)vrn(8) : 1 + (int)vrsz(300), n0 = vrp(40) ? 0 : (int)vrn((uint64_t)max + 1); uint32_t range = vrp(50) ? 4 : vrp(50) ? 50 : 0xffffffffu; uint64_t sig = vh_h((uint64_t)max, (uint64_t)n0);
    T *a = (T *)malloc(sizeof(T) * (size_t)max); std::multimap<uint32_t, uint64_t> ref; auto put = [&](const T &x) { ref.emplace(keyof(x), idof(x)); };
    auto take = [&](const T &x) { auto r = ref.equal_range(keyof(x)); for (auto i = r.first; i != r.second; ++i) if (i->second == idof(x)) { ref.erase(i); return true; } return false; };
    for (int i = 0; i < n0; i++) { mk(a[i], (uint32_t)vrn(range)); put(a[i]); }
    minheap<T, C> h(a, n0, max); uint64_t ops = 10 + vrsz(600); int bias = 50; vh_case("max=%d initial=%d", max, n0);
    for (uint64_t o = 0; o < ops && !vh_nviol; o++) {
        if (o % 41 == 0) bias = vrp(33) ? 80 : vrp(50) ? 20 : 50;
        T x; memset(&x, 0xee, sizeof x);
        if (vrp(bias)) { mk(x, (uint32_t)vrn(range)); bool r = h.insert(x); if (r != ((int)ref.size() < max)) vh_viol("heap:insert", "insert with %zu of %d returned %d", ref.size(), max, r); if (r) put(x); else vh_count("full", 1); sig = vh_h(sig, 1); }
        else if (vrp(55)) { bool r = h.removemin(x); if (r != !ref.empty()) vh_viol("heap:removemin", "returned %d with %zu elements", r, ref.size()); if (r) { if (keyof(x) != ref.begin()->first) vh_viol("heap:min", "removed %u, minimum %u", keyof(x), ref.begin()->first); else if (!take(x)) vh_viol("heap:foreign", "removed an element that is not in the heap"); vh_count("minima", 1); } sig = vh_h(sig, 2); }
        else { int n = (int)ref.size(), pos = vrp(30) ? n - 1 : vrp(10) ? n : vrp(5) ? -1 : n ? (int)vrn((uint64_t)n) : 0; T want; bool in = pos >= 0 && pos < n; if (in) want = a[pos]; bool r = h.remove(pos, x); if (r != in) vh_viol("heap:remove", "remove(%d) of %d returned %d", pos, n, r); if (r) { if (idof(x) != idof(want)) vh_viol("heap:remove-elem", "remove(%d) gave another element", pos); else if (!take(x)) vh_viol("heap:foreign", "removed element not in the heap"); vh_count("removed_at", 1); } sig = vh_h(sig, 3 + (uint64_t)pos); }
        if (h.heapsize() != (int)ref.size()) vh_viol("heap:size", "size %d, expected %zu", h.heapsize(), ref.size());
        /* heap order of the array, through the public position functions */
        for (int i = 1; i < h.heapsize() && !vh_nviol; i++) if (C::gt(a[h.parent(i)], a[i])) vh_viol("heap:order", "element %d is below a larger parent (of %d)", i, h.heapsize());
        if (!vh_nviol && h.heapsize()) { int i = (int)vrn((uint64_t)h.heapsize()); bool leaf = 2 * i + 1 >= h.heapsize(); if (h.isLeaf(i) != leaf || h.leftchild(i) != 2 * i + 1 || h.rightchild(i) != 2 * i + 2 || (i && h.parent(h.leftchild(i)) != i) || (i && h.parent(h.rightchild(i)) != i)) vh_viol("heap:positions", "position functions at %d of %d", i, h.heapsize()); }
    }
    if (vrp(50)) { while (!ref.empty() && !vh_nviol) { T x; if (!h.removemin(x) || keyof(x) != ref.begin()->first || !take(x)) vh_viol("heap:drain", "draining does not yield the minimum"); } T x; if (!vh_nviol && h.removemin(x)) vh_viol("heap:empty", "element from an empty heap"); }
    free(a); vh_count("ops", ops); return sig;
}
/* heaps of more than 2^16 elements: order checked now and then and by draining */
static uint64_t large(void)
{
    int max = vrp(50) ? 65530 + (int)vrn(20) : 70000 + (int)vrn(130000), n0 = vrp(50) ? max - (int)vrn(30) : (int)vrn((uint64_t)max); uint32_t range = vrp(30) ? 1000 : 0xffffffffu; E2 *a = (E2 *)malloc(sizeof(E2) * (size_t)max); std::multimap<uint32_t, uint32_t> ref; vh_case("large heap: max=%d initial=%d", max, n0);
    auto take = [&](const E2 &x) { auto r = ref.equal_range(x.key); for (auto i = r.first; i != r.second; ++i) if (i->second == x.tag) { ref.erase(i); return true; } return false; };
    for (int i = 0; i < n0; i++) { mk(a[i], (uint32_t)vrn(range)); ref.emplace(a[i].key, a[i].tag); } minheap<E2, C2> h(a, n0, max); E2 x;
    auto order = [&](void) { if (h.heapsize() != (int)ref.size()) vh_viol("heap:size", "size %d, expected %zu", h.heapsize(), ref.size()); for (int i = 1; i < h.heapsize(); i++) if (a[(i - 1) / 2].key > a[i].key) { vh_viol("heap:order", "element %d is below a larger parent (of %d)", i, h.heapsize()); break; } };
    order(); while ((int)ref.size() < max && !vh_nviol) { mk(x, (uint32_t)vrn(range)); if (!h.insert(x)) { vh_viol("heap:insert", "refused with %zu of %d", ref.size(), max); break; } ref.emplace(x.key, x.tag); } order(); mk(x, 1); if (h.insert(x)) vh_viol("heap:insert", "more than %d elements", max);
    for (int k = 0; k < 3000 && !vh_nviol; k++) { int pos = (int)vrn(ref.size()); E2 w = a[pos]; if (!h.remove(pos, x) || x.tag != w.tag || !take(x)) vh_viol("heap:remove-elem", "remove(%d) of %zu", pos, ref.size()); if (vrp(50)) { mk(x, (uint32_t)vrn(range)); if (!h.insert(x)) vh_viol("heap:insert", "refused"); ref.emplace(x.key, x.tag); } } order();
    int stop = (int)ref.size() - 20000; while ((int)ref.size() > stop && !vh_nviol) { if (!h.removemin(x) || x.key != ref.begin()->first || !take(x)) vh_viol("heap:min", "minimum of %zu", ref.size()); } order();
    free(a); vh_count("large", 1); return (uint64_t)max;
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        uint64_t s = c % 400 == 399 ? large() : vrp(50) ? run<uint32_t, C1>() : run<E2, C2>(); vh_count("evals", 1); vh_sig(s); if (c < 3) vh_sample("history %llx", (unsigned long long)s); if (vh_nviol) break;
    }
    return vh_end();
}
