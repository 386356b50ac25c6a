/* C11: the C++ wrapper of the pool */
#include "vh.h"
#include <utility>
#include <vector>
#include "utils/mempool.h"
static int alive;
struct Obj { uint64_t a, b; uint32_t c; Obj(uint64_t x, uint32_t y) : a(x), b(~x), c(y) { alive++; } ~Obj() { alive--; a = b = 0; } bool ok() const { return b == ~a; } };
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        int max = vrp(50) ? 0 : 1 + (int)vrn(50), mu = (int)vrn(20); void *mem = 0; unsigned ms = 0; alive = 0;
        if (vrp(30)) { ms = 200 + (unsigned)vrn(4000); mem = malloc(ms); }
        vh_case("max=%d units=%d mem=%u", max, mu, ms); uint64_t sig = vh_h((uint64_t)max, (uint64_t)mu + ms);
        {
            putils::Mempool<Obj> *p = mem ? new putils::Mempool<Obj>(mem, ms) : new putils::Mempool<Obj>(max, mu);
            if (p->Blocksize() < sizeof(Obj)) vh_viol("pool++:size", "block too small");
            if (mem) max = (int)p->Totalblocks();
            std::vector<Obj *> v;
            for (int i = 0; i < 400; i++) {
                if (vrp(60)) { try { uint64_t x = vr(); Obj *o = p->Alloc(x, 7u); if (max && (int)v.size() >= max) vh_viol("pool++:limit", "over the limit"); if (o->a != x) vh_viol("pool++:ctor", "object not constructed"); v.push_back(o); } catch (std::bad_alloc &) { if (!max || (int)v.size() < max) vh_viol("pool++:nomem", "bad_alloc with %zu of %d live", v.size(), max); vh_count("bad_alloc", 1); } }
                else if (!v.empty()) { size_t k = vrn(v.size()); if (!v[k]->ok()) vh_viol("pool++:disturbed", "live object changed"); p->Free(v[k]); v[k] = v.back(); v.pop_back(); }
                if (alive != (int)v.size()) { vh_viol("pool++:objects", "%d objects constructed, %zu live", alive, v.size()); break; }
                sig = vh_h(sig, v.size());
            }
            for (Obj *o : v) if (!o->ok()) vh_viol("pool++:disturbed", "live object changed");
            delete p;
        }
        free(mem); vh_count("evals", 1); vh_count("cpp_runs", 1); vh_sig(sig); if (vh_nviol) break;
    }
    return vh_end();
}
