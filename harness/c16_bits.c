/* C16: bit sets and delimiter sets */
#include "vh.h"
#include <alloca.h>
#include "fast/bitset.h"
#include "bits.h"
static unsigned char M[4][5000];
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        size_t n = vrp(50) ? 1 + vrn(200) : vrp(50) ? 64 * (1 + vrn(5)) - 1 + vrn(3) : 1 + vrsz(4000), w = (n + 63) / 64, bits = w * 64; bitset *b[4]; vh_case("bits=%zu ", n); uint64_t sig = vh_h(n, 1);
        memset(M, 0, sizeof M);
        for (int i = 0; i < 3; i++) { b[i] = bitset_new(n); } b[3] = bitset_alloca(n);
        for (int i = 0; i < 4; i++) { if (b[i]->n != w) vh_viol("bitset:words", "%llu words for %zu bits", (unsigned long long)b[i]->n, n); for (size_t k = 0; k < bits; k++) if (bitset_isset(b[i], k)) { vh_viol("bitset:new", "new set not empty"); break; } }
        uint64_t ops = 10 + vrsz(300);
        for (uint64_t o = 0; o < ops && !vh_nviol; o++) {
            int i = (int)vrn(4), j = (int)vrn(4), op = (int)vrn(14); unsigned char *x = M[i], *y = M[j]; size_t k = vrp(20) ? bits - 1 : vrn(bits), q;
            switch (op) {
            case 0: case 1: case 2: bitset_set(b[i], k); x[k] = 1; break;
            case 3: case 4: bitset_clr(b[i], k); x[k] = 0; break;
            case 5: bitset_or(b[i], b[j]); for (q = 0; q < bits; q++) x[q] |= y[q]; break;
            case 6: bitset_and(b[i], b[j]); for (q = 0; q < bits; q++) x[q] &= y[q]; break;
            case 7: bitset_xor(b[i], b[j]); for (q = 0; q < bits; q++) { unsigned char t = y[q]; x[q] ^= t; } if (i == j) memset(x, 0, bits); break;
            case 8: bitset_andnot(b[i], b[j]); for (q = 0; q < bits; q++) { unsigned char t = !y[q]; x[q] &= t; } if (i == j) memset(x, 0, bits); break;
            case 9: bitset_not(b[i]); for (q = 0; q < bits; q++) x[q] = !x[q]; break;
            case 10: if (i != j) { bitset_copy(b[i], b[j]); memcpy(x, y, bits); } break;
            case 11: { bitset *d = bitset_dup(b[i]); if (d->n != w) vh_viol("bitset:dup", "size of duplicate"); for (q = 0; q < bits; q++) if (bitset_isset(d, q) != x[q]) { vh_viol("bitset:dup", "bit %zu of duplicate", q); break; } bitset_set(d, k); bitset_clr(d, (k * 7) % bits); bitset_del(d); break; }
            case 12: { bitset *d = bitset_dup_alloca(b[i]); for (q = 0; q < bits; q++) if (bitset_isset(d, q) != x[q]) { vh_viol("bitset:dup", "bit %zu of stack duplicate", q); break; } break; }
            default: if (bitset_value(b[i], k) != x[k]) vh_viol("bitset:value", "bit %zu", k); }
            sig = vh_h(sig, (uint64_t)(op * 20 + i * 4 + j) + k * 1000);
            for (int z = 0; z < 4 && !vh_nviol; z++) if (z == i || z == j || o + 1 == ops) for (q = 0; q < bits; q++) { int v = bitset_isset(b[z], q); if (v != M[z][q]) { vh_viol("bitset:bit", "bit %zu of %zu reads %d, expected %d, after operation %d", q, n, v, M[z][q], op); break; } }
        }
        for (int i = 0; i < 3; i++) bitset_del(b[i]);
        /* delimiter sets, byte values passed as char, unsigned char and int */
        delim *d = malloc(sizeof *d); char in[256] = { 0 }; memset(d, 0xff, sizeof *d); __init_delim(d);
        for (int i = 0, z = (int)vrsz(300); i < z; i++) { int v = (int)vrn(256); in[v] = 1; if (vrp(50)) { char ch = (char)v; __add_delim(d, ch); } else __add_delim(d, v); }
        for (int v = 0; v < 256 && !vh_nviol; v++) { char ch = (char)v; unsigned char u = (unsigned char)v; if (!!__is_delim(d, ch) != in[v] || !!__is_delim(d, u) != in[v] || !!__is_delim(d, v) != in[v]) vh_viol("delim:member", "byte 0x%02x answers %d/%d/%d, expected %d", v, !!__is_delim(d, ch), !!__is_delim(d, u), !!__is_delim(d, v), in[v]); }
        free(d); vh_count("delim_sets", 1); vh_count("ops", ops); vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%zu bits, %llu operations", n, (unsigned long long)ops); if (vh_nviol) break;
    }
    return vh_end();
}
