/* C53: unrelated calls and objects may be used from any number of threads at once: every operation is computed alone,
 * then by several threads in random order; results must be equal, TSan watches for shared hidden state. */
#include "vh.h"
#include <pthread.h>
#include <stdatomic.h>
#include "utils/hashfunc.h"
#include "utils/siphash.h"
#include "utils/xxhash.h"
#include "utils/base64.h"
#include "utils/hexdump.h"
#include "utils/parse-ip.h"
#include "utils/uuid.h"
#include "utils/ulid.h"
#include "utils/gstring.h"
#include "utils/strutils.h"
#include "utils/utils.h"
#include "utils/pack.h"
#include "utils/bloom.h"
#include "utils/xorfilter.h"
#include "utils/hashtab.h"
#include "utils/fast-ht.h"
#include "utils/mempool.h"
#include "utils/arena.h"
#include "utils/rotatefile.h"
#include "utils/mkdirhier.h"
#include "utils/xoroshiro.h"
#include "utils/xorshift-rand.h"
#include "utils/romu-rand.h"
#include "utils/arc4random.h"
#include "utils/progbar.h"
#include "fast/vect.h"
#include "fts.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netpacket/packet.h>
#include "utils/resolve.h"
extern const char *pl_dirname(char *, size_t, const char *) __asm__("dirname");
uint64_t c53_cxx(int op, uint64_t s, const char *dir); void c53_cxx_init(uint64_t s);
/* own generator per operation */
typedef struct { uint64_t s; } G;
static uint64_t g(G *x) { return vh_mix(x->s += 0x9e3779b97f4a7c15ull); }
static size_t gbuf(G *x, uint8_t *b, size_t max) { size_t n = g(x) % (max + 1); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)g(x); return n; }
static size_t gtxt(G *x, char *b, size_t max, const char *al) { size_t n = g(x) % max, k = strlen(al); for (size_t i = 0; i < n; i++) b[i] = al[g(x) % k]; b[n] = 0; return n; }
static uint64_t hs(uint64_t h, const char *s) { return s ? vh_hb(h, s, strlen(s)) : vh_h(h, 77); }
typedef struct { uint64_t h; } hctx; static int hexout(void *c, const char *s, size_t n) { hctx *x = c; x->h = vh_hb(x->h, s, n); return 0; }
static const char *look(void *c, const char *k) { (void)c; return !strcmp(k, "x") ? "value" : 0; }
typedef struct { uint32_t k; } it; static uint32_t hh(const void *p) { return ((const it *)p)->k * 2654435761u; } static int hc(const void *a, const void *b) { return (int)((const it *)a)->k - (int)((const it *)b)->k; }
static Bloom *SB, *SC; static Xorfilter *SX; static ht *SH; static hash_table_t ST; static it SI[200]; static uint64_t SK[200];
VECT_TYPEDEF(u64v, uint64_t);
static uint64_t op_hash(uint64_t s, const char *d) { G x = { s }; uint8_t b[500]; size_t n = gbuf(&x, b, 500); uint64_t h = 1, k[2] = { s, ~s }; (void)d; uint_128_t z = { s, s + 1 };
    h = vh_h(h, murmur3_hash_32(b, n, (uint32_t)s)); h = vh_h(h, city_hash(b, n, s)); z = city_hash_128(b, n, z); h = vh_hb(h, &z, 16); z = murmur3_hash_128(b, n, (uint32_t)s); h = vh_hb(h, &z, 16); z = murmur3_hash64_128(b, n, (uint32_t)s); h = vh_hb(h, &z, 16);
    h = vh_h(h, hsieh_hash(b, n, (uint32_t)s)); h = vh_h(h, fnv_hash(b, n, (uint32_t)s)); h = vh_h(h, fnv_hash64(b, n, s)); h = vh_h(h, fasthash32(b, n, (uint32_t)s)); h = vh_h(h, fasthash64(b, n, s)); h = vh_h(h, yorrike_hash32(b, n, (uint32_t)s)); h = vh_h(h, siphash24(b, n, k)); h = vh_h(h, XXH32(b, n, (uint32_t)s)); h = vh_h(h, XXH64(b, n, s)); return h; }
static uint64_t op_stream(uint64_t s, const char *d) { G x = { s }; uint8_t b[500]; size_t n = gbuf(&x, b, 500), a = n / 3; siphash24_state st; uint64_t k[2] = { s, 5 }; (void)d; siphash24_init(&st, k); siphash24_update(&st, b, a); siphash24_update(&st, b + a, n - a); XXH64_state_t *q = XXH64_createState(); XXH64_reset(q, s); XXH64_update(q, b, a); XXH64_update(q, b + a, n - a); uint64_t r = vh_h(siphash24_finish(&st), XXH64_digest(q)); XXH64_freeState(q); return r; }
static uint64_t op_b64(uint64_t s, const char *d) { G x = { s }; uint8_t b[200], c[400]; char e[400]; size_t n = gbuf(&x, b, 200); (void)d; int k = base64_encode_buf(e, sizeof e, b, (int)n); uint64_t h = k > 0 ? vh_hb(1, e, (size_t)k) : (uint64_t)k; int m = k > 0 ? base64_decode_buf(c, sizeof c, e, k) : 0; return vh_h(m > 0 ? vh_hb(h, c, (size_t)m) : h, (uint64_t)m); }
static uint64_t op_hex(uint64_t s, const char *d) { G x = { s }; uint8_t b[200]; size_t n = gbuf(&x, b, 200); (void)d; hctx c = { 1 }; hex_dumper q; hex_dump_init(&q, hexout, &c, HEX_DUMP_OFFSET); hex_dump_write(&q, b, n); hex_dump_close(&q); char t[60]; gtxt(&x, t, 50, "0123456789abcdefABCDEFx"); ssize_t k = str2hex(b, sizeof b, t); return vh_h(k > 0 ? vh_hb(c.h, b, (size_t)k) : c.h, (uint64_t)k); }
static uint64_t op_size(uint64_t s, const char *d) { G x = { s }; char b[100], t[40]; uint64_t v = g(&x) >> (g(&x) % 64), o = 0; (void)d; uint64_t h = hs(1, humanize_size(b, sizeof b, v)); snprintf(t, sizeof t, "%u%c", (unsigned)(v % 100000), "kMGTbx "[s % 7]); int r = strtosize(t, 0, &o); h = vh_h(vh_h(h, (uint64_t)r), r ? 0 : o); o = 0; const char *e; snprintf(t, sizeof t, "%llx", (unsigned long long)v); r = strtou64(t, &e, 16, &o); return vh_h(vh_h(h, (uint64_t)r), o); }
static uint64_t op_split(uint64_t s, const char *d) { G x = { s }; char b[300], *q[200]; (void)d; gtxt(&x, b, 300, "ab ,;\"\\'"); char c[300], e[300]; strcpy(c, b); strcpy(e, b); int n = 0; char **v = strsplit(&n, b, ",;", (int)(s & 1)); uint64_t h = 1; for (int i = 0; i < n && v; i++) h = hs(h, v[i]); free(v); n = strsplit_csv(q, 200, c, ","); h = vh_h(h, (uint64_t)n); for (int i = 0; i < n; i++) h = hs(h, q[i]); n = strsplitargs(q, 200, e); h = vh_h(h, (uint64_t)n); for (int i = 0; i < n; i++) h = hs(h, q[i]); return h; }
static uint64_t op_str(uint64_t s, const char *d) { G x = { s }; char b[200], c[60], *r = 0; (void)d; gtxt(&x, b, 200, " \tab\"'/."); uint64_t h = vh_h(1, (uint64_t)strcopy(c, sizeof c, b)); h = hs(h, c); h = hs(h, strtrim(b)); h = vh_h(h, (uint64_t)strunquote(b, &r)); h = hs(h, r); gtxt(&x, b, 100, "a/b.//"); char e[200]; return hs(h, pl_dirname(e, sizeof e, b)); }
static uint64_t op_ip(uint64_t s, const char *d) { G x = { s }; char b[60], t[40]; uint32_t a = 0, m = 0, c = 0; (void)d; snprintf(b, sizeof b, "%u.%u.%u.%u/%u", (unsigned)(g(&x) % 260), (unsigned)(g(&x) % 256), (unsigned)(g(&x) % 256), (unsigned)(g(&x) % 256), (unsigned)(g(&x) % 36)); int r = parse_ipv4_and_mask(&a, &m, b); uint64_t h = vh_h(1, (uint64_t)r); if (!r) h = vh_h(vh_h(h, a), m); h = hs(h, str_ipv4(t, sizeof t, (uint32_t)g(&x))); r = mask_to_cidr4((uint32_t)(0xffffffffull << (s % 33)), &c); return vh_h(h, r ? 99 : c); }
static uint64_t op_id(uint64_t s, const char *d) { G x = { s }; uint8_t b[16], c[16], z[16]; char t[64]; (void)d; for (int i = 0; i < 16; i++) b[i] = (uint8_t)g(&x); uint64_t h = 1; memset(c, 0, 16); uuid_tostring(t, sizeof t, b); h = hs(h, t); uuid_fromstring(c, 16, t); h = vh_hb(h, c, 16); b[0] &= 0x1f; ulid_tostring(t, sizeof t, b); h = hs(h, t); ulid_fromstring(c, 16, t); h = vh_hb(h, c, 16); if (uuid_generate(z, 16) != 16 || ulid_generate(z, 16) != 16) h++; return h; }
static uint64_t op_gstr(uint64_t s, const char *d) { G x = { s }; char b[100]; gstr q; (void)d; gstr_init(&q, 3); for (int i = 0; i < 12; i++) { gtxt(&x, b, 100, "ab;$ {}x"); gstr_append_str(&q, b); gstr_append_ch(&q, 'k'); } gstr_escape(&q, ";", '\\'); uint64_t h = hs(1, q.str); gstr_unescape(&q, '\\'); h = hs(h, q.str); int r = gstr_varexp(&q, look, 0); h = vh_h(h, (uint64_t)r); if (!r) h = hs(h, q.str); gstr_fini(&q); return h; }
static uint64_t op_pack(uint64_t s, const char *d) { G x = { s }; uint8_t b[400]; uint32_t v[8], n = 0, *w = 0; uint64_t l = g(&x), m = 0; char *z = 0; (void)d; for (int i = 0; i < 8; i++) v[i] = (uint32_t)g(&x); ssize_t k = Pack(b, sizeof b, s & 1 ? "> L * I Z" : "< L * I Z", l, (uint32_t)(1 + s % 8), v, "some text"); uint64_t h = k > 0 ? vh_hb(1, b, (size_t)k) : 0; k = Unpack(b, (size_t)k, s & 1 ? "> L * I Z" : "< L * I Z", &m, &n, &w, &z); h = vh_h(vh_h(vh_h(h, (uint64_t)k), m), n); if (w) h = vh_hb(h, w, n * 4); h = hs(h, z); free(w); free(z); return h; }
static uint64_t op_prng(uint64_t s, const char *d) { uint64_t h = 1; (void)d; xoro128plus a; xs64star b; xs128plus c; xs1024star e; romu r; s |= 1; xoro128plus_init(&a, s); xs64star_init(&b, s); xs128plus_init(&c, s); xs1024star_init(&e, s); romu_quad_init(&r, s, s + 2); for (int i = 0; i < 40; i++) { h = vh_h(h, xoro128plus_u64(&a)); h = vh_h(h, xs64star_u64(&b)); h = vh_h(h, xs128plus_u64(&c)); h = vh_h(h, xs1024star_u64(&e)); h = vh_h(h, romu_quad(&r)); } return h; }
static uint64_t op_arc4(uint64_t s, const char *d) { uint8_t b[300]; (void)d; arc4random_buf(b, s % 300); uint32_t u = 1 + (uint32_t)(s % 1000); return arc4random_uniform(u) < u ? 1 : 2; }
static uint64_t op_bloom(uint64_t s, const char *d) { int kind = (int)(s % 3); uint64_t h = 1; (void)d; Bloom *b = kind == 2 ? Counting_bloom_new(30, 0.01) : Standard_bloom_new(30, 0.01, kind); for (uint64_t i = 0; i < 100; i++) Bloom_probe(b, vh_mix(s + i)); for (uint64_t i = 0; i < 100; i++) h = vh_h(h, (uint64_t)!!Bloom_find(b, vh_mix(s + i))); h = hs(h, Bloom_name(b)); Bloom_delete(b); return h; }
static uint64_t op_xor(uint64_t s, const char *d) { uint64_t k[60], h = 1; for (uint64_t i = 0; i < 60; i++) k[i] = vh_mix(s + i); char f[300]; snprintf(f, sizeof f, "%s/xf", d); Xorfilter *x = s & 1 ? Xorfilter_new8(k, 60) : Xorfilter_new16(k, 60), *y = 0; for (int i = 0; i < 60; i++) h = vh_h(h, (uint64_t)Xorfilter_contains(x, k[i])); int r = Xorfilter_marshal(x, f); h = vh_h(h, r >= 0); r = Xorfilter_unmarshal(&y, f, s & 2 ? XORFILTER_MMAP : 0); if (!r) { for (int i = 0; i < 60; i++) h = vh_h(h, (uint64_t)Xorfilter_contains(y, k[i])); Xorfilter_delete(y); } Xorfilter_delete(x); return h; }
static uint64_t op_ht(uint64_t s, const char *d) { ht *t = ht_new(4, 0); uint64_t h = 1; (void)d; for (uint64_t i = 0; i < 150; i++) ht_probe(t, vh_mix(s + i) | 1, (void *)(uintptr_t)(i + 1)); for (uint64_t i = 0; i < 150; i++) { void *v = 0; ht_find(t, vh_mix(s + i) | 1, &v); h = vh_h(h, (uint64_t)(uintptr_t)v); } ht_del(t); return h; }
static uint64_t op_tab(uint64_t s, const char *d) { hash_table_policy p; memset(&p, 0, sizeof p); p.hash = hh; p.cmp = hc; p.logsize = 2; malloc_memmgr(&p.mem); hash_table_t t; it e[100]; uint64_t h = 1; (void)d; if (hash_table_new(&t, &p)) return 0; for (int i = 0; i < 100; i++) { e[i].k = (uint32_t)(vh_mix(s + (uint64_t)i) % 150); h = vh_h(h, (uint64_t)hash_table_insert(t, &e[i])); } for (uint32_t i = 0; i < 150; i++) { it q = { i }; void *r = 0; h = vh_h(h, (uint64_t)!!hash_table_lookup(t, &q, &r)); } hash_table_iter_t i; hash_table_iter_new(&i, t, 1); for (int r = hash_table_iter_first(i); !r; r = hash_table_iter_next(i)) h = vh_h(h, ((it *)hash_table_iter_item(i))->k); hash_table_iter_delete(i); hash_table_delete(t); return h; }
static uint64_t op_mem(uint64_t s, const char *d) { struct mempool *p = 0; arena_t a = 0; uint64_t h = 1; (void)d; mempool_new(&p, 0, 24, 50, 5); arena_new(&a, 500); for (uint64_t i = 0; i < 60; i++) { uint64_t *q = mempool_alloc(p), *z = arena_alloc(a, 8 + i); h = vh_h(h, !!q); if (q) { *q = s + i; if (i % 3 == 0) mempool_free(p, q); } *z = s; } mempool_delete(p); arena_delete(a); return h; }
static uint64_t op_vect(uint64_t s, const char *d) { u64v v; uint64_t h = 1, *e; (void)d; VECT_INIT(&v, 2); for (uint64_t i = 0; i < 100; i++) VECT_PUSH_BACK(&v, vh_mix(s + i)); VECT_FOR_EACH(&v, e) h = vh_h(h, *e); VECT_FINI(&v); return h; }
static uint64_t op_lines(uint64_t s, const char *d) { G x = { s }; char t[600]; size_t n = gtxt(&x, t, 599, "abc\n\r"); uint64_t h = 1; (void)d; if (!n) return 0; FILE *f = fmemopen(t, n, "r"); unsigned char b[50]; int r; while ((r = freadline(f, b, sizeof b)) > 0) h = vh_h(hs(h, (char *)b), (uint64_t)r); fclose(f); f = fmemopen(t, n, "r"); gstr q; gstr_init(&q, 4); for (int i = 0; i < 30; i++) { r = gstr_readline(&q, f, "\n"); h = vh_h(hs(h, q.str), (uint64_t)r); } gstr_fini(&q); fclose(f); return h; }
static uint64_t op_files(uint64_t s, const char *d) { char f[400], p[500]; uint64_t h = 1; snprintf(p, sizeof p, "%s/m/%llu/b//c", d, (unsigned long long)(s % 50)); h = vh_h(h, (uint64_t)mkdirhier(p, 0755)); snprintf(f, sizeof f, "%s/log", d); for (int i = 0; i < 3; i++) { int fd = open(f, O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); h = vh_h(h, (uint64_t)rotate_filename(f, 2, 0)); }
    snprintf(p, sizeof p, "%s/m", d); char *av[] = { p, 0 }; FTS *t = fts_open(av, FTS_PHYSICAL | FTS_NOCHDIR, 0); uint64_t sum = 0; for (FTSENT *e; t && (e = fts_read(t));) sum += vh_h(hs(1, e->fts_path + strlen(d)), (uint64_t)e->fts_info) * (strstr(e->fts_path, "/b") && 0); if (t) fts_close(t); return vh_h(h, sum); }
static uint64_t op_bar(uint64_t s, const char *d) { progress p; (void)d; int fd = open("/dev/null", O_WRONLY); progressbar_init(&p, fd, s % 10000, s & 1); for (int i = 0; i < 20; i++) progressbar_update(&p, s % 300); progressbar_finish(&p, 0, 1); close(fd); return vh_h(1, p.cur); }
static uint64_t op_addr(uint64_t s, const char *d) { char b[100]; (void)d; struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = (uint32_t)vh_mix(s); a.sin_port = (uint16_t)s; uint64_t h = hs(1, sockaddr_to_string(b, sizeof b, (struct sockaddr *)&a)); struct sockaddr_in6 z; memset(&z, 0, sizeof z); z.sin6_family = AF_INET6; for (int i = 0; i < 16; i++) z.sin6_addr.s6_addr[i] = (uint8_t)vh_mix(s + (uint64_t)i); h = hs(h, sockaddr_to_string(b, sizeof b, (struct sockaddr *)&z)); struct sockaddr_ll l; memset(&l, 0, sizeof l); l.sll_family = AF_PACKET; l.sll_halen = 6; memcpy(l.sll_addr, &s, 6); return hs(h, sockaddr_to_string(b, sizeof b, (struct sockaddr *)&l)); }
static uint64_t op_shared(uint64_t s, const char *d) { uint64_t h = 1; (void)d; for (uint64_t i = 0; i < 40; i++) { uint64_t k = SK[vh_mix(s + i) % 200]; void *v = 0; h = vh_h(h, (uint64_t)Xorfilter_contains(SX, k)); h = vh_h(h, (uint64_t)!!Bloom_find(SB, k)); h = vh_h(h, (uint64_t)!!Bloom_find(SC, k)); ht_find(SH, k, &v); h = vh_h(h, (uint64_t)(uintptr_t)v); v = 0; hash_table_lookup(ST, &SI[vh_mix(s + i) % 200], &v); h = vh_h(h, v != 0); } return h; }
#define CX(n) static uint64_t cx##n(uint64_t s, const char *d) { return c53_cxx(n, s, d); }
CX(0) CX(1) CX(2) CX(3) CX(4) CX(5) CX(6) CX(7)
static struct { const char *n; uint64_t (*f)(uint64_t, const char *); } O[] = { { "hash", op_hash }, { "stream", op_stream }, { "base64", op_b64 }, { "hex", op_hex }, { "size", op_size }, { "split", op_split }, { "str", op_str }, { "ip", op_ip }, { "id", op_id }, { "gstr", op_gstr }, { "pack", op_pack }, { "prng", op_prng },
    { "arc4", op_arc4 }, { "bloom", op_bloom }, { "xor", op_xor }, { "ht", op_ht }, { "hashtab", op_tab }, { "mem", op_mem }, { "vect", op_vect }, { "lines", op_lines }, { "files", op_files }, { "progbar", op_bar }, { "addr", op_addr }, { "shared", op_shared },
    { "kmp", cx0 }, { "boyer-moore", cx1 }, { "rabin-karp", cx2 }, { "syserror", cx3 }, { "exception", cx4 }, { "mmap", cx5 }, { "shared-search", cx6 }, { "turbo", cx7 } };
#define NO ((int)(sizeof O / sizeof *O))
enum { MAXJ = 400, MAXT = 8 };
static struct { int op; uint64_t seed, want; } Jb[MAXJ]; static int nj, NT; static pthread_barrier_t bar;
static _Atomic int overlap[NO], both; static _Atomic uint64_t mism; static uint64_t tseed[MAXT]; static char dirs[MAXT + 1][320];
static void *worker(void *a)
{
    int t = (int)(intptr_t)a; G x = { tseed[t] }; pthread_barrier_wait(&bar);
    for (int i = 0; i < nj; i++) { int j = (int)(g(&x) % (uint64_t)nj), o = Jb[j].op; if (atomic_fetch_add_explicit(&overlap[o], 1, memory_order_relaxed)) atomic_fetch_add_explicit(&both, 1, memory_order_relaxed);
        uint64_t h = O[o].f(Jb[j].seed, dirs[t]); atomic_fetch_sub_explicit(&overlap[o], 1, memory_order_relaxed); if (h != Jb[j].want) { uint64_t z = 0; atomic_compare_exchange_strong_explicit(&mism, &z, (uint64_t)j + 1, memory_order_relaxed, memory_order_relaxed); break; } }
    return 0;
}
/* cold: the very first use of every operation in the process happens on several threads at once */
static uint64_t cold_got[MAXT][MAXJ]; static int cold;
static void *coldworker(void *a) { int t = (int)(intptr_t)a; pthread_barrier_wait(&bar); for (int j = 0; j < nj; j++) cold_got[t][j] = O[Jb[j].op].f(Jb[j].seed, dirs[t]); return 0; }
static void coldcase(void *a)
{
    pthread_t th[MAXT]; (void)a; pthread_barrier_init(&bar, 0, (unsigned)NT); for (int t = 0; t < NT; t++) pthread_create(&th[t], 0, coldworker, (void *)(intptr_t)t); for (int t = 0; t < NT; t++) pthread_join(th[t], 0);
    for (int j = 0; j < nj; j++) { uint64_t w = O[Jb[j].op].f(Jb[j].seed, dirs[MAXT]); for (int t = 0; t < NT; t++) if (cold_got[t][j] != w) { fprintf(stderr, "cold operation %s differs\n", O[Jb[j].op].n); _exit(77); } }
    _exit(0);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv); umask(022);
    for (int t = 0; t <= MAXT; t++) { snprintf(dirs[t], sizeof dirs[t], "%s/t%d", vh_tmp, t); mkdir(dirs[t], 0700); }
    if (!strcmp(vh_mode, "cold")) for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue; NT = 2 + (int)vrn(MAXT - 1); int perm[64], n = 0; uint64_t sig = 0; for (int i = 0; i < NO; i++) if (strncmp(O[i].n, "shared", 6)) perm[n++] = i;
        nj = vrp(50) ? 1 + (int)vrn(4) : n; for (int i = 0; i < nj; i++) { int j = i + (int)vrn((uint64_t)(n - i)), x = perm[i]; perm[i] = perm[j]; perm[j] = x; Jb[i].op = perm[i]; Jb[i].seed = vr(); sig = vh_h(vh_h(sig, (uint64_t)Jb[i].op), Jb[i].seed); }
        vh_case("cold, %d threads, operations:", NT); for (int i = 0; i < nj; i++) vh_case_add(" %s", O[Jb[i].op].n); int st = vh_fork(coldcase, 0);
        if (st) { char key[60]; snprintf(key, sizeof key, "reent:cold"); vh_viol(key, "first use on %d threads at once: status %#x", NT, st); }
        vh_count("evals", 1); vh_count("cold_operations", (uint64_t)(NT * nj)); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    if (!strcmp(vh_mode, "cold")) return vh_end();
    uint64_t s0 = vh_mix(vh_seed); SB = Standard_bloom_new(300, 0.01, 0); SC = Counting_bloom_new(300, 0.01); SH = ht_new(16, 0); hash_table_policy p; memset(&p, 0, sizeof p); p.hash = hh; p.cmp = hc; malloc_memmgr(&p.mem); p.lock = Mutex_locker; hash_table_new(&ST, &p);
    for (uint64_t i = 0; i < 200; i++) { SK[i] = vh_mix(s0 + i) | 1; SI[i].k = (uint32_t)i; if (i % 2 == 0) { Bloom_probe(SB, SK[i]); Bloom_probe(SC, SK[i]); ht_probe(SH, SK[i], (void *)(uintptr_t)(i + 1)); hash_table_insert(ST, &SI[i]); } } SX = Xorfilter_new8(SK, 200); c53_cxx_init(s0);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue; NT = 2 + (int)vrn(MAXT - 1); int few = vrp(40) ? 1 + (int)vrn(3) : NO, ops[NO]; for (int i = 0; i < few; i++) ops[i] = few == NO ? i : (int)vrn((uint64_t)NO);
        nj = few == NO ? 60 : 30; uint64_t sig = (uint64_t)NT; vh_case("%d threads, operations:", NT);
        for (int i = 0; i < few && few < NO; i++) vh_case_add(" %s", O[ops[i]].n); if (few == NO) vh_case_add(" all");
        for (int i = 0; i < nj; i++) { Jb[i].op = ops[vrn((uint64_t)few)]; Jb[i].seed = vr(); Jb[i].want = O[Jb[i].op].f(Jb[i].seed, dirs[MAXT]); sig = vh_h(vh_h(sig, (uint64_t)Jb[i].op), Jb[i].seed); uint64_t again = O[Jb[i].op].f(Jb[i].seed, dirs[MAXT]); if (again != Jb[i].want) vh_viol("reent:unstable", "operation %s gives different results alone", O[Jb[i].op].n); }
        pthread_barrier_init(&bar, 0, (unsigned)NT); pthread_t th[MAXT]; mism = 0; for (int t = 0; t < NT; t++) { tseed[t] = vr(); pthread_create(&th[t], 0, worker, (void *)(intptr_t)t); } for (int t = 0; t < NT; t++) pthread_join(th[t], 0); pthread_barrier_destroy(&bar);
        if (mism) { char key[60]; snprintf(key, sizeof key, "reent:%s", O[Jb[mism - 1].op].n); vh_viol(key, "operation %s gives another result when other threads work", O[Jb[mism - 1].op].n); }
        vh_count("evals", 1); vh_count("operations", (uint64_t)(NT * nj)); vh_count("overlapped", (uint64_t)both); both = 0; vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    Bloom_delete(SB); Bloom_delete(SC); Xorfilter_delete(SX); ht_del(SH); hash_table_delete(ST);
    return vh_end();
}
