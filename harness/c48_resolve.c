/* C48: interface enumeration and name resolution over simulated interfaces and hosts (and the real ones), address printing */
#include "vh.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <ifaddrs.h>
#include <sys/ioctl.h>
#include <linux/if_packet.h>
#include "utils/resolve.h"
typedef unsigned char u8;
int __real_getifaddrs(struct ifaddrs **), __real_ioctl(int, unsigned long, ...), __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **); void __real_freeifaddrs(struct ifaddrs *), __real_freeaddrinfo(struct addrinfo *);
typedef struct en { char nm[16]; struct sockaddr_storage sa; size_t len; unsigned fl; int has; } en; static en E[64]; static int ne; static char ifs[8][16]; static int nif;
static int fake, gifail, gai, gaierr, gaierrno; static int lists, ais; static struct { struct sockaddr_storage sa; size_t len; } A[16]; static int na; static char host[200];
static size_t slen(int f) { return f == AF_INET ? sizeof(struct sockaddr_in) : f == AF_INET6 ? sizeof(struct sockaddr_in6) : f == AF_PACKET ? sizeof(struct sockaddr_ll) : sizeof(struct sockaddr_in); }
int __wrap_getifaddrs(struct ifaddrs **o)
{
    if (!fake) return __real_getifaddrs(o); if (gifail) { errno = gifail; return -1; } struct ifaddrs *h = 0, **t = &h; for (int i = 0; i < ne; i++) { struct ifaddrs *p = calloc(1, sizeof *p); p->ifa_name = strdup(E[i].nm); p->ifa_flags = E[i].fl; if (E[i].has) p->ifa_addr = vh_dup(&E[i].sa, E[i].len); *t = p; t = &p->ifa_next; } *o = h; lists++; return 0;
}
void __wrap_freeifaddrs(struct ifaddrs *h) { if (!fake) { __real_freeifaddrs(h); return; } lists--; while (h) { struct ifaddrs *n = h->ifa_next; free(h->ifa_name); free(h->ifa_addr); free(h); h = n; } }
int __wrap_ioctl(int fd, unsigned long rq, ...) { va_list ap; va_start(ap, rq); struct ifreq *r = va_arg(ap, struct ifreq *); va_end(ap); if (!fake) return __real_ioctl(fd, rq, r); for (int i = 0; i < nif; i++) if (!strncmp(ifs[i], r->ifr_name, IFNAMSIZ)) { r->ifr_mtu = 1500; return 0; } errno = ENODEV; return -1; }
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **o)
{
    if (!fake) return __real_getaddrinfo(h, s, hi, o); gai++; if (gaierr) { errno = gaierrno; return gaierr; } if (strcmp(h, host)) { errno = 0; return EAI_NONAME; } struct addrinfo *l = 0, **t = &l; for (int i = 0; i < na; i++) { struct addrinfo *p = calloc(1, sizeof *p); p->ai_family = A[i].sa.ss_family; p->ai_addrlen = (socklen_t)A[i].len; p->ai_addr = vh_dup(&A[i].sa, A[i].len); *t = p; t = &p->ai_next; } *o = l; ais++; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *l) { if (!fake) { __real_freeaddrinfo(l); return; } ais--; while (l) { struct addrinfo *n = l->ai_next; free(l->ai_addr); free(l); l = n; } }
static void rsa(struct sockaddr_storage *s, size_t *len, int k)
{
    memset(s, 0, sizeof *s); if (k == 0) { struct sockaddr_in *a = (void *)s; a->sin_family = AF_INET; a->sin_addr.s_addr = (uint32_t)(vrp(30) ? vrn(3) : vr()); } else if (k == 1) { struct sockaddr_in6 *a = (void *)s; a->sin6_family = AF_INET6; vrbytes(&a->sin6_addr, 16); if (vrp(40)) memset((u8 *)&a->sin6_addr + vrn(8), 0, 8); a->sin6_scope_id = (uint32_t)vrn(5); } else { struct sockaddr_ll *a = (void *)s; a->sll_family = AF_PACKET; a->sll_ifindex = (int)vrn(9); a->sll_halen = 6; vrbytes(a->sll_addr, 8); } *len = slen(s->ss_family);
}
static int masked(int f, unsigned m) { return f == AF_INET6 ? m & F_INET6 ? 1 : 0 : f == AF_PACKET ? m & F_LINK ? 1 : 0 : m & F_INET ? 1 : 0; }
static int nfd(void) { int n = 0; for (int i = 0; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static int sub(if_addr_vect *v, const char *nm, unsigned m, const char *what)
{   /* v holds exactly nm's addresses (any order) */
    int used[64] = { 0 }, want = 0; for (int i = 0; i < ne; i++) want += E[i].has && !strcmp(E[i].nm, nm) && masked(E[i].sa.ss_family, m); if ((int)VECT_LEN(v) != want) { vh_viol("resolve:count", "%s: %s has %zu addresses, expected %d", what, nm, VECT_LEN(v), want); return 0; }
    for (size_t i = 0; i < VECT_LEN(v); i++) { if_addr *a = &VECT_ELEM(v, i); int f = 0; for (int j = 0; j < ne && !f; j++) if (!used[j] && E[j].has && !strcmp(E[j].nm, nm) && masked(E[j].sa.ss_family, m) && E[j].fl == a->flags && !memcmp(&E[j].sa, &a->sa, E[j].len)) used[j] = f = 1; if (!f) { vh_viol("resolve:address", "%s: address %zu of %s is not one of its addresses", what, i, nm); return 0; } vh_count("if_addresses", 1); }
    return 1;
}
static void toname(char *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (char)("abe0-"[vrn(i ? 5 : 2)]); b[n] = 0; }
static void printing(void)
{
    struct sockaddr_storage s; size_t l; int k = (int)vrn(5); rsa(&s, &l, k < 3 ? k : (int)vrn(3)); if (k == 4) s.ss_family = (sa_family_t)vrn(50); int f = s.ss_family; char want[100]; if (f == AF_INET) inet_ntop(AF_INET, &((struct sockaddr_in *)&s)->sin_addr, want, sizeof want); else if (f == AF_INET6) inet_ntop(AF_INET6, &((struct sockaddr_in6 *)&s)->sin6_addr, want, sizeof want); else if (f == AF_PACKET) { u8 *m = ((struct sockaddr_ll *)&s)->sll_addr; snprintf(want, sizeof want, "%02x:%02x:%02x:%02x:%02x:%02x", m[0], m[1], m[2], m[3], m[4], m[5]); } else snprintf(want, sizeof want, "unknown-AF %d", f);
    size_t n = strlen(want), z = vrp(60) ? n + 1 - (vrp(40) ? vrn(n + 1) : 0) + (vrp(30) ? vrn(30) : 0) : 1 + vrn(80); int known = f == AF_INET || f == AF_INET6 || f == AF_PACKET; void *sa = vh_dup(&s, known ? slen(f) : sizeof s); char *b = malloc(z); memset(b, 0x5A, z); vh_case("print %s into %zu", want, z); const char *r = sockaddr_to_string(b, z, sa);
    if (z > n) { if (r != b || strcmp(b, want)) vh_viol("resolve:text", "printed %s, expected %s", r ? vh_str(b, strnlen(b, z)) : "nothing", want); vh_count("texts", 1); } else { if (r && (strnlen(b, z) >= z || strncmp(b, want, z - 1))) vh_viol("resolve:short", "into %zu bytes: %s", z, vh_str(b, z)); if (r && known) vh_viol("resolve:short", "a text of %zu bytes fits into %zu", n + 1, z); vh_count("short_buffers", 1); } free(b); free(sa);
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue; uint64_t sig = vr(); int f0 = nfd();
        if (vrp(20)) printing();
        else {
            fake = 1; nif = (int)vrn(7); ne = 0; for (int i = 0; i < nif; i++) { int again; do { toname(ifs[i], vrp(30) ? 15 : 1 + vrn(6)); again = 0; for (int j = 0; j < i; j++) again |= !strcmp(ifs[i], ifs[j]); } while (again); } int na_ = nif ? (int)vrn(vrp(80) ? 12 : 60) : 0; for (int i = 0; i < na_; i++) { en *e = &E[ne++]; strcpy(e->nm, ifs[vrn((uint64_t)nif)]); rsa(&e->sa, &e->len, (int)vrn(3)); if (vrp(15) && i) { e->sa = E[i - 1].sa; e->len = E[i - 1].len; } e->fl = (unsigned)vrn(1 << 16); e->has = !vrp(15); }
            gifail = vrp(8) ? vrp(50) ? ENOMEM : EMFILE : 0; unsigned m0 = (unsigned)vrn(8), m = m0 ? m0 : F_INET | F_INET6; lists = ais = gai = 0; int op = (int)vrn(3); for (int i = 0; i < ne; i++) sig = vh_hb(vh_h(sig & 0, sig), &E[i].sa, 24);
            if (op == 0) {
                vh_case("enumerate %d entries of %d interfaces, mask %u%s", ne, nif, m0, gifail ? ", failing" : ""); if_address_vect v; VECT_INIT(&v, 1 + vrn(16)); int r = get_all_if_address(&v, m0); if (gifail) { if (r != -gifail) vh_viol("resolve:error", "enumeration failing with %d returned %d", gifail, r); vh_count("failures", 1); if (VECT_LEN(&v)) vh_viol("resolve:error", "a failed enumeration has results"); }
                else if (r) vh_viol("resolve:error", "enumeration returned %d", r); else { int want = 0; for (int i = 0; i < nif; i++) { int k = 0; for (int j = 0; j < ne; j++) k += E[j].has && !strcmp(E[j].nm, ifs[i]) && masked(E[j].sa.ss_family, m); want += k > 0; if (k) { int f = 0; for (size_t q = 0; q < VECT_LEN(&v); q++) if (!strcmp(VECT_ELEM(&v, q).if_name, ifs[i])) { f++; if (!sub(&VECT_ELEM(&v, q).if_addr, ifs[i], m, "enumeration")) break; } if (f != 1 && !vh_nviol) vh_viol("resolve:interface", "interface %s is listed %d times", ifs[i], f); } } if ((int)VECT_LEN(&v) != want && !vh_nviol) vh_viol("resolve:interface", "%zu interfaces listed, expected %d", VECT_LEN(&v), want); vh_count("enumerations", 1); }
                free_all_if_address(&v);
            } else {
                char name[200]; int kind = (int)vrn(8), isif = 0, num = 0; struct in_addr a4 = { 0 }; if (kind < 3 && nif) { strcpy(name, ifs[vrn((uint64_t)nif)]); isif = 1; } else if (kind == 3 && nif) { strcpy(name, ifs[vrn((uint64_t)nif)]); toname(name + strlen(name), 1 + vrn(20)); } else if (kind == 4) { a4.s_addr = (uint32_t)vr(); inet_ntop(AF_INET, &a4, name, sizeof name); num = 1; } else if (kind == 5) { strcpy(name, vrp(50) ? "" : vrp(50) ? "*" : "*foo"); num = 1; a4.s_addr = INADDR_ANY; } else toname(name, 1 + vrn(vrp(80) ? 30 : 150)); for (int i = 0; i < nif; i++) isif |= !strcmp(ifs[i], name); strcpy(host, vrp(70) ? name : "other"); na = (int)vrn(6); for (int i = 0; i < na; i++) { rsa(&A[i].sa, &A[i].len, (int)vrn(2)); } gaierr = vrp(20) ? vrp(25) ? EAI_SYSTEM : vrp(30) ? EAI_MEMORY : vrp(50) ? EAI_AGAIN : EAI_FAIL : 0; gaierrno = gaierr == EAI_SYSTEM ? EIO : vrp(70) ? 0 : ENOTTY;
                if_addr_vect v; VECT_INIT(&v, 1 + vrn(16)); if (vrp(30)) { if_addr junk; memset(&junk, 0xEE, sizeof junk); VECT_PUSH_BACK(&v, junk); } char *nm = vh_dups(name); errno = vrp(50) ? 0 : ENOENT;
                if (op == 1) { vh_case("addresses of interface '%s' (%d entries), mask %u%s", name, ne, m0, gifail ? ", failing" : ""); int r = get_interface_address(nm, &v, m0); if (!isif) { if (r != -ENOENT) vh_viol("resolve:noif", "'%s' is no interface but %d was returned", name, r); vh_count("no_interface", 1); } else if (gifail) { if (r != -gifail) vh_viol("resolve:error", "failing with %d returned %d", gifail, r); vh_count("failures", 1); } else if (r) vh_viol("resolve:error", "interface '%s' returned %d", name, r); else { sub(&v, name, m, "interface"); vh_count("interfaces", 1); } }
                else { vh_case("resolve '%s' (%s, host %s with %d addresses), mask %u, enumeration %s, lookup error %d/%d", name, isif ? "interface" : num ? "numeric" : "name", host, na, m0, gifail ? "fails" : "works", gaierr, gaierrno); int r = resolve_host_or_ifname(nm, &v, m0);
                    if (num) { struct sockaddr_in *s = VECT_LEN(&v) ? (void *)&VECT_ELEM(&v, 0).sa : 0; if (r || VECT_LEN(&v) != 1 || s->sin_family != AF_INET || s->sin_addr.s_addr != a4.s_addr || s->sin_port) vh_viol("resolve:numeric", "'%s' gave %d with %zu addresses", name, r, VECT_LEN(&v)); vh_count("numeric", 1); }
                    else if (isif && !gifail) { if (r) vh_viol("resolve:error", "interface '%s' returned %d", name, r); else sub(&v, name, m, "resolve"); vh_count("interfaces", 1); }
                    else { int fails = gaierr || strcmp(host, name); if (fails) { if (r >= 0) vh_viol("resolve:unknown", "unknown host '%s' (lookup error %d) returned %d", name, gaierr, r); else if (gaierr == EAI_SYSTEM && r != -EIO) vh_viol("resolve:error", "system error EIO returned %d", r); vh_count("unknown_hosts", 1); } else if (r) vh_viol("resolve:error", "host '%s' returned %d", name, r); else { size_t k = 0; for (int i = 0; i < na && !vh_nviol; i++) if (masked(A[i].sa.ss_family, m)) { if (k >= VECT_LEN(&v) || memcmp(&VECT_ELEM(&v, k).sa, &A[i].sa, A[i].len)) vh_viol("resolve:host", "address %d of '%s' is missing or wrong", i, name); k++; vh_count("host_addresses", 1); } if (!vh_nviol && k != VECT_LEN(&v)) vh_viol("resolve:host", "'%s' has %zu addresses, expected %zu", name, VECT_LEN(&v), k); vh_count("hosts", 1); } } }
                free(nm); VECT_FINI(&v);
            }
            if (lists) vh_viol("resolve:release", "%d interface lists not released", lists); if (ais) vh_viol("resolve:release", "%d address lists not released", ais); fake = 0;
        }
        if (!vh_nviol && c % 50 == 0) {   /* the real system */
            if_address_vect v; VECT_INIT(&v, 4); if (get_all_if_address(&v, F_INET | F_INET6 | F_LINK)) vh_viol("resolve:real", "enumeration fails"); struct ifaddrs *l, *p; if (!getifaddrs(&l)) { size_t n = 0, k = 0; for (p = l; p; p = p->ifa_next) n += p->ifa_addr != 0; for (size_t i = 0; i < VECT_LEN(&v); i++) k += VECT_LEN(&VECT_ELEM(&v, i).if_addr); if (n != k) vh_viol("resolve:real", "%zu addresses, getifaddrs has %zu", k, n); freeifaddrs(l); } free_all_if_address(&v);
            struct in6_addr a6; vrbytes(&a6, 16); char t[64]; inet_ntop(AF_INET6, &a6, t, sizeof t); if_addr_vect w; VECT_INIT(&w, 2); int r = resolve_host_or_ifname(t, &w, 0); if (r || VECT_LEN(&w) != 1 || memcmp(&((struct sockaddr_in6 *)&VECT_ELEM(&w, 0).sa)->sin6_addr, &a6, 16)) vh_viol("resolve:numeric6", "%s gave %d with %zu addresses", t, r, VECT_LEN(&w)); VECT_FINI(&w); vh_count("numeric6", 1);
        }
        if (nfd() != f0) vh_viol("resolve:fd", "a descriptor was left open");
        vh_count("evals", 1); vh_sig(sig); if (c < 3) vh_sample("%s", vh_casebuf); if (vh_nviol) break;
    }
    return vh_end();
}
