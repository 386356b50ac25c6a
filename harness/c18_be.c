/* C18: the macros for big-endian hosts: big endian is the identity, little endian the swap */
#include <stdint.h>
#include <stdio.h>
#include "fast/swab.h"
#include "fast/big-endian.h"
int be_macros(uint64_t v, char *why, size_t n)
{
    uint32_t i = (uint32_t)v, ri = 0; uint64_t rl = 0; for (int k = 0; k < 4; k++) ri = ri << 8 | (i >> (8 * k) & 255); for (int k = 0; k < 8; k++) rl = rl << 8 | (v >> (8 * k) & 255);
#define T(e, w) if ((uint64_t)(e) != (uint64_t)(w)) { snprintf(why, n, "%s", #e); return 0; }
    T(__cpu_to_be32(i), i) T(__cpu_to_be64(v), v) T(__be32_to_cpu(i), i) T(__be64_to_cpu(v), v) T(__cpu_to_le32(i), ri) T(__cpu_to_le64(v), rl) T(__le32_to_cpu(i), ri) T(__le64_to_cpu(v), rl)
    T(htonll(v), v) T(ntohll(v), v) T(__constant_htonl(i), i) T(__constant_ntohl(i), i) T(__constant_htonll(v), v) T(__constant_ntohll(v), v) T(__constant_htons((uint16_t)v), (uint16_t)v) T(__constant_ntohs((uint16_t)v), (uint16_t)v)
    return 1;
}
