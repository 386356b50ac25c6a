/* element-type generic vector history; included with T, NAME, MK(x), EQ(a,b), CMP */
VECT_TYPEDEF(CAT(v_, NAME), T);
static int CAT(cmp_, NAME)(const T *a, const T *b) { return CMPE(*a, *b); }
static uint64_t CAT(run_, NAME)(void)
{
    CAT(v_, NAME) v[3]; static T M[3][9000]; size_t n[3]; uint64_t sig = 7; T e;
    for (int i = 0; i < 3; i++) { size_t cap = vrp(30) ? 0 : vrp(50) ? 1 + vrn(3) : 1 + vrsz(100); { VECT_INIT(&v[i], cap); if (VECT_CAPACITY(&v[i]) < cap) vh_viol("vect:init-cap", "capacity %zu, asked %zu", VECT_CAPACITY(&v[i]), cap); } n[i] = 0; }
    uint64_t ops = 5 + vrsz(vh_thorough ? 3000 : 600);
    for (uint64_t o = 0; o < ops && !vh_nviol; o++) {
        int i = (int)vrn(3), j = (int)vrn(3), op = (int)vrn(26); CAT(v_, NAME) *a = &v[i], *b = &v[j]; T *m = M[i], *w = M[j]; T *p; size_t k;
        if (n[i] > 4000) op = 8;
        switch (op) {
        case 0: case 1: case 2: e = MK(vr()); VECT_PUSH_BACK(a, e); m[n[i]++] = e; break;
        case 3: if (n[i]) { e = VECT_POP_BACK(a); if (!EQ(e, m[n[i] - 1])) vh_viol("vect:pop-back", "wrong element"); n[i]--; } break;
        case 4: case 5: e = MK(vr()); VECT_PUSH_FRONT(a, e); memmove(m + 1, m, n[i] * sizeof *m); m[0] = e; n[i]++; break;
        case 6: case 7: if (n[i]) { e = VECT_POP_FRONT(a); if (!EQ(e, m[0])) vh_viol("vect:pop-front", "wrong element"); n[i]--; memmove(m, m + 1, n[i] * sizeof *m); } break;
        case 8: if (vrp(30) || n[i] > 4000) { VECT_RESET(a); n[i] = 0; } break;
        case 9: k = vrsz(700); VECT_RESERVE(a, k); if (VECT_CAPACITY(a) < k) vh_viol("vect:reserve", "capacity %zu after reserving %zu", VECT_CAPACITY(a), k); break;
        case 10: k = vrsz(300); VECT_ENSURE(a, k); if (VECT_CAPACITY(a) < n[i] + k) vh_viol("vect:ensure", "capacity %zu for %zu+%zu", VECT_CAPACITY(a), n[i], k);
                 while (k--) { e = MK(vr()); VECT_GET_NEXT(a) = e; m[n[i]++] = e; } break;
        case 11: if (i != j) { VECT_COPY(a, b); memcpy(m, w, n[j] * sizeof *m); n[i] = n[j]; } break;
        case 12: if (n[i] + n[j] < 4000) { VECT_APPEND_VECT(a, b); memmove(m + n[i], w, n[j] * sizeof *m); n[i] += n[j]; } break;
        case 13: { VECT_SORT(a, CAT(cmp_, NAME)); for (k = 1; k < n[i]; k++) if (CAT(cmp_, NAME)(&VECT_ELEM(a, k - 1), &VECT_ELEM(a, k)) > 0) { vh_viol("vect:sort", "not sorted"); break; } qsort(m, n[i], sizeof *m, (int (*)(const void *, const void *))CAT(cmp_, NAME)); break; }
        case 14: { VECT_SHUFFLE(a, vr); /* must be a permutation: compare sorted copies, then adopt the order */
                 static T s1[9000], s2[9000]; for (k = 0; k < n[i]; k++) s1[k] = VECT_ELEM(a, k); memcpy(s2, m, n[i] * sizeof *m); memcpy(m, s1, n[i] * sizeof *m);
                 qsort(s1, n[i], sizeof *s1, (int (*)(const void *, const void *))CAT(cmp_, NAME)); qsort(s2, n[i], sizeof *s2, (int (*)(const void *, const void *))CAT(cmp_, NAME)); for (k = 0; k < n[i]; k++) if (!EQ(s1[k], s2[k])) { vh_viol("vect:shuffle", "not a permutation"); break; } vh_count("shuffles", 1); break; }
        case 15: case 16: if (i != j) { k = vrp(50) ? vrsz(n[j] + 2) : vrn(n[j] + 2); int z = VECT_SAMPLE(a, b, k, vr); if (z != (k < n[j])) vh_viol("vect:sample-rc", "sample of %zu from %zu returned %d", k, n[j], z);
                 if (z) { if (VECT_LEN(a) != k) { vh_viol("vect:sample-len", "sample has %zu, wanted %zu", VECT_LEN(a), k); break; } static char used[9000]; memset(used, 0, n[j]); n[i] = k;
                   for (k = 0; k < n[i]; k++) { m[k] = VECT_ELEM(a, k); size_t q; for (q = 0; q < n[j]; q++) if (!used[q] && EQ(w[q], m[k])) { used[q] = 1; break; } if (q == n[j]) { vh_viol("vect:sample", "sampled element is not in the source (or taken twice)"); break; } } vh_count("samples", 1); } } break;
        case 17: VECT_SWAP(a, b); if (i != j) { static T t[9000]; memcpy(t, m, n[i] * sizeof *m); memcpy(m, w, n[j] * sizeof *m); memcpy(w, t, n[i] * sizeof *m); k = n[i]; n[i] = n[j]; n[j] = k; } break;
        case 18: if (i != j) { VECT_FINI(a); VECT_INIT_FROM(a, b); memcpy(m, w, n[j] * sizeof *m); n[i] = n[j]; vh_count(n[j] ? "init_from" : "init_from_empty", 1); } break;
        case 19: if (n[i]) { e = VECT_RAND_ELEM(a, vr); for (k = 0; k < n[i]; k++) if (EQ(m[k], e)) break; if (k == n[i]) vh_viol("vect:rand", "random element not in the vector"); } break;
        case 20: if (n[i]) { k = vrn(n[i]); e = MK(vr()); VECT_ELEM(a, k) = e; m[k] = e; } break;
        case 21: if (n[i]) { e = VECT_LAST_ELEM(a); if (!EQ(e, m[n[i] - 1]) || !EQ(VECT_FIRST_ELEM(a), m[0]) || !EQ(VECT_TOP(a), m[n[i] - 1])) vh_viol("vect:ends", "first/last element wrong"); VECT_POP(a); n[i]--; } break;
        case 22: VECT_FINI(a); if (VECT_LEN(a) || VECT_CAPACITY(a)) vh_viol("vect:fini", "not empty after FINI"); VECT_INIT(a, vrn(4)); n[i] = 0; break;
        case 23: if (n[i]) { k = vrn(n[i]); int f = (int)vrn(8); vh_count("own_elements", 1); /* the pushed expression may itself use the vector */
                 if (f == 0) { VECT_PUSH_BACK(a, VECT_ELEM(a, k)); m[n[i]] = m[k]; n[i]++; } else if (f == 1) { VECT_PUSH_BACK(a, VECT_LAST_ELEM(a)); m[n[i]] = m[n[i] - 1]; n[i]++; } else if (f == 2) { VECT_PUSH_BACK(a, VECT_POP_FRONT(a)); e = m[0]; memmove(m, m + 1, (n[i] - 1) * sizeof *m); m[n[i] - 1] = e; }
                 else { e = f == 3 ? m[0] : f == 4 || f == 7 ? m[n[i] - 1] : m[k]; if (f == 7) { VECT_PUSH_FRONT(a, VECT_POP_BACK(a)); n[i]--; } else if (f == 3) VECT_PUSH_FRONT(a, VECT_FIRST_ELEM(a)); else if (f == 4) VECT_PUSH_FRONT(a, VECT_LAST_ELEM(a)); else VECT_PUSH_FRONT(a, VECT_ELEM(a, k)); memmove(m + 1, m, n[i] * sizeof *m); m[0] = e; n[i]++; } } break;
        case 24: if (n[j]) { k = vrn(n[j]); e = w[k]; if (vrp(50)) { VECT_PUSH_BACK(a, VECT_ELEM(b, k)); m[n[i]++] = e; } else { VECT_PUSH_FRONT(a, VECT_ELEM(b, k)); memmove(m + 1, m, n[i] * sizeof *m); m[0] = e; n[i]++; } } break;
        default: { k = 0; VECT_FOR_EACH(a, p) { if (k >= n[i] || !EQ(*p, m[k])) { vh_viol("vect:foreach", "iteration differs at %zu of %zu", k, n[i]); break; } k++; } if (k != n[i] && !vh_nviol) vh_viol("vect:foreach", "iterated %zu of %zu", k, n[i]);
                 size_t ix; k = 0; VECT_FOR_EACHi(a, ix, p) { if (ix != k || !EQ(*p, m[k])) { vh_viol("vect:foreachi", "iteration differs"); break; } k++; } if (k != n[i] && !vh_nviol) vh_viol("vect:foreachi", "iterated %zu of %zu", k, n[i]); } }
        sig = vh_h(sig, (uint64_t)(op * 9 + i * 3 + j));
        for (int q = 0; q < 3 && !vh_nviol; q++) { if (VECT_LEN(&v[q]) != n[q]) vh_viol("vect:len", "length %zu, expected %zu (after operation %d)", VECT_LEN(&v[q]), n[q], op); else if (VECT_CAPACITY(&v[q]) < n[q]) vh_viol("vect:cap", "capacity below length"); else if (q == i || q == j || o + 1 == ops) for (k = 0; k < n[q]; k++) if (!EQ(VECT_ELEM(&v[q], k), M[q][k])) { vh_viol("vect:content", "element %zu of %zu differs after operation %d", k, n[q], op); break; } }
    }
    vh_count("ops", ops);
    for (int i = 0; i < 3; i++) VECT_FINI(&v[i]);
    return sig;
}
