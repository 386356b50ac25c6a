/* C14: intrusive lists against reference sequences; every node is its own heap block */
#include "vh.h"
#include "fast/list.h"
#include "fast/llist.h"
typedef struct node node; struct node { char pad; DL_LINK(node) link; SL_LINK(node) sl; list_head lh; hlist_node hn; int id, where; };
#define NN 40
#define NL 3
static node *N[NN]; static int M[NL][NN], n[NL]; static int ops;
DL_HEAD_TYPEDEF(dl_head, node); SL_HEAD_TYPEDEF(sl_head, node);
static void m_ins(int l, int pos, int id) { memmove(&M[l][pos + 1], &M[l][pos], (size_t)(n[l] - pos) * sizeof(int)); M[l][pos] = id; n[l]++; N[id]->where = l; }
static int m_del(int l, int pos) { int id = M[l][pos]; memmove(&M[l][pos], &M[l][pos + 1], (size_t)(n[l] - pos - 1) * sizeof(int)); n[l]--; N[id]->where = -1; return id; }
static int spare(void) { int k = (int)vrn(NN); for (int i = 0; i < NN; i++) { int j = (k + i) % NN; if (N[j] && N[j]->where < 0) return j; } return -1; }
static void setup(void) { for (int i = 0; i < NN; i++) { N[i] = malloc(sizeof(node)); memset(N[i], 0xbe, sizeof(node)); N[i]->id = i; N[i]->where = -1; } memset(n, 0, sizeof n); }
/* a removed node is now and then freed and replaced, so that a stale link to it is seen */
static void churn(int id) { if (vrp(40)) { free(N[id]); N[id] = malloc(sizeof(node)); memset(N[id], 0xbe, sizeof(node)); N[id]->id = id; N[id]->where = -1; } }
static void done(void) { for (int i = 0; i < NN; i++) free(N[i]); }
#define EXPECT(c, ...) do { if (!(c)) { vh_viol(__VA_ARGS__); return; } } while (0)
static void m_cat(int d, int s, int front) { if (front) { memmove(&M[d][n[s]], &M[d][0], (size_t)n[d] * sizeof(int)); memcpy(&M[d][0], M[s], (size_t)n[s] * sizeof(int)); } else memcpy(&M[d][n[d]], M[s], (size_t)n[s] * sizeof(int)); for (int i = 0; i < n[s]; i++) N[M[s][i]]->where = d; n[d] += n[s]; n[s] = 0; }

static dl_head D[NL];
static void dl_check(void)
{
    for (int l = 0; l < NL; l++) {
        node *p; int k = 0; DL_FOREACH(&D[l], p, link) { EXPECT(k < n[l] && p->id == M[l][k], "dl:forward", "list %d differs at %d of %d", l, k, n[l]); k++; }
        EXPECT(k == n[l], "dl:forward", "list %d has %d elements forward, expected %d", l, k, n[l]);
        k = n[l]; DL_FOREACH_REVERSE(&D[l], p, link) { k--; EXPECT(k >= 0 && p->id == M[l][k], "dl:backward", "list %d differs backward at %d of %d", l, k, n[l]); }
        EXPECT(k == 0, "dl:backward", "list %d is short backward by %d", l, k);
        EXPECT(!!DL_EMPTY(&D[l]) == !n[l] && !!DL_empty_p(&D[l]) == !n[l], "dl:empty", "emptiness of list %d", l);
        EXPECT(DL_FIRST(&D[l]) == (n[l] ? N[M[l][0]] : 0) && DL_LAST(&D[l]) == (n[l] ? N[M[l][n[l] - 1]] : 0), "dl:ends", "first/last of list %d", l);
        if (n[l]) { int i = (int)vrn((uint64_t)n[l]); p = N[M[l][i]]; EXPECT(DL_NEXT(p, link) == (i + 1 < n[l] ? N[M[l][i + 1]] : 0) && DL_PREV(p, link) == (i ? N[M[l][i - 1]] : 0), "dl:links", "links of element %d", i); }
    }
}
static uint64_t dl_run(void)
{
    uint64_t sig = 1; setup(); dl_head z = DL_HEAD_INITIALIZER(z); for (int i = 0; i < NL; i++) { if (vrp(50)) DL_INIT(&D[i]); else D[i] = z; }
    for (int o = 0; o < ops && !vh_nviol; o++) {
        int l = (int)vrn(NL), j = (int)vrn(NL), op = (int)vrn(14), s = spare(), pos = n[l] ? (int)vrn((uint64_t)n[l]) : 0; node *p;
        switch (op) {
        case 0: case 1: if (s >= 0) { if (vrp(30)) DL_LINK_INIT(N[s], link); DL_INSERT_HEAD(&D[l], N[s], link); m_ins(l, 0, s); } break;
        case 2: if (s >= 0) { DL_INSERT_TAIL(&D[l], N[s], link); m_ins(l, n[l], s); } break;
        case 3: if (s >= 0) { DL_APPEND(&D[l], N[s], link); m_ins(l, n[l], s); } break;
        case 13: if (n[j]) { int f = (int)vrn(4); /* moved in one expression */ if (f == 0) { DL_INSERT_TAIL(&D[l], DL_REMOVE_HEAD(&D[j], link), link); int e = m_del(j, 0); m_ins(l, n[l], e); } else if (f == 1) { DL_INSERT_HEAD(&D[l], DL_REMOVE_TAIL(&D[j], link), link); int e = m_del(j, n[j] - 1); m_ins(l, 0, e); } else if (l != j && n[l]) { if (f == 2) { DL_INSERT_AFTER(&D[l], DL_LAST(&D[l]), DL_REMOVE_TAIL(&D[j], link), link); int e = m_del(j, n[j] - 1); m_ins(l, n[l], e); } else { DL_INSERT_BEFORE(&D[l], DL_FIRST(&D[l]), DL_REMOVE_HEAD(&D[j], link), link); int e = m_del(j, 0); m_ins(l, 0, e); } } } break;
        case 4: if (s >= 0 && n[l]) { if (vrp(25)) { DL_INSERT_AFTER(&D[l], DL_LAST(&D[l]), N[s], link); m_ins(l, n[l], s); } else if (vrp(20)) { DL_INSERT_AFTER(&D[l], DL_FIRST(&D[l]), N[s], link); m_ins(l, 1, s); } else { DL_INSERT_AFTER(&D[l], N[M[l][pos]], N[s], link); m_ins(l, pos + 1, s); } } break;
        case 5: if (s >= 0 && n[l]) { if (vrp(25)) { DL_INSERT_BEFORE(&D[l], DL_FIRST(&D[l]), N[s], link); m_ins(l, 0, s); } else if (vrp(20)) { DL_INSERT_BEFORE(&D[l], DL_LAST(&D[l]), N[s], link); m_ins(l, n[l] - 1, s); } else { DL_INSERT_BEFORE(&D[l], N[M[l][pos]], N[s], link); m_ins(l, pos, s); } } break;
        case 6: case 7: if (n[l]) { if (vrp(20)) { DL_REMOVE(&D[l], DL_LAST(&D[l]), link); churn(m_del(l, n[l] - 1)); } else if (vrp(20)) { DL_REMOVE(&D[l], DL_FIRST(&D[l]), link); churn(m_del(l, 0)); } else { DL_REMOVE(&D[l], N[M[l][pos]], link); churn(m_del(l, pos)); } } break;
        case 8: p = DL_REMOVE_HEAD(&D[l], link); if (p != (n[l] ? N[M[l][0]] : 0)) vh_viol("dl:remove-head", "wrong node"); if (n[l]) churn(m_del(l, 0)); break;
        case 9: p = DL_REMOVE_TAIL(&D[l], link); if (p != (n[l] ? N[M[l][n[l] - 1]] : 0)) vh_viol("dl:remove-tail", "wrong node"); if (n[l]) churn(m_del(l, n[l] - 1)); break;
        case 10: if (l != j && vrp(40)) { DL_APPEND_LIST(&D[l], &D[j], link); m_cat(l, j, 0); } break;
        case 11: if (l != j && vrp(40)) { DL_PREPEND_LIST(&D[l], &D[j], link); m_cat(l, j, 1); } break;
        default: break; }
        sig = vh_h(sig, (uint64_t)(op * 100 + l * 10 + n[l])); dl_check();
    }
    done(); return sig;
}
static sl_head S[NL];
static void sl_check(void)
{
    for (int l = 0; l < NL; l++) {
        node *p, *t; int k = 0; SL_FOREACH(p, &S[l], sl) { EXPECT(k < n[l] && p->id == M[l][k], "sl:walk", "list %d differs at %d of %d", l, k, n[l]); k++; }
        EXPECT(k == n[l], "sl:walk", "list %d has %d elements, expected %d", l, k, n[l]);
        EXPECT(!!SL_EMPTY(&S[l]) == !n[l] && SL_FIRST(&S[l]) == (n[l] ? N[M[l][0]] : 0), "sl:ends", "first/emptiness of list %d", l);
        k = 0; SL_FOREACH_SAFE(p, &S[l], sl, t) { EXPECT(k < n[l] && p->id == M[l][k], "sl:safe-walk", "list %d differs at %d", l, k); k++; } EXPECT(k == n[l], "sl:safe-walk", "list %d: %d of %d", l, k, n[l]);
    }
}
static uint64_t sl_run(void)
{
    uint64_t sig = 2; setup(); sl_head z = SL_HEAD_INITIALIZER(z); for (int i = 0; i < NL; i++) { if (vrp(50)) SL_INIT(&S[i]); else S[i] = z; }
    for (int o = 0; o < ops && !vh_nviol; o++) {
        int l = (int)vrn(NL), op = (int)vrn(7), s = spare(), pos = n[l] ? (int)vrn((uint64_t)n[l]) : 0;
        switch (op) {
        case 0: case 1: if (s >= 0) { SL_INSERT_HEAD(&S[l], N[s], sl); m_ins(l, 0, s); } break;
        case 2: case 3: if (s >= 0 && n[l]) { if (vrp(25)) { SL_INSERT_AFTER(&S[l], SL_FIRST(&S[l]), N[s], sl); m_ins(l, 1, s); } else { SL_INSERT_AFTER(&S[l], N[M[l][pos]], N[s], sl); m_ins(l, pos + 1, s); } } break;
        case 4: case 5: if (n[l]) { SL_REMOVE_HEAD(&S[l], sl); churn(m_del(l, 0)); } break;
        default: if (vrp(10)) { node *p, *t; SL_FOREACH_SAFE(p, &S[l], sl, t) { int id = p->id; if (p != N[M[l][0]]) { vh_viol("sl:safe-walk", "unexpected node"); break; } m_del(l, 0); free(p); N[id] = malloc(sizeof(node)); memset(N[id], 0xbe, sizeof(node)); N[id]->id = id; N[id]->where = -1; } SL_INIT(&S[l]); } }
        sig = vh_h(sig, (uint64_t)(op * 100 + l * 10 + n[l])); sl_check();
    }
    done(); return sig;
}
static list_head H[NL];
static void ll_check(void)
{
    for (int l = 0; l < NL; l++) {
        list_head *p, *t; node *e, *f; int k = 0; list_for_each(p, &H[l]) { EXPECT(k < n[l] && list_entry(p, node, lh)->id == M[l][k], "llist:walk", "list %d differs at %d of %d", l, k, n[l]); k++; } EXPECT(k == n[l], "llist:walk", "%d of %d", k, n[l]);
        k = n[l]; list_for_each_prev(p, &H[l]) { k--; EXPECT(k >= 0 && list_entry(p, node, lh)->id == M[l][k], "llist:back", "list %d differs backward at %d", l, k); } EXPECT(!k, "llist:back", "short by %d", k);
        if (!n[l]) { list_for_each_entry(e, &H[l], lh) k++; list_for_each_entry_reverse(e, &H[l], lh) k++; list_for_each_entry_safe(e, f, &H[l], lh) k++; list_for_each_entry_safe_reverse(e, f, &H[l], lh) k++; EXPECT(k == 0, "llist:entry", "an empty list has %d entries", k); }
        if (n[l]) { k = 0; list_for_each_entry(e, &H[l], lh) { EXPECT(k < n[l] && e->id == M[l][k], "llist:entry", "differs at %d", k); k++; } EXPECT(k == n[l], "llist:entry", "%d of %d", k, n[l]);
          k = n[l]; list_for_each_entry_reverse(e, &H[l], lh) { k--; EXPECT(k >= 0 && e->id == M[l][k], "llist:entry-rev", "differs at %d", k); } EXPECT(!k, "llist:entry-rev", "short");
          k = 0; list_for_each_entry_safe(e, f, &H[l], lh) { EXPECT(k < n[l] && e->id == M[l][k], "llist:entry-safe", "differs at %d", k); k++; } EXPECT(k == n[l], "llist:entry-safe", "short");
          k = n[l]; list_for_each_entry_safe_reverse(e, f, &H[l], lh) { k--; EXPECT(k >= 0 && e->id == M[l][k], "llist:entry-safe-rev", "differs at %d", k); } EXPECT(!k, "llist:entry-safe-rev", "short");
          int i = (int)vrn((uint64_t)n[l]); e = N[M[l][i]]; k = i; list_for_each_entry_from(e, &H[l], lh) { EXPECT(k < n[l] && e->id == M[l][k], "llist:from", "differs"); k++; } EXPECT(k == n[l], "llist:from", "short");
          e = N[M[l][i]]; k = i + 1; list_for_each_entry_continue(e, &H[l], lh) { EXPECT(k < n[l] && e->id == M[l][k], "llist:continue", "differs"); k++; } EXPECT(k == n[l], "llist:continue", "short");
          e = N[M[l][i]]; k = i; list_for_each_entry_continue_reverse(e, &H[l], lh) { k--; EXPECT(k >= 0 && e->id == M[l][k], "llist:continue-rev", "differs"); } EXPECT(!k, "llist:continue-rev", "short");
          EXPECT(list_first_entry(&H[l], node, lh) == N[M[l][0]], "llist:first", "first entry"); EXPECT(!!list_is_last(&N[M[l][i]]->lh, &H[l]) == (i == n[l] - 1), "llist:last", "is_last"); }
        k = 0; list_for_each_safe(p, t, &H[l]) { EXPECT(k < n[l], "llist:safe", "long"); k++; } EXPECT(k == n[l], "llist:safe", "short"); k = 0; list_for_each_prev_safe(p, t, &H[l]) k++; EXPECT(k == n[l], "llist:prev-safe", "short");
        EXPECT(!!list_empty(&H[l]) == !n[l] && !!list_empty_careful(&H[l]) == !n[l] && !!list_is_singular(&H[l]) == (n[l] == 1), "llist:preds", "predicates of list %d with %d", l, n[l]);
    }
}
/* walks that remove and free what they stand on (all of it or some) */
static void zap(int id) { free(N[id]); N[id] = malloc(sizeof(node)); memset(N[id], 0xbe, sizeof(node)); N[id]->id = id; N[id]->where = -1; }
static void ll_purge(int l)
{
    static int O[NN]; int w = (int)vrn(7), all = vrp(40), on = n[l], k = 0, i = on ? (int)vrn((uint64_t)on) : 0, at = 0, seen = 0, lo = w == 2 ? i + 1 : w == 3 ? i : 0; list_head *p, *t; node *e, *f; memcpy(O, M[l], sizeof O);
    if (!on && (w == 2 || w == 3)) return;
#define STEP(ID, BACK) { int id = (ID); int want = (BACK) ? on - 1 - k : lo + k; if (want < 0 || want >= on || O[want] != id) { vh_viol("llist:purge", "walk %d met an unexpected element at step %d", w, k); return; } k++; seen++; if (all || vrp(50)) { for (at = 0; M[l][at] != id; at++); list_del(&N[id]->lh); m_del(l, at); zap(id); } }
    switch (w) {
    case 0: list_for_each_entry_safe(e, f, &H[l], lh) STEP(e->id, 0) break;
    case 1: list_for_each_entry_safe_reverse(e, f, &H[l], lh) STEP(e->id, 1) break;
    case 2: e = N[M[l][i]]; list_for_each_entry_safe_continue(e, f, &H[l], lh) STEP(e->id, 0) break;
    case 3: e = N[M[l][i]]; list_for_each_entry_safe_from(e, f, &H[l], lh) STEP(e->id, 0) break;
    case 4: list_for_each_safe(p, t, &H[l]) STEP(list_entry(p, node, lh)->id, 0) break;
    case 5: list_for_each_prev_safe(p, t, &H[l]) STEP(list_entry(p, node, lh)->id, 1) break;
    default: /* the next element is taken away during the walk, and the walk told so */
        list_for_each_entry_safe(e, f, &H[l], lh) { for (at = 0; M[l][at] != e->id; at++); seen++; if (at + 1 < n[l] && vrp(50)) { int id = M[l][at + 1]; list_del(&N[id]->lh); m_del(l, at + 1); list_safe_reset_next(e, f, lh); zap(id); on--; } }
        break; }
    if (seen != on - lo) vh_viol("llist:purge", "walk %d saw %d of %d elements", w, seen, on - lo);
    vh_count("purges", 1);
}
static uint64_t ll_run(void)
{
    uint64_t sig = 3; setup(); for (int i = 0; i < NL; i++) { if (vrp(50)) list_init(&H[i]); else { list_head t = LIST_HEAD_INIT(H[i]); H[i] = t; } }
    for (int o = 0; o < ops && !vh_nviol; o++) {
        int l = (int)vrn(NL), j = (int)vrn(NL), op = (int)vrn(18), s = spare(), pos = n[l] ? (int)vrn((uint64_t)n[l]) : 0; node *x = n[l] ? N[M[l][pos]] : 0; int id;
        switch (op) {
        case 0: case 1: if (s >= 0) { list_add(&N[s]->lh, &H[l]); m_ins(l, 0, s); } break;
        case 2: case 3: if (s >= 0) { list_add_tail(&N[s]->lh, &H[l]); m_ins(l, n[l], s); } break;
        case 4: if (x && s >= 0) { list_add(&N[s]->lh, &x->lh); m_ins(l, pos + 1, s); } break;
        case 5: if (x) { list_del(&x->lh); if (x->lh.next || x->lh.prev) vh_viol("llist:del", "links not cleared"); churn(m_del(l, pos)); } break;
        case 6: if (x) { list_del_init(&x->lh); if (!list_empty(&x->lh)) vh_viol("llist:del-init", "not reinitialized"); churn(m_del(l, pos)); } break;
        case 7: if (x && s >= 0) { list_replace(&x->lh, &N[s]->lh); id = m_del(l, pos); m_ins(l, pos, s); churn(id); } break;
        case 8: if (x && s >= 0) { list_replace_init(&x->lh, &N[s]->lh); if (!list_empty(&x->lh)) vh_viol("llist:replace-init", "not reinitialized"); id = m_del(l, pos); m_ins(l, pos, s); churn(id); } break;
        case 9: if (x) { list_move(&x->lh, &H[j]); id = m_del(l, pos); m_ins(j, 0, id); } break;
        case 10: if (x) { list_move_tail(&x->lh, &H[j]); id = m_del(l, pos); m_ins(j, n[j], id); } break;
        case 11: list_rotate_left(&H[l]); if (n[l]) { id = m_del(l, 0); m_ins(l, n[l], id); } break;
        case 12: if (l != j && vrp(40)) { list_splice_init(&H[j], &H[l]); m_cat(l, j, 1); } break;
        case 13: if (l != j && vrp(40)) { list_splice_tail_init(&H[j], &H[l]); m_cat(l, j, 0); } break;
        case 14: if (l != j && vrp(40)) { if (vrp(50)) { list_splice(&H[j], &H[l]); m_cat(l, j, 1); } else { list_splice_tail(&H[j], &H[l]); m_cat(l, j, 0); } list_init(&H[j]); } break;
        case 15: if (l != j && !n[j] && x) { list_cut_position(&H[j], &H[l], vrp(15) ? (pos = -1, &H[l]) : &x->lh); for (int i = 0; i <= pos; i++) { id = m_del(l, 0); m_ins(j, n[j], id); } } break;
        case 17: if (vrp(30)) ll_purge(l); break;
        default: break; }
        sig = vh_h(sig, (uint64_t)(op * 100 + l * 10 + n[l])); ll_check();
    }
    done(); return sig;
}
static hlist_head HH[NL];
static void hl_check(void)
{
    for (int l = 0; l < NL; l++) {
        hlist_node *p, *t; node *e; int k = 0; hlist_for_each(p, &HH[l]) { EXPECT(k < n[l] && hlist_entry(p, node, hn)->id == M[l][k], "hlist:walk", "list %d differs at %d of %d", l, k, n[l]); EXPECT(p->pprev == (k ? &N[M[l][k - 1]]->hn.next : &HH[l].first), "hlist:pprev", "back link of %d", k); k++; } EXPECT(k == n[l], "hlist:walk", "short");
        k = 0; hlist_for_each_entry(e, p, &HH[l], hn) { EXPECT(k < n[l] && e->id == M[l][k], "hlist:entry", "differs"); k++; } EXPECT(k == n[l], "hlist:entry", "short");
        k = 0; hlist_for_each_entry_safe(e, p, t, &HH[l], hn) { EXPECT(k < n[l] && e->id == M[l][k], "hlist:entry-safe", "differs"); k++; } EXPECT(k == n[l], "hlist:entry-safe", "short"); k = 0; hlist_for_each_safe(p, t, &HH[l]) k++; EXPECT(k == n[l], "hlist:safe", "short");
        EXPECT(!!hlist_empty(&HH[l]) == !n[l], "hlist:empty", "emptiness"); if (n[l]) { int i = (int)vrn((uint64_t)n[l]); k = i; p = &N[M[l][i]]->hn; hlist_for_each_entry_from(e, p, hn) { EXPECT(k < n[l] && e->id == M[l][k], "hlist:from", "differs"); k++; } EXPECT(k == n[l], "hlist:from", "short"); k = i + 1; p = &N[M[l][i]]->hn; hlist_for_each_entry_continue(e, p, hn) { EXPECT(k < n[l] && e->id == M[l][k], "hlist:continue", "differs"); k++; } EXPECT(k == n[l], "hlist:continue", "short"); }
    }
}
static void hl_purge(int l)
{
    int w = vrp(50), all = vrp(40), on = n[l], k = 0, at = 0; hlist_node *p, *t; node *e; static int O[NN]; memcpy(O, M[l], sizeof O);
#define HSTEP(ID) { int id = (ID); if (k >= on || O[k] != id) { vh_viol("hlist:purge", "walk met an unexpected element at step %d", k); return; } k++; if (all || vrp(50)) { for (at = 0; M[l][at] != id; at++); hlist_del(&N[id]->hn); m_del(l, at); zap(id); INIT_HLIST_NODE(&N[id]->hn); } }
    if (w) { hlist_for_each_safe(p, t, &HH[l]) HSTEP(hlist_entry(p, node, hn)->id) } else { hlist_for_each_entry_safe(e, p, t, &HH[l], hn) HSTEP(e->id) }
    if (k != on) vh_viol("hlist:purge", "saw %d of %d elements", k, on);
    /* a node that was made to look linked can be taken out of its list */
    { int s = spare(); if (s >= 0) { INIT_HLIST_NODE(&N[s]->hn); hlist_add_fake(&N[s]->hn); if (hlist_unhashed(&N[s]->hn)) vh_viol("hlist:fake", "not linked"); hlist_del(&N[s]->hn); INIT_HLIST_NODE(&N[s]->hn); } }
    vh_count("purges", 1);
}
static uint64_t hl_run(void)
{
    uint64_t sig = 4; setup(); for (int i = 0; i < NL; i++) INIT_HLIST_HEAD(&HH[i]); for (int i = 0; i < NN; i++) INIT_HLIST_NODE(&N[i]->hn);
    for (int o = 0; o < ops && !vh_nviol; o++) {
        int l = (int)vrn(NL), j = (int)vrn(NL), op = (int)vrn(9), s = spare(), pos = n[l] ? (int)vrn((uint64_t)n[l]) : 0; node *x = n[l] ? N[M[l][pos]] : 0;
        switch (op) {
        case 8: if (vrp(30)) hl_purge(l); break;
        case 0: case 1: if (s >= 0) { hlist_add_head(&N[s]->hn, &HH[l]); m_ins(l, 0, s); } break;
        case 2: if (x && s >= 0) { hlist_add_before(&N[s]->hn, &x->hn); m_ins(l, pos, s); } break;
        case 3: if (x && s >= 0) { hlist_add_after(&x->hn, &N[s]->hn); m_ins(l, pos + 1, s); } break;
        case 4: if (x) { hlist_del(&x->hn); if (!hlist_unhashed(&x->hn)) vh_viol("hlist:del", "still linked"); int id = m_del(l, pos); if (vrp(40)) { zap(id); INIT_HLIST_NODE(&N[id]->hn); } } break;
        case 5: if (x) { hlist_del_init(&x->hn); m_del(l, pos); if (!hlist_unhashed(&x->hn)) vh_viol("hlist:del", "still linked"); hlist_del_init(&x->hn); } break;
        case 6: if (l != j && !n[j] && vrp(40)) { hlist_move_list(&HH[l], &HH[j]); m_cat(j, l, 0); } break;
        default: break; }
        sig = vh_h(sig, (uint64_t)(op * 100 + l * 10 + n[l])); hl_check();
    }
    done(); return sig;
}
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        ops = 5 + (int)vrsz(vh_thorough ? 2000 : 300); int t = (int)vrn(4); vh_case("list kind=%d ops=%d", t, ops);
        uint64_t s = t == 0 ? dl_run() : t == 1 ? sl_run() : t == 2 ? ll_run() : hl_run();
        vh_count("ops", (uint64_t)ops); vh_count("evals", 1); vh_sig(s); if (c < 3) vh_sample("kind %d, %d operations", t, ops); if (vh_nviol) break;
    }
    return vh_end();
}
