/* Comparison against structural equality: C15 C28 C30 */
#include "ref.h"
#ifndef RAWMAX
#define RAWMAX 2
#endif
static rn *fresh(const rn *n) { /* same shape, other contents */
  rn *c = r_new(n->kind); int i; u32 k;
  if (n->kind == RAW) { c->id = g_rawid(); c->dlen = n->dlen; c->data = h_alloc(n->dlen + 1); if (n->dlen > 64) memcpy(c->data, n->data, n->dlen); else for (k = 0; k < n->dlen; k++) c->data[k] = vin_u8(); }
  else c->type = vf_u32();
  for (i = 0; i < n->np; i++) r_addprop(c, fresh(n->prop[i])); for (i = 0; i < n->nk; i++) r_addkid(c, fresh(n->kid[i]));
  c->size = n->kind == RAW ? n->size : vf_u32(); return c;
}
static void sizes(rn *n) { int i; for (i = 0; i < n->np; i++) sizes(n->prop[i]); for (i = 0; i < n->nk; i++) sizes(n->kid[i]); if (n->kind != RAW) n->size = vf_u32(); }
static rn *copy(const rn *n) { rn *c = h_alloc(sizeof *c); int i; *c = *n; c->np = c->nk = 0; c->prop = c->kid = NULL; for (i = 0; i < n->np; i++) r_addprop(c, copy(n->prop[i])); for (i = 0; i < n->nk; i++) r_addkid(c, copy(n->kid[i])); if (n->kind == RAW) { c->data = h_alloc(n->dlen + 1); if (n->dlen) memcpy(c->data, n->data, n->dlen); } return c; }
static rn *pick(rn *n, int *w) { int i; rn *r; if ((*w)-- == 0) return n; for (i = 0; i < n->np; i++) if ((r = pick(n->prop[i], w))) return r; for (i = 0; i < n->nk; i++) if ((r = pick(n->kid[i], w))) return r; return NULL; }
void harness(void) {
  rn *a, *b; IFF_Chunk *x, *y; int base, live, want; IFF_Bool r, r2;
#if defined(SHAPES)
  /* identical copies of a large hierarchy, one thing changed at one place */
  a = f_anyshape(); b = copy(a);
  { int n = r_count(a), w, what = vf_choose(6); rn *v; w = vf_choose(8); w = w < 3 ? w : w < 5 ? n / 2 + w - 3 : n - 1 - (w - 5); vf_assume(w >= 0 && w < n); v = pick(b, &w);
    if (what == 0) ;
    else if (what == 1) { if (v->kind == RAW) { v->id = f_rawid(); } else v->type = f_type(); }
    else if (what == 2) { vf_assume(v->kind != RAW); v->size = vf_u32(); }
    else if (what == 3) { u32 at; vf_assume(v->kind == RAW && v->dlen > 0); at = vf_choose(3); at = at == 0 ? 0 : at == 1 ? v->dlen / 2 : v->dlen - 1; v->data[at] = vin_u8(); }
    else if (what == 4) { vf_assume(v->kind != RAW); r_addkid(v, f_raw(0)); }
    else { vf_assume(v->nk > 0); v->nk--; } }
#elif defined(SAME)
  g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX;
  a = g_tree(vf_choose(4), 0); sizes(a); b = fresh(a);
#else
  g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX;
  a = g_tree(vf_choose(4), 0); g_nodes = NODES; b = g_tree(vf_choose(4), 0); if (P == 15) { sizes(a); sizes(b); } /* declared sizes right or wrong */
#endif
  quiet(); base = vf_live_blocks(); x = g_build(a);
#ifdef MEMBER /* one of the two is a member of a group */
  if (vf_choose(2)) { rn *w = m_grp(CAT, R_JJJJ); r_addkid(w, b); g_build(w); y = b->lib; } else y = g_build(b);
#else
  y = g_build(b);
#endif
  live = vf_live_blocks();
  if (P == 30) vf_snapshot();
  r = IFF_compare(x, y, NULL); r2 = IFF_compare(y, x, NULL); want = r_equal(a, b);
  if (P == 30) vf_assert(vf_snapshot_same(), "comparing changes a hierarchy");
  CHK(23, vf_live_blocks() == live, "comparing leaves memory allocated");
  CHK(28, env_diag_calls == 0, "comparing is not silent");
  if (P == 15) {
    vf_assert((r != 0) == (r2 != 0), "the answer depends on the order of the arguments");
    if (r) { vf_assert(want, "hierarchies that differ compare equal"); vf_assert(IFF_compare(x, x, NULL), "a hierarchy is not equal to itself"); } else vf_assert(!want, "equal hierarchies compare different");
  }
  vf_reach(r ? "equal" : "different"); if (r && a->np) vf_reach("equal-props"); vf_obs(r);
  if (P != 23) return; IFF_free(x, NULL); IFF_free(y, NULL); CHK(23, vf_live_blocks() == base, "memory left after freeing");
}
