/* The conformance check against the composition and size rules: C13 C14 C28 C30 */
#include "ref.h"
static void anysizes(rn *n) { int i; for (i = 0; i < n->np; i++) anysizes(n->prop[i]); for (i = 0; i < n->nk; i++) anysizes(n->kid[i]); n->size = vf_u32(); }
static int idx;
/* one node's size is wrong, all others follow their members */
static void onesize(rn *n, int w) { int i; for (i = 0; i < n->np; i++) onesize(n->prop[i], w); for (i = 0; i < n->nk; i++) onesize(n->kid[i], w); if (idx++ == w) n->size = vf_u32(); else if (n->kind != RAW) n->size = (u32)r_body(n); }
void harness(void) {
  rn *m; IFF_Chunk *c; IFF_Bool r; int want, base;
#ifdef SHAPES
  g_conf = 1; m = f_anyshape();
#ifdef WIDESIZES
  { int n = r_count(m), k = vf_choose(3); onesize(m, k == 0 ? 0 : k == 1 ? n / 2 : n - 1); }
#endif
#ifdef WIDETYPE
  /* one group anywhere has another type, or one member another kind */
  { rn *g = m; int d = 0, n = vf_choose(8); while (d++ < n && g->nk) { rn *k = g->kid[(g->nk - 1) * (n & 1)]; if (k->kind == RAW) break; g = k; } g->type = vf_choose(2) ? R_JJJJ : f_type(); }
#endif
#else
#ifdef MIXED
  g_mixed = 1; g_anycomp = 2; g_wild = vf_choose(NODES + 1) + 1;
#else
  g_conf = 1;
#endif
  g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX; g_lenchoice = 0;
  m = g_tree(vf_choose(5), 0);
#ifdef ANYSIZES
  anysizes(m);
#endif
#endif
  quiet(); base = vf_live_blocks(); c = g_build(m); env_diag_calls = 0; { int live = vf_live_blocks();
  if (P == 30) vf_snapshot();
  r = IFF_check(c, NULL); want = r_checkroot(m);
  if (P == 30) vf_assert(vf_snapshot_same(), "checking changes the hierarchy");
  CHK(23, vf_live_blocks() == live, "checking leaves memory allocated"); }
  vf_assert(r == TRUE || r == FALSE, "the check answers something else than yes or no");
  if (r) { vf_reach("conforming"); CHK(13, want, "a hierarchy that breaks the composition rules is declared conforming"); CHK(14, want, "a hierarchy with a wrong declared size is declared conforming"); CHK(28, !want || env_diag_calls == 0, "checking a conforming hierarchy is not silent"); }
  else { vf_reach("not-conforming"); CHK(13, !want, "a hierarchy that follows the rules is declared non-conforming"); CHK(14, !want, "a hierarchy with right sizes is declared non-conforming"); CHK(28, env_diag_calls > 0, "non-conformance is not explained"); }
  vf_obs(r); vf_obs(r_count(m));
  (void)base;
}
