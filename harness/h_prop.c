/* Shared properties: C19 C30
 *   TREE   any hierarchy of NODES chunks, any form in it
 *   BIG    many enclosing groups, many shared-property groups of many chunks
 *   CHAIN  LEVELS enclosing groups, shared properties at every list, siblings and inner lists */
#include "ref.h"
static rn *forms[64]; static int nforms;
static void coll(rn *n) { int i; if (n->kind == FORM) forms[nforms++] = n; for (i = 0; i < n->nk; i++) coll(n->kid[i]); }
static void distinct(rn *n) { int i, j; for (i = 0; i < n->np; i++) for (j = 0; j < i; j++) vf_assume(n->prop[i]->type != n->prop[j]->type); for (i = 0; i < n->nk; i++) distinct(n->kid[i]); }
static IFF_Chunk *expect(rn *f, u32 id) {
  int i, j; rn *p;
  for (i = 0; i < f->nk; i++) if (f->kid[i]->id == id) return f->kid[i]->lib;
  for (p = f->parent; p; p = p->parent) if (p->kind == LIST) for (i = 0; i < p->np; i++) if (p->prop[i]->type == f->type) for (j = 0; j < p->prop[i]->nk; j++) if (p->prop[i]->kid[j]->id == id) return p->prop[i]->kid[j]->lib;
  return NULL;
}
#ifdef BIG
static rn *fix1(int k) { rn *n = r_new(RAW); n->id = MKID('A' + (k & 3), 'A' + (k >> 2 & 7), 'A' + (k >> 5 & 7), 'A' + (k >> 8)); n->data = h_alloc(1); return n; }
#endif
#ifdef CHAIN
#ifndef PROPCH
#define PROPCH 1
#endif
static rn *raw1(void) { rn *n = r_new(RAW); n->id = vf_u32(); vf_assume(!r_isgroup(n->id)); n->data = h_alloc(1); return n; }
static rn *prop1(void) { rn *p = r_new(PROP); p->type = vf_u32(); r_addkid(p, raw1()); if (PROPCH > 1 && vf_choose(2)) r_addkid(p, raw1()); return p; }
static rn *list1(int props) { rn *l = r_new(LIST); l->type = vf_u32(); while (props--) r_addprop(l, prop1()); return l; }
#endif
void harness(void) {
  rn *m, *f; u32 id; IFF_Chunk *c, *w; int base, live, i;
#ifdef BIG
  /* BIG nested groups; lists with up to BIG shared-property groups, one of them with up to BIG chunks */
  { rn *cur; int lv = BIG, j, k, which = vf_choose(4), own = vf_choose(2); f = r_new(FORM); f->type = MKID('T','Y','P','0' + which); if (own) for (i = 0; i < BIG; i++) r_addkid(f, fix1(i * 5 + 1)); cur = f;
    for (i = 0; i < lv; i++) { rn *g; 
      if (i % 4 == 1) { g = r_new(LIST); g->type = f->type; k = i == 1 ? BIG : i % 8 == 5 ? 2 : 0; for (j = 0; j < k; j++) { rn *p = r_new(PROP); int t = i == 1 ? j % 4 ? -j : j / 4 : j; p->type = t >= 0 && t < 4 ? MKID('T','Y','P','0' + t) : MKID('Q','0' + (j & 7), '0' + (j >> 3 & 7), '0' + (j >> 6)); { int c = i == 1 && j == 4 ? BIG : 1 + i / 8; while (c--) r_addkid(p, fix1(i == 1 ? c * 3 : c * 2 + i)); } r_addprop(g, p); } }
      else { g = r_new(i % 4 == 3 ? FORM : CAT); g->type = f->type; if (i % 4 == 3) r_addkid(g, fix1(i)); }
      r_addkid(g, cur); cur = g; }
    m = cur; }
#elif defined CHAIN
  rn *cur; int lv = LEVELS; f = r_new(FORM); f->type = vf_u32(); if (vf_choose(2)) r_addkid(f, raw1()); if (vf_choose(2)) { rn *in = list1(1); rn *g = r_new(FORM); g->type = f->type; r_addkid(in, g); r_addkid(f, in); }
  cur = f;
  while (lv--) { int k = 1 + vf_choose(3); rn *g = k == LIST ? list1(vf_choose(PROPS + 1)) : r_new(k); if (k != LIST) g->type = vf_u32();
    if (lv == 0 && k != FORM && vf_choose(2)) r_addkid(g, list1(1)); /* a sibling list */
    if (k == FORM && vf_choose(2)) r_addkid(g, raw1()); /* a chunk of an enclosing form is not inherited */
    r_addkid(g, cur); cur = g; }
  m = cur; i = 0;
#else
  g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = 0; g_lenchoice = 0;
  m = g_tree(1 + vf_choose(3), 0); coll(m); vf_assume(nforms > 0); f = forms[vf_choose(nforms)];
#endif
  id = vf_u32(); distinct(m);
#ifdef NOGROUP
  vf_assume(!r_isgroup(id));
#endif
  r_fixsizes(m); quiet(); base = vf_live_blocks(); g_build(m); live = vf_live_blocks(); env_diag_calls = 0;
  if (P == 30) vf_snapshot();
  c = IFF_getChunkFromForm((IFF_Form *)f->lib, id);
  if (P == 30) vf_assert(vf_snapshot_same(), "looking up a property changes the hierarchy");
  w = expect(f, id);
  CHK(19, c == w, "a property lookup does not return the chunk in scope"); CHK(28, env_diag_calls == 0, "looking up a property is not silent"); CHK(23, vf_live_blocks() == live, "looking up a property leaves memory allocated");
  if (!w) vf_reach("none"); else { rn *q; for (q = f->parent; q && q->lib != (IFF_Chunk *)w->parent->parent; q = q->parent) ; if (w->parent == (IFF_Group *)f->lib) vf_reach("own"); else { int outer = 0; rn *p; vf_reach("shared"); for (p = f->parent; p && p->lib != (IFF_Chunk *)w->parent->parent; p = p->parent) if (p->kind == LIST) outer = 1; if (outer) vf_reach("shared-by-outer-list"); } }
  if (w) vf_obs(w->chunkId == id); (void)i;
  if (P != 23) return; IFF_free(m->lib, NULL); CHK(23, vf_live_blocks() == base, "memory left after freeing");
}
