/* Form search and collecting chunks of a form: C18 C20 C23 C28 C30
 *   FORMS    searching forms by type (C18)
 *   CHUNKS   chunks of a form by id (C20); MANY, CROWD: many members */
#include "ref.h"
#ifdef FORMS
static u32 st[8]; static int nst; static rn *want[512]; static int nwant;
static void expect(rn *n) {
  int i, hit = 0;
  if (n->kind == RAW || n->kind == PROP) return;
  if (n->kind == FORM) { for (i = 0; i < nst; i++) hit |= n->type == st[i]; if (hit) { want[nwant++] = n; return; } }
  for (i = 0; i < n->nk; i++) expect(n->kid[i]);
}
static rn *nth(rn *n, int *k) { int i; rn *r; if (n->kind != PROP && n->kind != RAW && (*k)-- == 0) return n; for (i = 0; i < n->nk; i++) if (n->kid[i]->kind != PROP && (r = nth(n->kid[i], k))) return r; return NULL; }
void harness(void) {
  rn *m, *at; IFF_Form **r; unsigned int len = 12345; int base, live, i, multi = vf_choose(2);
#ifdef SHAPES
  m = f_anyshape();
  /* the searched types: symbolic, and the type of a group somewhere in the hierarchy */
  nst = multi ? 2 : 1; { int k = vf_choose(4); rn *x = m; while (k-- && x->nk) { rn *y = x->kid[x->nk - 1]; if (y->kind == RAW) y = x->kid[0]; if (y->kind == RAW) break; x = y; } st[0] = x->type; } if (nst > 1) st[1] = vf_u32();
  at = m;
#else
  g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = 0; g_anycomp = 1;
  m = g_tree(vf_choose(5), 0);
  nst = multi ? vf_choose(NTYPES + 1) : 1; for (i = 0; i < nst; i++) st[i] = vf_u32();
  at = m; if (m->nk) at = m->kid[0]->kind != RAW && vf_choose(2) ? m->kid[0] : m; /* from the root or from a member */
#endif
  quiet(); base = vf_live_blocks(); g_build(m); live = vf_live_blocks(); env_diag_calls = 0;
  if (P == 30) vf_snapshot();
  r = multi ? IFF_searchFormsFromArray(at->lib, (const IFF_ID *)st, (unsigned)nst, &len) : IFF_searchForms(at->lib, st[0], &len);
  if (P == 30) vf_assert(vf_snapshot_same(), "searching changes the hierarchy");
  CHK(28, env_diag_calls == 0, "searching is not silent");
  expect(at);
  CHK(18, len == (unsigned)nwant, "the number of found forms is wrong");
  if (P == 18 && nwant) { vf_assert(r != NULL, "no array of found forms"); vf_assert(vf_block_size(r) >= (size_t)nwant * sizeof *r, "the array is too small for the forms"); for (i = 0; i < nwant; i++) vf_assert((IFF_Chunk *)r[i] == want[i]->lib, "a found form is wrong, missing, repeated or out of order"); }
  vf_obs(len); vf_reach(nwant == 0 ? "none" : nwant == 1 ? "one" : "several"); if (multi && nst > 1) vf_reach("set"); if (nst == 0) vf_reach("empty-set");
  if (r) env_free(r);
  CHK(23, vf_live_blocks() == live, "searching leaves more allocated than its result");
  CHK(18, r_match(m, m->lib, NULL), "searching changed the hierarchy");
  if (P != 23) return; IFF_free(m->lib, NULL); CHK(23, vf_live_blocks() == base, "memory left after freeing");
}
#else
void harness(void) {
  rn *m = r_new(FORM), *first = NULL; int i, n, base, live, cnt = 0, k; u32 id; unsigned len = 999; IFF_Chunk **r, *c; IFF_Form *f;
  m->type = vf_u32();
#ifdef CROWD
  /* up to CROWD members of five ids and every kind; the wanted id is one of them or symbolic */
  { static const u32 ids[] = {MKID('A','A','A','A'), MKID('B','B','B','B'), R_CAT, R_FORM, MKID('A','A','A','B')}; static const int ns[] = {17, 33, 65, 100, 129, 257, CROWD}; int w; n = ns[vf_choose(7)];
    for (i = 0; i < n; i++) { rn *x = i % 7 == 3 ? r_new(CAT) : i % 11 == 5 ? r_new(FORM) : r_new(RAW); if (x->kind == RAW) { x->id = i == n / 2 ? vf_u32() : ids[i % 3 == 2 ? 4 : i & 1]; if (i == n / 2) vf_assume(!r_isgroup(x->id)); x->data = h_alloc(1); } else x->type = ids[4]; r_addkid(m, x); }
    w = vf_choose(6); id = w < 5 ? ids[w] : vf_u32(); }
#elif defined MANY
  n = MANY; for (i = 0; i < n; i++) { rn *x = r_new(RAW); x->id = vf_choose(2) ? MKID('A','A','A','A') : MKID('B','B','B','B'); x->data = h_alloc(1); r_addkid(m, x); }
  id = MKID('A','A','A','A');
#else
  n = vf_choose(MEMBERS + 1);
  for (i = 0; i < n; i++) { k = vf_choose(3); if (k < 2) { rn *x = r_new(RAW); x->id = vf_u32(); vf_assume(!r_isgroup(x->id)); x->size = x->dlen = (u32)k; x->data = sym_bytes((u32)k); r_addkid(m, x); } else { rn *x = r_new(FORM + vf_choose(3)); rn *y = r_new(RAW); x->type = vf_u32(); y->id = vf_u32(); vf_assume(!r_isgroup(y->id)); y->data = sym_bytes(0); r_addkid(x, y); r_addkid(m, x); } }
  id = vf_u32();
#endif
  r_fixsizes(m); quiet(); base = vf_live_blocks(); f = (IFF_Form *)g_build(m); live = vf_live_blocks(); env_diag_calls = 0;
  if (P == 30) vf_snapshot();
  r = IFF_getChunksFromForm(f, id, &len);
  for (i = 0; i < n; i++) if (m->kid[i]->id == id) { if (!first) first = m->kid[i]; CHK(20, r != NULL && len > (unsigned)cnt && r[cnt] == m->kid[i]->lib, "a collected chunk is wrong, missing or out of order"); cnt++; }
  CHK(20, len == (unsigned)cnt, "the number of collected chunks is wrong"); CHK(20, cnt || r == NULL, "an array although nothing was found");
  c = IFF_getDataChunkFromForm(f, id); CHK(20, c == (first ? first->lib : NULL), "retrieving a single chunk does not return the first one");
  c = IFF_getChunkFromForm(f, id); CHK(20, c == (first ? first->lib : NULL), "looking up a chunk does not return the first one");
  { IFF_Prop *p = (IFF_Prop *)f; c = IFF_getChunkFromProp(p, id); CHK(20, c == (first ? first->lib : NULL), "retrieving a shared chunk does not return the first one"); }
  if (P == 30) vf_assert(vf_snapshot_same(), "looking up chunks changes the form");
  CHK(28, env_diag_calls == 0, "looking up chunks is not silent");
  vf_obs(len); vf_reach(cnt == 0 ? "none" : cnt == 1 ? "one" : "several");
  if (r) { CHK(20, vf_block_size(r) >= cnt * sizeof *r, "the array is too small"); env_free(r); }
  CHK(23, vf_live_blocks() == live, "looking up chunks leaves more allocated than its result");
  if (P != 23) return; IFF_free((IFF_Chunk *)f, NULL); CHK(23, vf_live_blocks() == base, "memory left after freeing");
}
#endif
