/* Composing hierarchies through the interface: C16 C17 C31 (C23 C24 alongside)
 *   SEQ      any order of additions that merges CHUNKS chunks into hierarchies (C16)
 *   CROWD    very many members are added (C16 C17)
 *   UPDATE   members change size, sizes are recalculated from any chunk (C16)
 *   UPKEEP   additions with contents-type upkeep (C17)
 *   CREATE   constructors and data setters (C31) */
#include "ref.h"
/* the invariant of composed groups */
static int inv(const rn *n) {
  int ok, i; const IFF_Chunk *c = n->lib; u32 t = 4;
  if (n->kind == RAW) return 1;
  { const IFF_Group *g = (const IFF_Group *)c; if (g->chunkLength != (unsigned)n->nk) return 0;
    ok = g->groupType == n->type; ok &= c->chunkId == r_kindid(n->kind);
    for (i = 0; i < n->nk; i++) { const IFF_Chunk *k = g->chunk[i]; if (k != n->kid[i]->lib) return 0; ok &= k->parent == g; t += 8 + (u32)k->chunkSize + ((u32)k->chunkSize & 1); ok &= inv(n->kid[i]); } }
  if (n->kind == LIST) { const IFF_List *l = (const IFF_List *)c; if (l->propLength != (unsigned)n->np) return 0;
    for (i = 0; i < n->np; i++) { const IFF_Chunk *k = (const IFF_Chunk *)l->prop[i]; if (k != n->prop[i]->lib) return 0; ok &= (const void *)k->parent == (const void *)l; t += 8 + (u32)k->chunkSize + ((u32)k->chunkSize & 1); ok &= inv(n->prop[i]); } }
  return ok & ((u32)c->chunkSize == t);
}
static void addto(rn *g, rn *k, int how) {
  switch (g->kind) {
  case FORM: IFF_addToForm((IFF_Form *)g->lib, k->lib); break;
  case CAT: if (how) IFF_addToGroup((IFF_Group *)g->lib, k->lib); else IFF_addToCAT((IFF_CAT *)g->lib, k->lib); break;
  case LIST: if (k->kind == PROP) { IFF_addPropToList((IFF_List *)g->lib, (IFF_Prop *)k->lib); r_addprop(g, k); return; } IFF_addToList((IFF_List *)g->lib, k->lib); break;
  case PROP: IFF_addToProp((IFF_Prop *)g->lib, k->lib); break;
  }
  r_addkid(g, k);
}
static rn *node(int kind) {
  rn *n = r_new(kind);
  if (kind == RAW) { IFF_RawChunk *r; u8 *d; n->id = vf_u32(); vf_assume(!r_isgroup(n->id)); r = (IFF_RawChunk *)IFF_createRawChunk(n->id, 0); vf_assert(r != NULL, "no chunk was created"); n->size = vf_u32(); vf_assume(n->size < (1u << 26)); d = r->chunkData; IFF_setRawChunkData(r, d, (IFF_Long)n->size); n->lib = (IFF_Chunk *)r; return n; }
  n->type = vf_u32();
  n->lib = kind == FORM ? (IFF_Chunk *)IFF_createEmptyForm(n->type) : kind == CAT ? (IFF_Chunk *)IFF_createEmptyCATWithContentsType(n->type) : kind == LIST ? (IFF_Chunk *)IFF_createEmptyListWithContentsType(n->type) : (IFF_Chunk *)IFF_createEmptyProp(n->type);
  return n;
}
#ifdef SEQ
void harness(void) {
  rn *r[CHUNKS]; int n = CHUNKS, i, j, k, base; quiet(); base = vf_live_blocks();
  for (i = 0; i < n; i++) { k = vf_choose(5); if (i > 0 && r[i - 1]->kind > k) vf_assume(0); r[i] = node(k); } /* kinds in ascending order: the order of creation is irrelevant */
  while (n > 1) {
    int stop = vf_choose(2); if (stop) break;
    i = vf_choose(n); j = vf_choose(n); vf_assume(i != j && r[i]->kind != RAW);
    addto(r[i], r[j], vf_choose(r[i]->kind == CAT ? 2 : 1));
    CHK(16, r[j]->lib->parent == (IFF_Group *)r[i]->lib, "the member does not name the group as its parent");
    CHK(16, inv(r[i]), "order, parents or size of the group are wrong after an addition");
    for (k = j; k + 1 < n; k++) r[k] = r[k + 1]; n--;
    vf_reach("added");
  }
  for (i = 0; i < n; i++) { CHK(16, r[i]->lib->parent == NULL, "a chunk nobody contains has a parent"); CHK(16, inv(r[i]), "order, parents or sizes are wrong"); vf_obs((u32)r[i]->lib->chunkSize); IFF_free(r[i]->lib, NULL); }
  if (n == 1) vf_reach("single"); CHK(23, vf_live_blocks() == base, "memory left after freeing composed hierarchies");
}
#elif defined(CROWD)
/* CROWD additions to each kind of group; one addition, anywhere among a few places, is of any size or type */
void harness(void) {
  static const int at[] = {0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, CROWD - 1}; int kind = 1 + vf_choose(4), odd = at[vf_choose(16)], up = (kind == CAT || kind == LIST) && vf_choose(2), i, base, nk = 0, np = 0, mixed = 0; u32 t = g_validtype(), t2 = g_validtype(), total = 4; IFF_Chunk *c, *mem[CROWD]; IFF_Group *g;
  quiet(); base = vf_live_blocks();
  c = kind == FORM ? (IFF_Chunk *)IFF_createEmptyForm(t) : kind == PROP ? (IFF_Chunk *)IFF_createEmptyProp(t) : kind == CAT ? (IFF_Chunk *)IFF_createEmptyCATWithContentsType(t) : (IFF_Chunk *)IFF_createEmptyListWithContentsType(t);
  vf_assert(c != NULL, "nothing was created"); g = (IFF_Group *)c;
  for (i = 0; i < CROWD; i++) {
    IFF_Chunk *k; int prop = kind == LIST && i % 3 == 1 && i != odd;
    if (prop) k = (IFF_Chunk *)IFF_createEmptyProp(t);
    else if (kind == CAT || kind == LIST) { u32 ty = i == odd ? t2 : t; k = i % 5 == 2 ? (IFF_Chunk *)IFF_createEmptyListWithContentsType(ty) : i % 5 == 4 ? (IFF_Chunk *)IFF_createEmptyCATWithContentsType(ty) : (IFF_Chunk *)IFF_createEmptyForm(ty); if (i == odd) mixed = t2 != t; if (i == 0 && mixed) { mixed = 0; } }
    else { u32 s = i == odd ? vf_u32() : (u32)(i % 4); IFF_RawChunk *r = (IFF_RawChunk *)IFF_createRawChunk(MKID('A','B','C','D'), 4); vf_assume(s < (1u << 26)); r->chunkSize = (IFF_Long)s; k = (IFF_Chunk *)r; }
    mem[i] = k; total += 8 + (u32)k->chunkSize + ((u32)k->chunkSize & 1);
    if (kind == FORM) IFF_addToForm((IFF_Form *)c, k); else if (kind == PROP) IFF_addToProp((IFF_Prop *)c, k);
    else if (kind == CAT) { if (up) IFF_addToCATAndUpdateContentsType((IFF_CAT *)c, k); else IFF_addToCAT((IFF_CAT *)c, k); }
    else if (prop) IFF_addPropToList((IFF_List *)c, (IFF_Prop *)k); else if (up) IFF_addToListAndUpdateContentsType((IFF_List *)c, k); else IFF_addToList((IFF_List *)c, k);
    if (prop) np++; else nk++;
    CHK(16, (u32)c->chunkSize == total, "the size of the group is wrong after an addition"); CHK(16, k->parent == g, "the member does not name the group as its parent");
    CHK(16, g->chunkLength == (unsigned)nk && (kind != LIST || ((IFF_List *)c)->propLength == (unsigned)np), "a member was not added"); vf_reach("added");
    if (up && i > odd && i > 0 && odd == 0) { CHK(17, g->groupType == (t2 == t || nk == 1 ? t2 : R_JJJJ), "the contents type does not follow the members"); }
    else if (up && odd) CHK(17, g->groupType == (mixed ? R_JJJJ : t), "the contents type does not follow the members");
    if (up && mixed) vf_reach("mixed");
  }
  { int a = 0, b = 0; for (i = 0; i < CROWD; i++) { if (kind == LIST && mem[i]->chunkId == R_PROP) CHK(16, (IFF_Chunk *)((IFF_List *)c)->prop[b++] == mem[i], "the order of the members changed"); else CHK(16, g->chunk[a++] == mem[i], "the order of the members changed"); CHK(16, mem[i]->parent == g, "a member lost its parent"); } }
  if (up) vf_assert(IFF_check(c, NULL), "the composed group does not pass the check");
  vf_obs((u32)c->chunkSize); IFF_free(c, NULL); CHK(23, vf_live_blocks() == base, "memory left after freeing a composed group");
}
#elif defined(UPDATE)
static rn *all[512]; static int nall;
static void coll(rn *n) { int i; all[nall++] = n; for (i = 0; i < n->np; i++) coll(n->prop[i]); for (i = 0; i < n->nk; i++) coll(n->kid[i]); }
void harness(void) {
  rn *m, *w, *x; int i, k, base;
#ifdef SHAPES
  m = f_anyshape();
#else
  g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = 0; g_anycomp = 2; m = g_tree(vf_choose(5), 0);
#endif
  quiet(); base = vf_live_blocks(); g_build(m); coll(m);
  CHK(16, r_match(m, m->lib, NULL), "order, parents or sizes are wrong after composing");
  /* any chunk may have any size now */
#ifdef SHAPES
  for (k = 0; k < 3; k++) { i = k == 0 ? nall - 1 : k == 1 ? nall / 2 : 1; all[i]->size = vf_u32(); vf_assume(all[i]->size < (1u << 26)); }
  i = vf_choose(4); k = i == 0 ? 0 : i == 1 ? nall - 1 : i == 2 ? nall / 2 : 1;
#else
  for (i = 0; i < nall; i++) { all[i]->size = vf_u32(); vf_assume(all[i]->size < (1u << 26)); }
  k = vf_choose(nall);
#endif
  g_sizes(m);
  w = all[k]; IFF_updateChunkSizes(w->lib);
  for (x = w; x; x = x->parent) if (x->kind != RAW) { x->size = (u32)r_body(x); vf_reach("recalculated"); }
  for (i = 0; i < nall; i++) CHK(16, (u32)all[i]->lib->chunkSize == all[i]->size, "a size is wrong after recalculating");
  CHK(16, r_match(m, m->lib, NULL), "recalculating changed more than sizes");
  if (w->kind == RAW && w->parent) vf_reach("from-data"); if (w->parent && w->parent->parent) vf_reach("two-levels"); if (w->kind == PROP && w->parent) vf_reach("from-prop");
  vf_obs((u32)m->lib->chunkSize);
#ifndef SHAPES
  { int r; for (r = nall - 1; r >= 0; r--) if (all[r]->kind != RAW) { IFF_updateChunkSizes(all[r]->lib); }
    r_fixsizes_groups(m); CHK(16, r_match(m, m->lib, NULL), "a full bottom-up recalculation leaves wrong sizes"); }
#endif
  for (i = 0; i < nall; i++) if (all[i]->kind == RAW) all[i]->lib->chunkSize = 0;
  IFF_free(m->lib, NULL); CHK(23, vf_live_blocks() == base, "memory left after freeing a composed hierarchy");
}
#elif defined(UPKEEP)
void harness(void) {
  int list = vf_choose(2), n, i, diff = 0, base, how = vf_choose(2); u32 init = R_JJJJ, t0 = 0; IFF_Chunk *c; IFF_CAT *cat; rn *m; IFF_Chunk *mem[MEMBERS];
  quiet(); base = vf_live_blocks();
  if (how) init = vf_u32();
  c = list ? (IFF_Chunk *)(how ? IFF_createEmptyListWithContentsType(init) : IFF_createEmptyList()) : (IFF_Chunk *)(how ? IFF_createEmptyCATWithContentsType(init) : IFF_createEmptyCAT());
  cat = (IFF_CAT *)c; vf_assert(c != NULL, "nothing was created");
  CHK(17, cat->contentsType == init, "an empty group does not start with its contents type");
  n = MINM + vf_choose(MEMBERS - MINM + 1);
  for (i = 0; i < n; i++) {
    int k = FORM + vf_choose(3); u32 t; rn *x;
#ifdef FEWTYPES
    { static u32 pool[4]; if (!pool[0]) { pool[0] = g_validtype(); pool[1] = g_validtype(); pool[2] = R_JJJJ; } t = pool[vf_choose(k == FORM ? 2 : 3)]; }
#else
    if (k == FORM) t = g_validtype(); else t = vf_choose(2) ? R_JJJJ : g_validtype();
#endif
    x = r_new(k); x->type = t;
    x->lib = k == FORM ? (IFF_Chunk *)IFF_createEmptyForm(t) : k == CAT ? (IFF_Chunk *)IFF_createEmptyCATWithContentsType(t) : (IFF_Chunk *)IFF_createEmptyListWithContentsType(t);
    if (list && vf_choose(PROPS + 1)) { IFF_addPropToList((IFF_List *)c, IFF_createEmptyProp(g_validtype())); vf_reach("with-props"); }
    if (list) IFF_addToListAndUpdateContentsType((IFF_List *)c, x->lib); else IFF_addToCATAndUpdateContentsType(cat, x->lib);
    mem[i] = x->lib;
    if (i == 0) t0 = t; else diff |= t != t0;
    CHK(17, cat->contentsType == (diff ? R_JJJJ : t0), "the contents type does not follow the members");
    vf_reach(i == 0 ? "first" : "later");
    if (P == 17 || P == 16) vf_assert(cat->chunkLength == (unsigned)i + 1 && cat->chunk[i] == x->lib && x->lib->parent == (IFF_Group *)c, "the member was not appended");
  }
  for (i = 0; i < n; i++) CHK(17, cat->chunk[i] == mem[i], "the order of the members changed");
  if (n && P == 17) vf_assert(IFF_check(c, NULL), "the composed group does not pass the check");
  vf_obs((u32)c->chunkSize); (void)m;
  IFF_free(c, NULL); CHK(23, vf_live_blocks() == base, "memory left after freeing a composed group");
}
#else /* CREATE */
static void fresh_group(IFF_Chunk *c, u32 id, u32 size, int typed, u32 type, int list) {
  IFF_Group *g = (IFF_Group *)c; vf_assert(c != NULL, "nothing was created");
  vf_assert(c->chunkId == id, "a created group has the wrong id"); vf_assert((u32)c->chunkSize == size, "a created group has the wrong size"); vf_assert(c->parent == NULL, "a created group has a parent");
  vf_assert(g->chunkLength == 0, "a created group is not empty"); if (typed) vf_assert(g->groupType == type, "a created group has the wrong type");
  if (list) vf_assert(((IFF_List *)c)->propLength == 0, "a created list has shared properties");
  /* usable: a member can be added and the result can be freed */
  { IFF_Chunk *k = IFF_createRawChunk(MKID('A','B','C','D'), 3); IFF_addToGroup(g, k); vf_assert(g->chunkLength == 1 && g->chunk[0] == k, "a created group cannot take a member"); }
  if (list) { IFF_Prop *p = IFF_createEmptyProp(MKID('A','B','C','D')); IFF_addPropToList((IFF_List *)c, p); vf_assert(((IFF_List *)c)->propLength == 1 && ((IFF_List *)c)->prop[0] == p, "a created list cannot take shared properties"); }
  IFF_free(c, NULL);
}
void harness(void) {
  int base; quiet(); base = vf_live_blocks();
  int what = vf_choose(5);
  if (what == 0) { /* groups */
    u32 type = vf_u32(), size = vf_u32(); 
    switch (vf_choose(14)) {
    case 0: vf_assume(size < (1u << 30)); fresh_group((IFF_Chunk *)IFF_createForm((IFF_Long)size, type), R_FORM, size, 1, type, 0); break;
    case 1: fresh_group((IFF_Chunk *)IFF_createEmptyForm(type), R_FORM, 4, 1, type, 0); break;
    case 2: vf_assume(size < (1u << 30)); fresh_group((IFF_Chunk *)IFF_createCAT((IFF_Long)size, type), R_CAT, size, 1, type, 0); break;
    case 3: fresh_group((IFF_Chunk *)IFF_createEmptyCATWithContentsType(type), R_CAT, 4, 1, type, 0); break;
    case 4: fresh_group((IFF_Chunk *)IFF_createEmptyCAT(), R_CAT, 4, 1, R_JJJJ, 0); break;
    case 5: vf_assume(size < (1u << 30)); fresh_group((IFF_Chunk *)IFF_createList((IFF_Long)size, type), R_LIST, size, 1, type, 1); break;
    case 6: fresh_group((IFF_Chunk *)IFF_createEmptyListWithContentsType(type), R_LIST, 4, 1, type, 1); break;
    case 7: fresh_group((IFF_Chunk *)IFF_createEmptyList(), R_LIST, 4, 1, R_JJJJ, 1); break;
    case 8: vf_assume(size < (1u << 30)); fresh_group((IFF_Chunk *)IFF_createProp((IFF_Long)size, type), R_PROP, size, 1, type, 0); break;
    case 9: fresh_group((IFF_Chunk *)IFF_createEmptyProp(type), R_PROP, 4, 1, type, 0); break;
    case 10: vf_assume(size < (1u << 30)); fresh_group(IFF_createUnparsedForm(R_FORM, (IFF_Long)size), R_FORM, size, 0, 0, 0); break;
    case 11: vf_assume(size < (1u << 30)); fresh_group(IFF_createUnparsedCAT(R_CAT, (IFF_Long)size), R_CAT, size, 0, 0, 0); break;
    case 12: vf_assume(size < (1u << 30)); fresh_group(IFF_createUnparsedList(R_LIST, (IFF_Long)size), R_LIST, size, 0, 0, 1); break;
    default: vf_assume(size < (1u << 30)); fresh_group(IFF_createUnparsedProp(R_PROP, (IFF_Long)size), R_PROP, size, 0, 0, 0); break;
    }
    vf_reach("group");
  } else if (what == 1) { /* a data chunk of any size has room for that many bytes */
    u32 id = vf_u32(), size = vf_u32(); IFF_RawChunk *r; vf_assume(!(size >> 31));
    r = (IFF_RawChunk *)IFF_createRawChunk(id, (IFF_Long)size); vf_assert(r != NULL, "nothing was created");
    vf_assert(r->chunkId == id, "a created chunk has the wrong id"); vf_assert((u32)r->chunkSize == size, "a created chunk has the wrong size"); vf_assert(r->parent == NULL, "a created chunk has a parent");
    vf_touch(r->chunkData, size, 1); vf_reach("any-size"); vf_assume(!r_isgroup(id)); IFF_free((IFF_Chunk *)r, NULL);
  } else if (what == 2) { /* copying data: every length up to LEN, then some around powers of two */
    static const u32 more[] = {63, 64, 65, 127, 128, 255, 256, 257, 1000, 4097, 65535, 65536, 65537}; u32 n = (u32)vf_choose(LEN + 1 + (int)(sizeof more / sizeof *more)), i; int ok = 1; IFF_RawChunk *r; u8 *d;
    if (n > LEN) n = more[n - LEN - 1];
    r = (IFF_RawChunk *)IFF_createRawChunk(MKID('D','A','T','A'), (IFF_Long)n); d = h_alloc(n + 1); memset(d, 7, n); for (i = 0; i < n; i++) if (i < 20 || i >= n - 4 || i == n / 2) d[i] = vin_u8(); d[n] = 0xee;
    IFF_copyDataToRawChunkData(r, d);
    for (i = 0; i < n; i++) ok &= r->chunkData[i] == d[i];
    vf_assert(ok, "the chunk does not hold the copied data"); vf_assert(r->chunkSize == (IFF_Long)n, "copying data changed the size"); vf_assert(r->chunkId == MKID('D','A','T','A') && r->parent == NULL, "copying data changed id or parent");
    IFF_free((IFF_Chunk *)r, NULL); vf_reach("copied");
  } else if (what == 3) { /* attaching a buffer */
    u32 n = vf_u32(), id = vf_u32(); u8 *d; IFF_RawChunk *r; u8 *old; vf_assume(!r_isgroup(id)); vf_assume(!(n >> 31));
    r = (IFF_RawChunk *)IFF_createRawChunk(id, (IFF_Long)vf_choose(3)); old = r->chunkData; d = env_malloc(8); d[0] = vin_u8(); { u8 v = d[0];
    IFF_setRawChunkData(r, d, (IFF_Long)n); vf_assert(r->chunkData == d && (u32)r->chunkSize == n && d[0] == v, "attaching a buffer does not take over that buffer and its size"); vf_assert(r->chunkId == id && r->parent == NULL, "attaching a buffer changed id or parent"); }
    if (vf_is_live(old)) env_free(old); IFF_free((IFF_Chunk *)r, NULL); vf_reach("attached");
  } else { /* text, possibly several times */
    IFF_RawChunk *r = (IFF_RawChunk *)IFF_createRawChunk(vf_choose(2) ? R_TEXT : MKID('N','A','M','E'), (IFF_Long)vf_choose(3)); u32 id = r->chunkId; int rep = 1 + vf_choose(2);
    while (rep--) {
      static const u32 more[] = {127, 128, 255, 256, 257, 65536}; u32 n = (u32)vf_choose(LEN + 1 + (int)(sizeof more / sizeof *more)), i; int ok = 1; char *s;
      if (n > LEN) n = more[n - LEN - 1];
      s = h_alloc(n + 1); memset(s, 'x', n); for (i = 0; i < n; i++) if (i < 20 || i >= n - 4) { u8 v = vin_u8(); vf_assume(v); s[i] = (char)v; } s[n] = 0;
      IFF_setTextData(r, s); vf_assert((u32)r->chunkSize == n, "the size is not the length of the text");
      for (i = 0; i < n; i++) ok &= r->chunkData[i] == (u8)s[i];
      vf_assert(ok, "the chunk does not hold the text"); vf_assert(vf_block_size(r->chunkData) >= n, "no room for the text"); vf_assert(r->chunkId == id && r->parent == NULL, "setting text changed id or parent");
      memset(s, 0, n); ok = 1; for (i = 0; i < n; i++) ok &= r->chunkData[i] != 0; vf_assert(ok, "the chunk shares the caller's text");
    }
    IFF_free((IFF_Chunk *)r, NULL); vf_reach("text");
  }
  vf_assert(vf_live_blocks() == base, "memory left after freeing a chunk");
}
#endif
