/* Handler resolution: C21
 *   FIND    any registry with up to FORMS form types, chains of up to CHAINL tables of up to PER entries
 *   TABLE   large tables (binary search), TABLEN entries
 *   BIG     very large fixed registries: many form types, long tables, long chains */
#include "ref.h"
#ifndef FORMS
#define FORMS 2
#endif
#ifndef CHAINL
#define CHAINL 2
#endif
#ifndef PER
#define PER 2
#endif
/* ids: one symbolic byte in each position that decides the order, so that neighbours can be adjacent or far apart */
#ifdef BIG
static u32 nextid; static int fixed;
static u32 anyid(void) { if (!fixed) return vf_u32(); nextid += nextid % 3 == 0 ? 1 : nextid % 3 == 1 ? 0x100 : 0x1030405; return nextid; } /* neighbours adjacent or far apart */
#else
static u32 anyid(void) { return vf_u32(); }
#endif
static IFF_ChunkType *entries(int n) {
  IFF_ChunkType *t = h_alloc((n ? n : 1) * sizeof *t); int i; memset(t, 0, (n ? n : 1) * sizeof *t);
  for (i = 0; i < n; i++) { t[i].chunkId = anyid(); if (i) vf_assume(t[i - 1].chunkId < t[i].chunkId); }
  return t;
}
static IFF_ChunkTypesNode *chain(int len, int per) {
  IFF_ChunkTypesNode *first = NULL;
  while (len-- > 0) { IFF_ChunkTypesNode *n = h_alloc(sizeof *n); n->chunkTypesLength = per; n->chunkTypes = per ? entries(per) : NULL; n->parent = first; first = n; }
  return first;
}
static IFF_ChunkType *inchain(const IFF_ChunkTypesNode *n, u32 id) { unsigned i; for (; n; n = n->parent) for (i = 0; i < n->chunkTypesLength; i++) if (n->chunkTypes[i].chunkId == id) return &n->chunkTypes[i]; return NULL; }
static IFF_ChunkType defs[2];
static void build(IFF_ChunkRegistry *r, int k) { int i, nf; IFF_FormChunkTypes *f; r->defaultChunkType = &defs[k];
#ifdef BIG
  { int w = vf_choose(4), l; fixed = 1; nextid = 0x1020304;
    nf = w == 0 ? BIG : w == 1 ? 0 : 2; f = nf ? h_alloc(nf * sizeof *f) : NULL;
    for (i = 0; i < nf; i++) { f[i].formType = anyid(); nextid += 0x400000; }
    for (i = 0; i < nf; i++) { IFF_ChunkTypesNode *n = NULL; nextid = 0x1020304 + (u32)(i & 1) * 0x100; if (w == 2 && i == 1) n = chain(1, BIG); else if (w == 3 && i == 1) for (l = 0; l < 24; l++) { IFF_ChunkTypesNode *m = chain(1, 1 + l % 3); m->parent = n; n = m; } else n = chain(1, 1); f[i].chunkTypesNode = n; }
    nextid = 0x1020404; r->globalChunkTypesNode = NULL; for (l = 0; l < (w == 1 ? 24 : 2); l++) { IFF_ChunkTypesNode *m = chain(1, w == 1 && l == 3 ? BIG : 1 + l % 2); m->parent = r->globalChunkTypesNode; r->globalChunkTypesNode = m; }
    fixed = 0; }
#elif defined TABLE
  nf = vf_choose(2) ? TABLEN : 1; f = h_alloc(nf * sizeof *f);
  for (i = 0; i < nf; i++) { f[i].formType = anyid(); if (i) vf_assume(f[i - 1].formType < f[i].formType); f[i].chunkTypesNode = chain(1, nf == 1 ? TABLEN : 1); }
  r->globalChunkTypesNode = chain(1, nf == 1 ? 2 : TABLEN);
#else
  nf = vf_choose(FORMS + 1); f = nf ? h_alloc(nf * sizeof *f) : NULL;
  for (i = 0; i < nf; i++) { f[i].formType = anyid(); if (i) vf_assume(f[i - 1].formType < f[i].formType); { int l = i == 0 ? vf_choose(CHAINL + 1) : 1, p = i == 0 ? vf_choose(PER + 1) : 1; f[i].chunkTypesNode = chain(l, p); } }
  { int l = vf_choose(CHAINL + 1), p = 1 + vf_choose(PER); r->globalChunkTypesNode = chain(l, p); }
#endif
  r->formChunkTypesLength = nf; r->formChunkTypes = f;
}
static void find(const IFF_ChunkRegistry *r) {
  IFF_ChunkType *got, *want = NULL; u32 ft = anyid(), id = anyid(); int i, nf = (int)r->formChunkTypesLength; const IFF_FormChunkTypes *f = r->formChunkTypes; const IFF_ChunkType *def = r->defaultChunkType;
  got = IFF_findChunkType(r, ft, id);
  for (i = 0; i < nf; i++) if (f[i].formType == ft) { want = inchain(f[i].chunkTypesNode, id); if (want) vf_reach("by-form"); break; }
  if (i < nf && !want) vf_reach("form-without-it");
  if (!want && (want = inchain(r->globalChunkTypesNode, id))) vf_reach("global");
  if (!want) { want = (IFF_ChunkType *)def; vf_reach("default"); }
  vf_assert(got == want, "the handler for a chunk is not the one registered for it");
  { const IFF_ChunkTypesNode *n; int d = 0; for (n = r->globalChunkTypesNode; n; n = n->parent, d++) if (d && want >= n->chunkTypes && want < n->chunkTypes + n->chunkTypesLength) vf_reach(d > 1 ? "grandparent-table" : "parent-table"); }
  vf_obs(got == def);
}
void harness(void) {
  IFF_ChunkRegistry r[2]; memset(&defs, 0, sizeof defs); quiet();
  build(&r[0], 0); find(&r[0]);
#ifdef AGAIN
  { int k = vf_choose(2); if (k) build(&r[1], 1); find(&r[k]); vf_reach(k ? "other-registry" : "same-registry"); } /* an answer does not depend on earlier look-ups */
#endif
}
