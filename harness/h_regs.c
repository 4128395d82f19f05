/* Which handlers serve an operation depends on the registry that is given to it
 * and on what that registry holds at that moment: C32 (C22 alongside)
 *   two operations on one hierarchy, each with any of two application registries or none */
#include "ref.h"
#define ID_TEST MKID('T','E','S','T')
#define ID_OTHR MKID('O','T','H','R')
#define ID_EXTN MKID('E','X','T','N')
#define ID_GLBX MKID('G','L','B','X')
enum { READ, WRITE, CHECK, PRINT, COMPARE, FREE, NOPS, CREATE };
typedef struct { int op, h; IFF_ID id; } entry; static entry lg[64]; static int nlg, on;
static void note(int op, int h, IFF_ID id) { if (on && nlg < 64) { lg[nlg].op = op; lg[nlg].h = h; lg[nlg++].id = id; } }
#define HANDLER(n, h) \
static IFF_Chunk *n##_c(const IFF_ID i, const IFF_Long s) { note(CREATE, h, i); return IFF_createRawChunk(i, s); } \
static IFF_Bool n##_r(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *p) { note(READ, h, c->chunkId); return IFF_readRawChunk(f, c, r, p); } \
static IFF_Bool n##_w(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *p) { note(WRITE, h, c->chunkId); return IFF_writeRawChunk(f, c, r, p); } \
static IFF_Bool n##_k(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { note(CHECK, h, c->chunkId); return IFF_checkRawChunk(c, r); } \
static void n##_f(IFF_Chunk *c, const IFF_ChunkRegistry *r) { note(FREE, h, c->chunkId); IFF_freeRawChunk(c, r); } \
static void n##_p(const IFF_Chunk *c, const unsigned int i, const IFF_ChunkRegistry *r) { note(PRINT, h, c->chunkId); IFF_printRawChunk(c, i, r); } \
static IFF_Bool n##_m(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { note(COMPARE, h, a->chunkId); return IFF_compareRawChunk(a, b, r); }
#define ENTRY(n, id) {id, &n##_c, &n##_r, &n##_w, &n##_k, &n##_f, &n##_p, &n##_m}
HANDLER(a, 1) HANDLER(b, 2) HANDLER(g, 3) HANDLER(d, 4)
static IFF_ChunkType ta[] = {ENTRY(a, ID_EXTN)}, tb[] = {ENTRY(b, ID_EXTN)}, tg[] = {ENTRY(g, ID_GLBX)}, dflt = ENTRY(d, 0);
static IFF_ChunkTypesNode na = {1, ta, NULL}, nb = {1, tb, NULL}, ng;
static IFF_FormChunkTypes fa[] = {{ID_TEST, &na}}, fb[] = {{ID_TEST, &nb}};
static IFF_ChunkRegistry ra, rb;
static const IFF_ChunkRegistry *pick(int *k) { *k = vf_choose(3); return *k == 0 ? NULL : *k == 1 ? &ra : &rb; }
static int changed; /* the first registry no longer has a handler of its own for EXTN */
static int handler(int k, u32 form, u32 id) { if (k == 0) return 0; if (k == 1 && form == ID_TEST && id == ID_EXTN && !changed) return 1; if (k == 2 && form == ID_TEST && id == ID_EXTN) return 2; if (k == 1 && id == ID_GLBX) return 3; return k == 2 ? 4 : 0; }
static IFF_Group *group(IFF_Chunk *c) { IFF_Group *p = (IFF_Group *)c; while (p->chunkId != R_FORM) p = (IFF_Group *)p->chunk[0]; return p; }
static int calls(int op, int h, IFF_ID id) { int i, n = 0; for (i = 0; i < nlg; i++) n += lg[i].op == op && lg[i].h == h && lg[i].id == id; return n; }
static int anycall(int op) { int i, n = 0; for (i = 0; i < nlg; i++) n += lg[i].op == op; return n; }
void harness(void) {
  u32 form = vf_choose(2) ? ID_TEST : ID_OTHR, ids[2]; rn *m, *f = f_grp(FORM, form), *top = f; int i, k, o, op, wrap = vf_choose(3), base; u8 *e; size_t n; IFF_Chunk *c, *c2; const IFF_ChunkRegistry *r;
  ng.chunkTypesLength = 1; ng.chunkTypes = tg; ng.parent = (IFF_ChunkTypesNode *)&IFF_globalChunkTypesNode;
  ra.formChunkTypesLength = 1; ra.formChunkTypes = fa; ra.globalChunkTypesNode = &ng; ra.defaultChunkType = (IFF_ChunkType *)&IFF_defaultChunkType;
  rb.formChunkTypesLength = 1; rb.formChunkTypes = fb; rb.globalChunkTypesNode = (IFF_ChunkTypesNode *)&IFF_globalChunkTypesNode; rb.defaultChunkType = &dflt;
  quiet(); base = vf_live_blocks(); env_out = env_new_out(20000);
  ids[0] = ID_EXTN; ids[1] = vf_choose(2) ? ID_GLBX : ID_EXTN;
  for (i = 0; i < 2; i++) { m = r_new(RAW); m->id = ids[i]; m->data = (u8 *)"xyz"; m->size = m->dlen = (u32)(i + 1); r_addkid(f, m); }
  if (wrap) { top = f_grp(wrap == 1 ? CAT : LIST, form); r_addkid(top, f); } r_fixsizes(top); n = (size_t)r_total(top); e = h_alloc(n); r_encode(top, e, 0);
  c = g_build(top); c2 = IFF_readFd(EF(env_new_in(e, n)), NULL); vf_assume(c2 != NULL);
  for (o = 0; o < 2; o++) {
    IFF_Chunk *x = NULL; IFF_Bool ok = TRUE; int one = vf_choose(2); IFF_Chunk *t = c, *t2 = c2;
    op = vf_choose(NOPS); r = pick(&k); nlg = 0; on = 1;
    if (one) { t = group(c)->chunk[0]; t2 = group(c2)->chunk[0]; if (!r) r = &IFF_defaultChunkRegistry; }
    switch (op) {
    case READ: { env_file *in = env_new_in(one ? e + (n - (size_t)r_total(f)) + 12 : e, one ? 10 : n); x = one ? IFF_readChunk(EF(in), form, r) : IFF_readFd(EF(in), r); ok = x != NULL; break; }
    case WRITE: { env_file *w = env_new_out(n); ok = one ? IFF_writeChunk(EF(w), t, form, r) : IFF_writeFd(EF(w), t, r); break; }
    case CHECK: ok = one ? IFF_checkChunk(t, form, r) : IFF_check(t, r); break;
    case PRINT: if (one) IFF_printChunk(t, 0, form, r); else IFF_print(t, 0, r); break;
    case COMPARE: ok = one ? IFF_compareChunk(t, t2, form, r) : IFF_compare(t, t2, r); break;
    case FREE: x = one ? IFF_createRawChunk(ID_EXTN, 4) : IFF_readFd(EF(env_new_in(e, n)), NULL); nlg = 0; if (one) IFF_freeChunk(x, form, r); else IFF_free(x, r); x = NULL; break;
    }
    on = 0; vf_assert(ok, "an operation that succeeds with the first registry fails with another one");
    { int total = 0, h, q = 0; for (i = 0; i < (one ? 1 : 2); i++) { h = handler(k, form, ids[i]); if (h) { q = 0; { int j; for (j = 0; j < (one ? 1 : 2); j++) q += ids[j] == ids[i] && handler(k, form, ids[j]) == h; } total++; vf_assert(calls(op, h, ids[i]) == q, "a chunk is not handled by the registry that was given"); if (op == READ) vf_assert(calls(CREATE, h, ids[i]) == q, "a chunk is not created by the registry that was given"); } }
      vf_assert(anycall(op) == total, "a chunk is handled by another registry than the one that was given"); vf_reach(total ? "handled" : "built-in"); }
    if (x) { if (one) IFF_freeChunk(x, form, r); else IFF_free(x, r); }
    vf_obs(op); vf_obs(k); vf_obs(nlg);
    if (o == 0 && vf_choose(2)) { ta[0].chunkId = MKID('G','O','N','E'); changed = 1; vf_reach("changed"); }
  }
  IFF_free(c, NULL); IFF_free(c2, NULL); vf_assert(vf_live_blocks() == base, "memory left after freeing");
}
