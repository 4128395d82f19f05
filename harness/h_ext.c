/* Application chunks: C21 C22 (C03 C06 C07 C23 C28 alongside)
 *   SIZES   one application chunk of any declared size, longer or shorter than its fields
 *   NEST    any hierarchy; handlers by form type, by parent table and global */
#include "ref.h"
#define ID_TEST MKID('T','E','S','T')
#define ID_OTHR MKID('O','T','H','R')
#define ID_EXTN MKID('E','X','T','N')
#define ID_PARN MKID('A','P','A','R')
#define ID_GLBX MKID('G','L','B','X')
#define ID_MARK MKID('M','A','R','K')
#define NSIZES 23
#define X(set, c, m) do { if (set) vf_assert(c, m); else vf_assume(c); } while (0) /* each property judges its own part */
#define RD (P == 2 || P == 4 || P == 21 || P == 22)
#define HD (P == 21 || P == 22)
#define WR (P == 5 || P == 7 || P == 22)
#define MEM (P == 23 || P == 22 || P == 3)
enum { CREATE, READ, WRITE, CHECK, FREE, PRINT, COMPARE, NOPS };
typedef struct { IFF_Group *parent; IFF_ID chunkId; IFF_Long chunkSize; IFF_UByte a; IFF_UWord b; IFF_Word c; IFF_ULong d; IFF_Long e; IFF_ID f; } ext;
typedef struct { int op, handler; const void *chunk; } entry; static entry logv[256]; static int nlog; static int check_answer = 1, compare_answer = 1;
static void note(int op, int h, const void *c) { if (nlog < 256) { logv[nlog].op = op; logv[nlog].handler = h; logv[nlog++].chunk = c; } }
static IFF_Chunk *x_create(int h, IFF_ID id, IFF_Long size) { ext *x = (ext *)IFF_createChunk(id, size, sizeof *x); if (x) { x->a = 0xd1; x->b = 0xd2d3; x->c = -2; x->d = 0xd4d5d6d7u; x->e = -3; x->f = MKID('d','f','l','t'); note(CREATE, h, x); } return (IFF_Chunk *)x; }
static int layout; /* the order of the fields in the file */
#define FLD(call) do { IFF_FieldStatus s_ = (call); if (s_ != IFF_FIELD_MORE) return IFF_deriveSuccess(s_); } while (0)
static IFF_Bool x_read(int h, FILE *f, IFF_Chunk *c, IFF_Long *p) { ext *x = (ext *)c; note(READ, h, c);
  if (layout) { FLD(IFF_readULongField(f, &x->d, c, "d", p)); FLD(IFF_readUByteField(f, &x->a, c, "a", p)); FLD(IFF_readIdField(f, &x->f, c, "f", p)); FLD(IFF_readWordField(f, &x->c, c, "c", p)); return TRUE; }
  FLD(IFF_readUByteField(f, &x->a, c, "a", p)); FLD(IFF_readUWordField(f, &x->b, c, "b", p)); FLD(IFF_readWordField(f, &x->c, c, "c", p)); FLD(IFF_readULongField(f, &x->d, c, "d", p)); FLD(IFF_readLongField(f, &x->e, c, "e", p)); FLD(IFF_readIdField(f, &x->f, c, "f", p)); return TRUE; }
static IFF_Bool x_write(int h, FILE *f, const IFF_Chunk *c, IFF_Long *p) { const ext *x = (const ext *)c; note(WRITE, h, c);
  if (layout) { FLD(IFF_writeULongField(f, x->d, c, "d", p)); FLD(IFF_writeUByteField(f, x->a, c, "a", p)); FLD(IFF_writeIdField(f, x->f, c, "f", p)); FLD(IFF_writeWordField(f, x->c, c, "c", p)); return TRUE; }
  FLD(IFF_writeUByteField(f, x->a, c, "a", p)); FLD(IFF_writeUWordField(f, x->b, c, "b", p)); FLD(IFF_writeWordField(f, x->c, c, "c", p)); FLD(IFF_writeULongField(f, x->d, c, "d", p)); FLD(IFF_writeLongField(f, x->e, c, "e", p)); FLD(IFF_writeIdField(f, x->f, c, "f", p)); return TRUE; }
static IFF_Bool x_check(int h, const IFF_Chunk *c) { note(CHECK, h, c); return check_answer; }
static void x_free(int h, IFF_Chunk *c) { note(FREE, h, c); }
static void x_print(int h, const IFF_Chunk *c) { note(PRINT, h, c); }
static IFF_Bool x_compare(int h, const IFF_Chunk *p, const IFF_Chunk *q) { const ext *x = (const ext *)p, *y = (const ext *)q; note(COMPARE, h, p); return compare_answer & (x->a == y->a) & (x->b == y->b) & (x->c == y->c) & (x->d == y->d) & (x->e == y->e) & (x->f == y->f); }
static const IFF_ChunkRegistry *reg_seen; static int reg_bad; static const IFF_ChunkRegistry registry;
#define RG(r) do { if ((r) != &registry) reg_bad = 1; } while (0)
#define HANDLER(n, h) \
static IFF_Chunk *n##_c(const IFF_ID i, const IFF_Long s) { return x_create(h, i, s); } \
static IFF_Bool n##_r(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *p) { RG(r); return x_read(h, f, c, p); } \
static IFF_Bool n##_w(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *p) { RG(r); return x_write(h, f, c, p); } \
static IFF_Bool n##_k(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { RG(r); return x_check(h, c); } \
static void n##_f(IFF_Chunk *c, const IFF_ChunkRegistry *r) { RG(r); x_free(h, c); } \
static void n##_p(const IFF_Chunk *c, const unsigned int i, const IFF_ChunkRegistry *r) { RG(r); (void)i; x_print(h, c); } \
static IFF_Bool n##_m(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { RG(r); return x_compare(h, a, b); }
#define ENTRY(n, id) {id, &n##_c, &n##_r, &n##_w, &n##_k, &n##_f, &n##_p, &n##_m}
HANDLER(hx, 1) HANDLER(hp, 2) HANDLER(hg, 3)
static IFF_ChunkType t_par[] = {ENTRY(hp, ID_PARN)}, t_own[] = {ENTRY(hx, ID_EXTN)}, t_glb[] = {ENTRY(hg, ID_GLBX)};
static IFF_ChunkTypesNode n_par = {1, t_par, NULL}, n_own = {1, t_own, &n_par}, n_glb = {1, t_glb, &IFF_globalChunkTypesNode};
static IFF_FormChunkTypes t_forms[] = {{ID_TEST, &n_own}};
static const IFF_ChunkRegistry registry = {1, t_forms, &n_glb, &IFF_defaultChunkType};
static int same(const u8 *a, const u8 *b, size_t n) { int ok = 1; size_t i; for (i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
#ifdef SIZES
#ifndef NBIG
#define NBIG 21
#endif
static int count(int op, const void *c) { int i, n = 0; for (i = 0; i < nlog; i++) n += logv[i].op == op && logv[i].chunk == c; return n; }
void harness(void) {
  u8 *b = h_alloc(NBIG < 21 ? 2000 : 72000), *e = b, *d; u32 s, t, i, from, where = (u32)vf_choose(4); env_file *f, *o; IFF_Chunk *c, *c2; IFF_Group *g; ext *x; u8 m0 = vin_u8(); int base; size_t total;
  static const u32 big[] = {63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 4113, 32785, 65535, 65536, 65553, 70001};
  { int k = vf_choose(NSIZES + NBIG); s = k < NSIZES ? (u32)k : big[k - NSIZES]; }
  t = 4 + 8 + s + (s & 1) + 8 + 1 + 1; layout = s < NSIZES ? vf_choose(2) : 0;
  /* directly in a form, in a form in a form, in a shared-property group, in a concatenation */
  if (where == 1) { e = r_put32(e, R_FORM); e = r_put32(e, 4 + 8 + t); e = r_put32(e, ID_OTHR); }
  if (where == 2) { e = r_put32(e, R_LIST); e = r_put32(e, 4 + 8 + t); e = r_put32(e, ID_OTHR); }
  if (where == 3) { e = r_put32(e, R_CAT); e = r_put32(e, 4 + 8 + t); e = r_put32(e, ID_TEST); }
  e = r_put32(e, where == 2 ? R_PROP : R_FORM); e = r_put32(e, t); e = r_put32(e, ID_TEST);
  e = r_put32(e, ID_EXTN); e = r_put32(e, s); d = e; for (i = 0; i < s; i++) *e++ = i < 22 ? vin_u8() : (u8)(i * 7); if (s & 1) *e++ = 0;
  e = r_put32(e, ID_MARK); e = r_put32(e, 1); *e++ = m0; *e++ = 0; total = (size_t)(e - b);
  f = env_new_in(b, total); quiet(); base = vf_live_blocks(); env_out = env_new_out(4000);
#ifdef CUT
  { u32 cut = vf_u32(); vf_assume(cut < total); if (CUT == 1) f->len = cut; else f->read_fail_at = cut; c = IFF_readFd(EF(f), &registry);
    CHK(3, c == NULL, "a file that ends or fails early was accepted"); CHK(22, c == NULL, "a file that ends or fails early was accepted"); CHK(28, env_diag_calls > 0, "a failing read was not explained");
    X(MEM, vf_live_blocks() == base, "memory of a refused file was kept"); vf_reach("refused");
    { int j, k; for (j = 0; j < nlog; j++) if (logv[j].op == CREATE) { k = count(FREE, logv[j].chunk); X(HD || MEM, k == 1, "an application chunk of a refused file is not released by its handler"); vf_reach("released"); } } return; }
#endif
  c = IFF_readFd(EF(f), &registry); X(RD, c != NULL, "a properly nested file with an application chunk was refused"); vf_reach("read");
  g = (IFF_Group *)c; if (where == 2) g = (IFF_Group *)((IFF_List *)c)->prop[0]; else if (where) g = (IFF_Group *)g->chunk[0];
  X(RD, g->chunkLength == 2 && g->groupType == ID_TEST, "the rest of the file is affected by an application chunk");
  x = (ext *)g->chunk[0]; X(HD, count(CREATE, x) == 1 && count(READ, x) == 1 && nlog == 2, "an application chunk is not read by its handler");
  { IFF_RawChunk *r = (IFF_RawChunk *)g->chunk[1]; X(RD, r->chunkId == ID_MARK && r->chunkSize == 1 && r->chunkData[0] == m0, "the chunk after an application chunk is wrong"); }
  X(RD, (u32)x->chunkSize == s && x->chunkId == ID_EXTN && x->parent == g, "the application chunk's header is wrong");
  from = 0;
#define WANT(fld, n, val, dflt) do { if (from + n <= s) { X(P == 22 || P == 10, (u32)(fld) == (u32)(val), "a field differs from the bytes in the file"); from += n; } else { X(P == 22 || P == 10, (u32)(fld) == (u32)(dflt), "a missing field does not keep its default"); from = s + 1; } } while (0)
  if (layout) { WANT(x->d, 4, r_get32(d), 0xd4d5d6d7u); WANT(x->a, 1, d[4], 0xd1); WANT(x->f, 4, r_get32(d + 5), MKID('d','f','l','t')); WANT((u16)x->c, 2, d[9] << 8 | d[10], 0xfffe); X(P == 22 || P == 10, (x->b == 0xd2d3) & (x->e == -3), "a field that is not stored is changed"); }
  else { WANT(x->a, 1, d[0], 0xd1); WANT(x->b, 2, d[1] << 8 | d[2], 0xd2d3); WANT((u16)x->c, 2, d[3] << 8 | d[4], 0xfffe); WANT(x->d, 4, r_get32(d + 5), 0xd4d5d6d7u); WANT(x->e, 4, r_get32(d + 9), -3); WANT(x->f, 4, r_get32(d + 13), MKID('d','f','l','t')); }
  vf_reach(s >= 17 ? s == 17 ? "exact" : "longer" : "shorter");
  /* what is not a complete field, or follows the fields, becomes zero */
  { static const u32 ends[2][6] = {{1, 3, 5, 9, 13, 17}, {4, 5, 9, 11, 11, 11}}; u32 k = 0; for (i = 0; i < 6; i++) if (ends[layout][i] <= s) k = ends[layout][i]; for (i = k; i < s; i++) d[i] = 0; }
  nlog = 0; if (P == 30) vf_snapshot(); o = env_new_out(total + 64); X(WR, IFF_writeFd(EF(o), c, &registry), "writing fails although every byte is accepted");
  X(WR, o->len == total && same(o->data, b, total), "the application chunk is not written with its fields followed by zeros, or the rest of the file is affected");
  X(HD, nlog == 1 && count(WRITE, x) == 1, "an application chunk is not written by its handler"); vf_reach("written");
  nlog = 0; X(P == 13 || P == 14 || P == 22, IFF_check(c, &registry), "a correct file with an application chunk does not conform"); CHK(28, env_diag_calls == 0, "handling a conforming file is not silent"); X(HD, nlog >= 1 && count(CHECK, x) == nlog, "an application chunk is not checked by its handler");
  check_answer = 0; X(HD || P == 13, !IFF_check(c, &registry), "a handler's objection is ignored"); check_answer = 1;
  f = env_new_in(o->data, o->len); c2 = IFF_readFd(EF(f), &registry); X(P == 6 || P == 22, c2 != NULL, "what was written cannot be read");
  nlog = 0; X(P == 6 || P == 15 || P == 22, IFF_compare(c, c2, &registry), "what was written and read again does not compare equal"); X(HD, nlog >= 1 && count(COMPARE, x) == nlog, "an application chunk is not compared by its handler");
  compare_answer = 0; X(HD || P == 15, !IFF_compare(c, c2, &registry), "a handler's answer is ignored"); compare_answer = 1; IFF_free(c2, &registry);
  nlog = 0; IFF_print(c, 0, &registry); if (P == 30) vf_assert(vf_snapshot_same(), "observing a hierarchy with an application chunk changes it"); X(HD, nlog == 1 && count(PRINT, x) == 1, "an application chunk is not printed by its handler");
  nlog = 0; X(HD, !reg_bad, "a handler is not given the registry in use"); IFF_free(c, &registry); X(HD || P == 23, nlog == 1 && count(FREE, x) == 1 && logv[0].handler == 1, "an application chunk is not released by its handler");
  X(P == 23 || P == 22, vf_live_blocks() == base, "memory left after freeing"); vf_obs(total);
}
#else
static u32 pooltype(void) { return vf_choose(2) ? ID_TEST : ID_OTHR; }
static int nodes; static rn *exts[64]; static int hnd[64], nexts; static u32 scope[64];
static rn *tree(int kind, int depth, int pk, u32 pt) {
  rn *n = r_new(kind); int m, i; nodes--;
  if (kind == RAW) { static const u32 ids[] = {ID_EXTN, ID_PARN, ID_GLBX, ID_MARK}; int k = vf_choose(4); n->id = ids[k]; n->dlen = n->size = 17; n->data = sym_bytes(17);
    { int h = k == 2 ? 3 : k == 3 || pt != ID_TEST ? 0 : k == 0 ? 1 : 2; if (h) { n->kind = EXT; n->mark = h; exts[nexts] = n; hnd[nexts++] = h; } else { n->size = n->dlen = 1; } } return n; }
  if ((pk == CAT || pk == LIST) && kind != PROP && pt != R_JJJJ) n->type = pt; else if (kind == CAT || kind == LIST) n->type = vf_choose(2) ? R_JJJJ : pooltype(); else n->type = pooltype();
  if (kind == LIST && depth < DEPTH && nodes > 0) { m = vf_choose(2); for (i = 0; i < m; i++) r_addprop(n, tree(PROP, depth + 1, LIST, n->type)); }
  if (depth < DEPTH && nodes > 0) { m = vf_choose((nodes < KIDS ? nodes : KIDS) + 1); for (i = 0; i < m && nodes > 0; i++) { int k = kind == FORM ? vf_choose(4) : kind == PROP ? RAW : 1 + vf_choose(3); r_addkid(n, tree(k, depth + 1, kind, n->type)); } }
  return n;
}
static int bind(rn *n, IFF_Chunk *c) { /* which chunk is which, and the fields of application chunks */
  int ok, i; IFF_Group *g = (IFF_Group *)c; n->lib = c; ok = (c->chunkId == n->id) & ((u32)c->chunkSize == n->size);
  if (n->kind == EXT) { const ext *x = (const ext *)c; const u8 *d = n->data; return ok & (x->a == d[0]) & (x->b == (u32)(d[1] << 8 | d[2])) & ((u16)x->c == (u32)(d[3] << 8 | d[4])) & (x->d == r_get32(d + 5)) & ((u32)x->e == r_get32(d + 9)) & (x->f == r_get32(d + 13)); }
  if (n->kind == RAW) { const IFF_RawChunk *r = (const IFF_RawChunk *)c; u32 k; for (k = 0; k < n->dlen; k++) ok &= r->chunkData[k] == n->data[k]; return ok; }
  if (g->chunkLength != (unsigned)n->nk) return 0;
  ok &= g->groupType == n->type;
  if (n->kind == LIST) { IFF_List *l = (IFF_List *)c; if (l->propLength != (unsigned)n->np) return 0; for (i = 0; i < n->np; i++) ok &= bind(n->prop[i], (IFF_Chunk *)l->prop[i]) & (l->prop[i]->parent == (IFF_Group *)l); }
  for (i = 0; i < n->nk; i++) ok &= bind(n->kid[i], g->chunk[i]) & (g->chunk[i]->parent == g);
  return ok;
}
/* every application chunk was handled by its handler, times times (at least once if negative), and nothing else was handled */
static void logged(int op, int times, const char *msg) {
  int i, j, tot = 0; for (i = 0; i < nexts; i++) { int n = 0; for (j = 0; j < nlog; j++) if (logv[j].op == op && logv[j].chunk == exts[i]->lib) { n++; if (P == 21 || P == 22) vf_assert(logv[j].handler == hnd[i], msg); } if (P == 21 || P == 22) vf_assert(times < 0 ? n >= 1 : n == times, msg); tot += n; }
  if (P == 21 || P == 22) for (j = 0; j < nlog; j++) if (logv[j].op == op) tot--; if (P == 21 || P == 22) vf_assert(tot == 0, msg); nlog = 0;
}
void harness(void) {
  rn *m; size_t n; u8 *b; env_file *f, *o; IFF_Chunk *c, *c2; int base, i, k, live;
  nodes = NODES; m = tree(1 + vf_choose(3), 0, RAW, 0); r_fixsizes(m); n = (size_t)r_total(m);
  b = h_alloc(n + 1); { u8 *e = r_encode(m, b, 0); vf_assert((size_t)(e - b) == n, "harness: model extent"); }
  f = env_new_in(b, n); quiet(); base = vf_live_blocks(); env_out = env_new_out(64 + 400 * NODES);
#ifdef CUT
  { u32 cut = vf_u32(); int j, q; vf_assume(cut < n); if (vf_choose(2)) f->len = cut; else f->read_fail_at = cut; c = IFF_readFd(EF(f), &registry); X(P == 3 || P == 22, c == NULL, "a file that ends or fails early was accepted"); X(MEM, vf_live_blocks() == base, "memory of a refused file was kept"); CHK(28, env_diag_calls > 0, "a failing read was not explained");
    for (j = 0; j < nlog; j++) if (logv[j].op == CREATE) { int cnt = 0; for (q = 0; q < nlog; q++) cnt += logv[q].op == FREE && logv[q].chunk == logv[j].chunk && logv[q].handler == logv[j].handler; X(HD || MEM, cnt == 1, "an application chunk of a refused file is not released by its handler"); vf_reach("released"); } vf_reach("refused"); return; }
#endif
  c = IFF_readFd(EF(f), &registry); X(RD, c != NULL, "a properly nested file with application chunks was refused");
  X(RD, bind(m, c), "a hierarchy with application chunks differs from what the bytes denote"); { int t = nlog; logged(CREATE, 1, "an application chunk is not created by its handler"); nlog = t; } logged(READ, 1, "an application chunk is not read by its handler");
  for (i = 0; i < nexts; i++) vf_reach(hnd[i] == 1 ? "by-form" : hnd[i] == 2 ? "by-parent-table" : "global"); if (nexts > 1) vf_reach("several"); for (i = 0; i < nexts; i++) { if (exts[i]->parent && exts[i]->parent->kind == PROP) vf_reach("in-properties"); }
  f = env_new_in(b, n); c2 = IFF_readFd(EF(f), &registry); X(RD, c2 != NULL, "a properly nested file was refused"); nlog = 0; live = vf_live_blocks();
  if (P == 30) vf_snapshot();
  k = env_diag_calls; X(P == 13 || P == 14 || HD, IFF_check(c, &registry), "a correct hierarchy with application chunks does not conform"); logged(CHECK, -1, "an application chunk is not checked by its handler");
  CHK(28, env_diag_calls == k, "checking a conforming hierarchy is not silent");
  X(P == 15 || HD, IFF_compare(c, c2, &registry), "equal hierarchies with application chunks compare different"); logged(COMPARE, -1, "an application chunk is not compared by its handler");
  o = env_new_out(n + 64); X(WR, IFF_writeFd(EF(o), c, &registry), "writing fails although every byte is accepted"); logged(WRITE, 1, "an application chunk is not written by its handler");
  X(WR, o->len == n && same(o->data, b, n), "the rewritten file differs from the original");
  IFF_print(c, 0, &registry); logged(PRINT, 1, "an application chunk is not printed by its handler");
  if (P == 30) vf_assert(vf_snapshot_same(), "observing a hierarchy with application chunks changes it");
  X(P == 23, vf_live_blocks() == live, "an operation leaves memory allocated");
  if (nexts) { check_answer = 0; X(HD || P == 13, !IFF_check(c, &registry), "a handler's objection is ignored"); check_answer = 1; nlog = 0; }
  IFF_free(c2, &registry); nlog = 0; X(HD, !reg_bad, "a handler is not given the registry in use"); IFF_free(c, &registry); logged(FREE, 1, "an application chunk is not released by its handler");
  X(P == 23 || P == 22, vf_live_blocks() == base, "memory left after freeing"); vf_obs(n); vf_obs(nexts);
}
#endif
