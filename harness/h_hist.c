/* What an operation does depends on its arguments only, not on what was done
 * before; results that were returned stay as they are: C32
 *   two operations on two hierarchies, or one repeated REP times before the other */
#include "ref.h"
#include "pmatch.h"
enum { READ, WRITE, CHECK, COMPARE, PRINT, SEARCH, COLLECT, LOOKUP, COMPOSE, CUTREAD, FAILWRITE, SIZES, NOPS, IDCHECK = NOPS, TYPECHECK, ODDREAD, ONECHECK, NALL };
#ifndef OPB
#define OPB vf_choose(NOPS)
#endif
#ifndef OPA
#define OPA vf_choose(NOPS)
#endif
static int same(const u8 *a, const u8 *b, size_t n) { int ok = 1; size_t i; for (i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
typedef struct { int op; rn *m; IFF_Chunk *x, *y; env_file *o; u8 *b; size_t n; IFF_Bool r; IFF_Form **forms; IFF_Chunk **list, *one; unsigned len; u32 key; int diag; } act;
static rn *want[64]; static int nwant;
static void expect(rn *n, u32 t) { int i; if (n->kind == RAW || n->kind == PROP) return; if (n->kind == FORM && n->type == t) { want[nwant++] = n; return; } for (i = 0; i < n->nk; i++) expect(n->kid[i], t); }
static rn *cdata(u32 n) { static u32 k; rn *r = r_new(RAW); r->id = MKID('D','A','T','A' + k % 3); r->data = h_alloc(n); r->size = r->dlen = n; memset(r->data, (int)(0x30 + k++), n); return r; }
static rn *gen(int op) {
  g_index = 0; g_conf = 0; g_mixed = 0; g_anycomp = 0; g_pkind = RAW; g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX; g_lenchoice = 0; g_fids = op == PRINT;
  if (op == CHECK) { rn *n; g_conf = 1; n = g_tree(1 + vf_choose(3), 0); if (vf_choose(2)) {
#ifdef MUTATE
    n->size ^= 1;
#else
    n->size = vf_u32();
#endif
    } else { rn *k = n->nk ? n->kid[0] : n; if (k->kind != RAW) k->type = g_conf && vf_choose(2) ? MKID('a','b','c','d') : k->type; else k->id = vf_choose(2) ? MKID('A','B',1,'C') : k->id; } return n; }
  return g_tree(op == COLLECT || op == LOOKUP ? FORM : op == SEARCH || op == COMPOSE ? 1 + vf_choose(3) : vf_choose(4), 0);
}
static void encode(act *a) { u8 *e; if (a->b) return; a->n = (size_t)r_total(a->m); a->b = h_alloc(a->n + 1); e = r_encode(a->m, a->b, 0); vf_assert((size_t)(e - a->b) == a->n, "harness: model extent"); }
static rn *twin(const rn *n) { rn *c = h_alloc(sizeof *c); int i; *c = *n; c->np = c->nk = 0; c->prop = c->kid = NULL; for (i = 0; i < n->np; i++) r_addprop(c, twin(n->prop[i])); for (i = 0; i < n->nk; i++) r_addkid(c, twin(n->kid[i])); return c; }
static void prepare(act *a, int sym) { /* what exists beforehand */
  if (a->op != CHECK && a->op != ONECHECK) encode(a); else a->n = 1000; a->o = env_new_out(a->n + 64); a->key = sym ? vf_u32() : MKID('D','A','T','B');
  if (a->op != READ && a->op != CUTREAD && a->op != ODDREAD && a->op != COMPOSE) a->x = g_build(a->m);
  if (a->op == COMPARE) { rn *d = twin(a->m); if (d->kind == RAW) { vf_assume(!r_isgroup(a->key)); d->id = a->key; } else d->type = a->key; a->y = g_build(d); a->len = (unsigned)r_equal(a->m, d); }
  if (a->op == PRINT) a->o = env_new_out(64 + 400 * NODES * (NODES > 20 ? 4 : 1));
}
static void perform(act *a) {
  a->diag = env_diag_calls;
  switch (a->op) {
  case READ: a->x = IFF_readFd(EF(env_new_in(a->b, a->n)), NULL); break;
  case CUTREAD: { env_file *f = env_new_in(a->b, a->n); if (a->key & 1) f->len = a->n - 1; else f->read_fail_at = a->n / 2; a->x = IFF_readFd(EF(f), NULL); break; }
  case WRITE: a->r = IFF_writeFd(EF(a->o), a->x, NULL); break;
  case FAILWRITE: a->o->wlimit = a->n - 1; a->r = IFF_writeFd(EF(a->o), a->x, NULL); break;
  case CHECK: a->r = IFF_check(a->x, NULL); break;
  case COMPARE: a->r = IFF_compare(a->x, a->y, NULL); break;
  case PRINT: { env_file *k = env_out; env_out = a->o; IFF_print(a->x, 0, NULL); env_out = k; break; }
  case SEARCH: a->forms = IFF_searchForms(a->x, a->key, &a->len); break;
  case COLLECT: a->list = IFF_getChunksFromForm((IFF_Form *)a->x, a->key, &a->len); break;
  case LOOKUP: a->one = IFF_getDataChunkFromForm((IFF_Form *)a->x, a->key); break;
  case COMPOSE: a->x = g_make(a->m); break;
  case SIZES: IFF_updateChunkSizes(a->x); break;
  case IDCHECK: a->r = IFF_checkId(a->key); break;
  case TYPECHECK: a->r = IFF_checkFormType(a->key); break;
  case ONECHECK: a->r = IFF_checkChunk(a->x, 0, &IFF_defaultChunkRegistry); break;
  case ODDREAD: { env_file *f = env_new_in(a->b, a->n + 1); a->x = IFF_readFd(EF(f), NULL); break; }
  }
  a->diag = env_diag_calls - a->diag;
}
static void release(act *a) { if (a->forms) env_free(a->forms); if (a->list) env_free(a->list); if (a->op == READ || a->op == COMPOSE) { if (a->x) IFF_free(a->x, NULL); a->x = NULL; } a->forms = NULL; a->list = NULL; }
static void verify(act *a) {
  int i, k = 0; static const char *bad = "the outcome of an operation depends on what was done before or after it";
  switch (a->op) {
  case READ: case COMPOSE: case SIZES: vf_assert(a->x && r_match(a->m, a->x, NULL), bad); break;
  case CUTREAD: vf_assert(!a->x && a->diag > 0, bad); break;
  case WRITE: vf_assert(a->r && a->o->len == a->n && same(a->o->data, a->b, a->n), bad); break;
  case FAILWRITE: vf_assert(!a->r && a->diag > 0, bad); break;
  case CHECK: if (a->r) vf_assert(r_checkroot(a->m), bad); else vf_assert(!r_checkroot(a->m) && a->diag > 0, bad); break;
  case COMPARE: vf_assert((a->r != 0) == (int)a->len, bad); break;
  case PRINT: vf_assert(pm_match(a->m, a->o->data, a->o->len), bad); break;
  case SEARCH: nwant = 0; expect(a->m, a->key); vf_assert(a->len == (unsigned)nwant, bad); for (i = 0; i < nwant; i++) vf_assert((IFF_Chunk *)a->forms[i] == want[i]->lib, bad); break;
  case COLLECT: for (i = 0; i < a->m->nk; i++) if (a->m->kid[i]->id == a->key) { vf_assert(a->len > (unsigned)k && a->list[k] == a->m->kid[i]->lib, bad); k++; } vf_assert(a->len == (unsigned)k, bad); break;
  case LOOKUP: for (i = 0; i < a->m->nk && a->m->kid[i]->id != a->key; i++) ; vf_assert(a->one == (i < a->m->nk ? a->m->kid[i]->lib : NULL), bad); break;
  }
}
#ifdef AGAIN /* the same arguments give the same outcome, with the same diagnostics */
void harness(void) {
  act a, b; int base, k = vf_choose(2); memset(&a, 0, sizeof a); quiet(); base = vf_live_blocks(); a.op = vf_choose(NALL); vf_assume(a.op != PRINT && a.op != COLLECT && a.op != LOOKUP && a.op != SEARCH && a.op != COMPOSE && a.op != SIZES);
  a.m = gen(a.op == ONECHECK ? CHECK : a.op); prepare(&a, 1);
  if (a.op == ODDREAD) { size_t p; a.b[a.n] = 'x'; /* padding that is not zero */ p = a.n; if (a.m->size & 1) a.b[p - 1] = 1; else { rn *l = a.m; while (l->kind != RAW && l->nk) l = l->kid[l->nk - 1]; if (l->kind == RAW && (l->size & 1)) a.b[p - 1] = 1; } }
  b = a; perform(&a);
  if (k) { act o; memset(&o, 0, sizeof o); o.op = vf_choose(2) ? READ : CHECK; o.m = f_grp(FORM, MKID('T','E','S','T')); r_addkid(o.m, cdata(1)); r_fixsizes(o.m); prepare(&o, 0); perform(&o); if (o.x) IFF_free(o.x, NULL); vf_reach("between"); }
  b.o = a.o ? env_new_out(a.n + 64) : NULL; perform(&b);
  vf_assert(a.diag == b.diag, "the same operation is diagnosed differently the second time");
  vf_assert(a.r == b.r && (a.x == NULL) == (b.x == NULL) && a.o->len == b.o->len && same(a.o->data, b.o->data, a.o->len), "the same operation has another outcome the second time");
  if (a.op == ODDREAD) { vf_assert(a.diag > 0, "trailing contents are not explained"); vf_reach("odd"); } if (!a.diag) vf_reach("silent"); else vf_reach("explained");
  if (a.op == IDCHECK) vf_assert((a.r != 0) == r_validid(a.key), "ids are decided wrongly");
  if (b.x && b.x != a.x) { vf_assert(IFF_compare(a.x, b.x, NULL), "the same operation has another outcome the second time"); IFF_free(b.x, NULL); } if (a.x) IFF_free(a.x, NULL); if (a.y) IFF_free(a.y, NULL);
  vf_assert(vf_live_blocks() == base, "memory left after freeing"); vf_obs(a.op); vf_obs(a.r);
}
#else
void harness(void) {
  act a, b; int base; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); quiet(); pm_calibrate((DEPTH > 5 ? DEPTH : 5) * 2 + 3); base = vf_live_blocks();
  a.op = OPA;
#ifdef REP /* the same thing again and again */
  { static const int reps[] = {2, REP}; int i, r = reps[vf_choose(2)], live; rn *l; u32 t = MKID('T','E','S','T');
    a.m = f_grp(FORM, t); l = a.m;
    if (a.op != COLLECT && a.op != LOOKUP) { int k; a.m = l = f_grp(LIST, t); for (k = 0; k < 3; k++) { rn *x = f_grp(k == 0 ? LIST : k == 1 ? CAT : FORM, t), *p = f_grp(PROP, t); if (l->kind == LIST) { r_addkid(p, cdata(1)); r_addprop(l, p); } r_addkid(l, x); l = x; } }
    { rn *x = cdata(3); r_addkid(l, x); if (vf_choose(2)) r_addkid(l, cdata(2)); } r_fixsizes(a.m); prepare(&a, 0); a.key += (u32)vf_choose(2); if (a.op == CHECK && vf_choose(2)) { l->lib->chunkSize ^= 1; l->size ^= 1; }
    live = vf_live_blocks();
    for (i = 0; i < r; i++) { a.o->len = a.o->total = 0; perform(&a); if (i + 1 < r) { release(&a); if (i % 50 == 0) vf_assert(vf_live_blocks() == live, "memory is left by an operation"); } } }
#else
  a.m = gen(a.op); prepare(&a, 1); perform(&a);
#endif
#ifdef MUTATE /* the same operation again after the hierarchy has changed */
  { rn *t = a.m, *k; int how = vf_choose(5); IFF_Chunk *c; verify(&a); release(&a); if (how != 4) { while (t->kind != RAW && t->nk && vf_choose(2)) t = t->kid[t->nk - 1]; }
    vf_assume(a.op != READ && a.op != CUTREAD && a.op != COMPOSE && a.op != COMPARE);
    if (how == 0) { vf_assume(t->kind == FORM || t->kind == PROP); k = cdata(1); k->id = vf_u32(); vf_assume(!r_isgroup(k->id)); c = g_build(k); r_addkid(t, k); if (t->kind == FORM) IFF_addToForm((IFF_Form *)t->lib, c); else IFF_addToProp((IFF_Prop *)t->lib, c); }
    else if (how == 1) { vf_assume(t->kind != RAW && t->kind != PROP); k = f_grp(FORM, vf_u32()); r_fixsizes(k); c = g_build(k); r_addkid(t, k); if (t->kind == FORM) IFF_addToForm((IFF_Form *)t->lib, c); else if (t->kind == CAT) IFF_addToCAT((IFF_CAT *)t->lib, c); else IFF_addToList((IFF_List *)t->lib, c); }
    else if (how == 2) { vf_assume(t->kind != RAW); t->type = vf_u32(); ((IFF_Group *)t->lib)->groupType = t->type; }
    else if (how == 3) { vf_assume(t->kind == RAW); t->data = (u8 *)"ab"; t->dlen = 2; IFF_setTextData((IFF_RawChunk *)t->lib, "ab"); }
    else { vf_assume(t->kind == LIST); k = f_grp(PROP, vf_u32()); r_fixsizes(k); c = g_build(k); r_addprop(t, k); IFF_addPropToList((IFF_List *)t->lib, (IFF_Prop *)c); }
    r_fixsizes(a.m); g_sizes(a.m); a.b = NULL; encode(&a); a.o = env_new_out(a.op == PRINT ? 64 + 400 * (NODES + 1) : a.n + 64); a.key = vf_u32();
    perform(&a); verify(&a); vf_reach("changed"); vf_obs(a.n); release(&a); IFF_free(a.x, NULL); if (a.y) IFF_free(a.y, NULL); vf_assert(vf_live_blocks() == base, "memory left after freeing"); return; }
#endif
  b.op = OPB; b.m = gen(b.op); prepare(&b, 1); perform(&b);
  verify(&b); verify(&a); vf_reach("both"); vf_obs(a.n); vf_obs(b.n);
  release(&a); release(&b); if (a.x) IFF_free(a.x, NULL); if (a.y) IFF_free(a.y, NULL); if (b.y) IFF_free(b.y, NULL); if (b.x) IFF_free(b.x, NULL);
  vf_assert(vf_live_blocks() == base, "memory left after freeing");
}
#endif
