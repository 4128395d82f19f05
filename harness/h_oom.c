/* Allocation failures: C24.  Any single allocation, or every one from any point
 * on, fails during one operation. */
#include "ref.h"
#ifndef RAWMAX
#define RAWMAX 2
#endif
static int same(const u8 *a, const u8 *b, size_t n) { int ok = 1; size_t i; for (i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
static rn *gen(void) { g_conf = 1; g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX; return g_tree(1 + vf_choose(3), 0); }
static void arm(int max) { env_alloc_fail_all = vf_choose(2); env_alloc_count = 0; env_alloc_fail = (int)vin_u8(); vf_assume(env_alloc_fail < max); env_alloc_failed = 0; }
static void disarm(void) { env_alloc_fail = -1; env_alloc_fail_all = 0; }
static rn *want[64]; static int nwant; static u32 st[2]; static int nst;
static void expect(rn *n) { int i, hit = 0; if (n->kind == RAW || n->kind == PROP) return; if (n->kind == FORM) { for (i = 0; i < nst; i++) hit |= n->type == st[i]; if (hit) { want[nwant++] = n; return; } } for (i = 0; i < n->nk; i++) expect(n->kid[i]); }
#define DONE(c) do { vf_assert((c), "memory obtained for a failed operation was kept"); vf_reach("failed"); } while (0)
void harness(void) {
  int base, live; rn *m; IFF_Chunk *c;
  quiet(); base = vf_live_blocks();
#if OP == 0 /* creating */
  { u32 id = vf_u32(), t = vf_u32(); IFF_Long s = (IFF_Long)vf_choose(3) * 200; int w = vf_choose(14); vf_assume(!r_isgroup(id)); arm(3);
    switch (w) {
    case 0: c = (IFF_Chunk *)IFF_createEmptyForm(t); break; case 1: c = (IFF_Chunk *)IFF_createEmptyCATWithContentsType(t); break; case 2: c = (IFF_Chunk *)IFF_createEmptyListWithContentsType(t); break;
    case 3: c = (IFF_Chunk *)IFF_createEmptyProp(t); break; case 4: c = IFF_createRawChunk(id, s); break; case 5: c = IFF_createUnparsedForm(R_FORM, s); break; case 6: c = IFF_createUnparsedCAT(R_CAT, s); break;
    case 7: c = IFF_createUnparsedList(R_LIST, s); break; case 8: c = IFF_createUnparsedProp(R_PROP, s); break; case 9: c = (IFF_Chunk *)IFF_createForm(s, t); break; case 10: c = (IFF_Chunk *)IFF_createCAT(s, t); break; case 11: c = (IFF_Chunk *)IFF_createList(s, t); break; case 12: c = (IFF_Chunk *)IFF_createEmptyCAT(); break; default: c = (IFF_Chunk *)IFF_createEmptyList(); break; }
    disarm();
    if (env_alloc_failed) { vf_assert(c == NULL, "a chunk is returned although memory for it was not available"); DONE(vf_live_blocks() == base); }
    else { vf_assert(c != NULL, "no chunk is returned although memory was available"); vf_reach("succeeded"); IFF_free(c, NULL); vf_assert(vf_live_blocks() == base, "memory left after freeing"); } vf_obs(w); }
#elif OP == 1 /* reading */
  { size_t n, more; u8 *b; env_file *f; int how = vf_choose(2); m = gen(); n = (size_t)r_total(m); more = vf_choose(2) ? 24 : 0; b = h_alloc(n + more + 1); r_encode(m, b, 0); memset(b + n, 0, more); n += more; f = env_new_in(b, n); if (how) env_add("i.iff", b, n);
    arm(3 * NODES + 3); c = how ? IFF_readFile("i.iff", NULL) : IFF_readFd(EF(f), NULL); disarm();
    if (env_alloc_failed) { vf_assert(c == NULL, "a hierarchy is returned although memory for it was not available"); DONE(vf_live_blocks() == base); vf_assert(env_files_open == 0, "the input is left open"); CHK(28, env_diag_calls > 0, "a failing read was not explained"); }
    else { vf_assert(c != NULL && r_match(m, c, NULL), "reading fails although memory was available"); vf_reach("succeeded"); } vf_obs(n); }
#elif OP == 2 /* writing */
  { size_t n; u8 *b; env_file *o; IFF_Bool r; m = gen(); m->size += (u32)vf_choose(3); if (m->nk && m->kid[0]->kind != RAW) { m->kid[0]->size += 2; m->size += 2; } n = (size_t)r_total(m); b = h_alloc(n + 1); r_encode(m, b, 0xffffffff); c = g_build(m); live = vf_live_blocks(); o = env_new_out(n + 64);
    vf_snapshot(); arm(NODES + 2); r = IFF_writeFd(EF(o), c, NULL); disarm(); vf_assert(vf_snapshot_same(), "a failing write changes the hierarchy");
    vf_assert(vf_live_blocks() == live, "writing leaves memory allocated or releases parts of the hierarchy");
    if (env_alloc_failed) { vf_assert(!r, "a write is reported as successful although memory for it was not available"); CHK(28, env_diag_calls > 0, "a failing write was not explained"); vf_reach("failed"); }
    else { vf_assert(r && o->len == n && same(o->data, b, n), "writing fails although memory was available"); vf_reach("succeeded"); } vf_obs(n); }
#elif OP == 3 /* searching */
  { IFF_Form **r; unsigned len = 999; int i, j; m = gen(); c = g_build(m); live = vf_live_blocks(); nst = 1 + vf_choose(2); st[0] = vf_u32(); st[1] = vf_u32(); expect(m);
    vf_snapshot(); arm(2 * NODES + 2); r = IFF_searchFormsFromArray(c, (const IFF_ID *)st, (unsigned)nst, &len); disarm(); vf_assert(vf_snapshot_same(), "a failing search changes the hierarchy");
    if (!r) { vf_assert(len == 0, "forms are counted although there is no result"); vf_assert(vf_live_blocks() == live, "memory obtained for a failed operation was kept"); }
    else { vf_assert(vf_block_size(r) >= len * sizeof *r, "the result is smaller than its length"); for (i = j = 0; i < (int)len; i++, j++) { while (j < nwant && (IFF_Chunk *)r[i] != want[j]->lib) j++; vf_assert(j < nwant, "a form is returned that does not match"); } env_free(r); vf_assert(vf_live_blocks() == live, "searching leaves more allocated than its result"); }
    if (env_alloc_failed) { vf_reach("failed"); vf_assert(r == NULL || (int)len == nwant, "the result of a search is incomplete without any sign of failure"); }
    else { vf_assert((int)len == nwant, "searching fails although memory was available"); vf_reach("succeeded"); } vf_obs(len); }
#elif OP == 4 /* collecting chunks of a form */
  { IFF_Chunk **r; unsigned len = 999; u32 id; int i, cnt = 0; m = r_new(FORM); m->type = vf_u32(); for (i = 0; i < 4; i++) r_addkid(m, m_raw(vf_choose(2) ? MKID('A','A','A','A') : MKID('B','B','B','B'), 1)); id = MKID('A','A','A','A'); r_fixsizes(m); c = g_build(m); live = vf_live_blocks(); for (i = 0; i < 4; i++) cnt += m->kid[i]->id == id;
    vf_snapshot(); arm(6); r = IFF_getChunksFromForm((IFF_Form *)c, id, &len); disarm(); vf_assert(vf_snapshot_same(), "a failing lookup changes the form");
    if (env_alloc_failed) { vf_assert(r == NULL && len == 0, "chunks are returned although memory was not available"); DONE(vf_live_blocks() == live); }
    else { vf_assert((int)len == cnt, "collecting fails although memory was available"); vf_reach("succeeded"); if (r) env_free(r); vf_assert(vf_live_blocks() == live, "collecting leaves more allocated than its result"); } vf_obs(len); }
#elif OP == 5 /* adding and setting data */
  { int w = vf_choose(7), i, n = vf_choose(3); IFF_Group *g; IFF_Chunk *x; IFF_Long size; unsigned len; IFF_UByte *old;
    if (w == 6) { static const char *tx[] = {"", "a", "hello world"}; IFF_RawChunk *t; int k = vf_choose(3); c = IFF_createRawChunk(R_TEXT, 3); t = (IFF_RawChunk *)c; live = vf_live_blocks(); old = t->chunkData; old[0] = old[1] = old[2] = 'x'; arm(2); IFF_setTextData(t, tx[k]); disarm();
      vf_assert(vf_live_blocks() == live, "setting text leaks or loses memory");
      if (env_alloc_failed) { vf_reach("failed"); vf_assert(t->chunkData == old && t->chunkSize == 3 && old[0] == 'x' && old[2] == 'x', "a failing assignment of text changes the chunk"); } else { vf_reach("succeeded"); vf_assert((size_t)t->chunkSize == strlen(tx[k]) && !memcmp(t->chunkData, tx[k], strlen(tx[k])), "the text is not set although memory was available"); }
      IFF_free(c, NULL); vf_assert(vf_live_blocks() == base, "memory left after freeing"); return; }
    c = w == 0 ? (IFF_Chunk *)IFF_createEmptyForm(vf_u32()) : w == 1 ? (IFF_Chunk *)IFF_createEmptyCATWithContentsType(vf_u32()) : w == 5 ? (IFF_Chunk *)IFF_createEmptyProp(vf_u32()) : (IFF_Chunk *)IFF_createEmptyListWithContentsType(vf_u32());
    g = (IFF_Group *)c; 
    for (i = 0; i <= n; i++) {
      x = w == 3 ? (IFF_Chunk *)IFF_createEmptyProp(MKID('T','E','S','T')) : w == 4 || w == 1 ? (IFF_Chunk *)IFF_createEmptyForm(MKID('T','E','S','T')) : IFF_createRawChunk(MKID('B','O','D','Y'), 1);
      live = vf_live_blocks(); size = g->chunkSize; len = w == 3 ? ((IFF_List *)g)->propLength : g->chunkLength;
      if (i == n) arm(2);
      if (w == 0) IFF_addToForm((IFF_Form *)c, x); else if (w == 1) IFF_addToCATAndUpdateContentsType((IFF_CAT *)c, x); else if (w == 2) IFF_addToList((IFF_List *)c, x); else if (w == 3) IFF_addPropToList((IFF_List *)c, (IFF_Prop *)x); else if (w == 4) IFF_addToListAndUpdateContentsType((IFF_List *)c, x); else IFF_addToProp((IFF_Prop *)c, x);
      disarm();
      if (env_alloc_failed) { vf_reach("failed"); vf_assert(x->parent == NULL && g->chunkSize == size && len == (w == 3 ? ((IFF_List *)g)->propLength : g->chunkLength), "a failing addition leaves the group half changed"); vf_assert(vf_live_blocks() == live, "a failing addition leaks memory"); IFF_free(x, NULL); }
      else vf_assert(x->parent == g && g->chunkSize != size, "an addition fails although memory was available");
    }
    if (!env_alloc_failed) vf_reach("succeeded");
    IFF_free(c, NULL); vf_assert(vf_live_blocks() == base, "memory left after freeing"); vf_obs(w); }
#endif
  (void)m; (void)live; (void)base;
}
