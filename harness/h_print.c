/* Printing: C27 C30 C23 */
#include "ref.h"
#include "pmatch.h"
#ifndef CAP
#define CAP 8000
#endif
static rn *gen(void) {
#ifdef SHAPES
  f_fixdata = 1; return f_anyshape();
#elif defined(NODES)
  g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX; g_anycomp = 1;
#ifdef FIDS
  g_fids = 1;
#endif
  return g_tree(vf_choose(5), 0);
#else
  return NULL;
#endif
}
static void text_ids(rn *n, int *w) { int i; for (i = 0; i < n->np; i++) text_ids(n->prop[i], w); for (i = 0; i < n->nk; i++) text_ids(n->kid[i], w); if (n->kind == RAW && (*w)-- == 0) n->id = R_TEXT; }
void harness(void) {
  rn *m; IFF_Chunk *c; int base, live; unsigned lvl = 0;
#ifndef DEPTH
#ifdef SHAPES
#define DEPTH VDEEP
#else
#define DEPTH DEEP
#endif
#endif
  quiet(); if (P == 27) pm_calibrate(DEPTH * 2 + 3);
#if defined(DATA) /* one data chunk, any bytes */
  m = r_new(RAW); m->id = vf_choose(2) ? R_TEXT : g_rawid(); m->dlen = m->size = (u32)vf_choose(DATA + 1); m->data = sym_bytes(m->dlen); lvl = (unsigned)vf_choose(3);
  if (vf_choose(2)) { rn *g = r_new(FORM); g->type = vf_u32(); r_addkid(g, m); r_fixsizes(g); m = g; }
#elif defined(LONGDATA)
  { static const u32 ls[] = {9, 10, 11, 15, 16, 17, 19, 20, 21, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097}; m = r_new(RAW); m->id = vf_choose(2) ? R_TEXT : g_rawid(); m->dlen = m->size = ls[vf_choose(sizeof ls / sizeof *ls)]; m->data = h_alloc(m->dlen); memset(m->data, '#', m->dlen); { u32 at = vf_choose(4) * (m->dlen - 1) / 3; m->data[at] = vin_u8(); } }
#elif defined(SIZES)
  { static const u32 ss[] = {0, 1, 9, 10, 99, 100, 12345, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0xffffffffu}; m = r_new(1 + vf_choose(4)); m->type = vf_u32(); m->size = ss[vf_choose(sizeof ss / sizeof *ss)]; }
#else
  m = gen(); { int w = vf_choose(3); text_ids(m, &w); }
#endif
  base = vf_live_blocks(); c = g_build(m); live = vf_live_blocks(); env_out = env_new_out(CAP);
  if (P == 30) vf_snapshot();
  IFF_print(c, lvl, NULL);
  if (P == 30) vf_assert(vf_snapshot_same(), "printing changes the hierarchy");
  CHK(23, vf_live_blocks() == live, "printing leaves memory allocated");
  CHK(27, pm_match(m, env_out->data, env_out->len), "the text does not show the hierarchy as it is");
#ifdef TWICE /* an equal text means an equal hierarchy */
  { rn *m2; IFF_Chunk *c2; env_file *o1 = env_out; size_t i; int eq; g_index = 0; m2 = gen(); { int w = vf_choose(3); text_ids(m2, &w); } c2 = g_build(m2); env_out = env_new_out(CAP); IFF_print(c2, lvl, NULL);
    eq = o1->len == env_out->len; for (i = 0; eq && i < o1->len; i++) eq = o1->data[i] == env_out->data[i];
    if (eq) { vf_reach("same-text"); CHK(27, r_equal(m, m2), "different hierarchies print the same text"); } else vf_reach("different-text"); return; }
#endif
  vf_obs(env_out->len);
  if (P != 23) return;
  IFF_free(c, NULL); vf_assert(vf_live_blocks() == base, "memory left after freeing");
}
