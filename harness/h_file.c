/* Files that properly encode a hierarchy (ids, types, data and, with PADSYM,
 * padding bytes symbolic), complete or cut at any point:
 * C02 C03 C04 C07 C23 C28 */
#include "ref.h"
#ifndef KIND
#define KIND -1
#endif
static rn *gen(void) {
#ifdef CONF
  g_conf = 1;
#endif
#ifdef LATE
  g_late = 1;
#endif
#ifdef FULLTYPE
  g_fulltype = 1;
#endif
#ifdef SHAPE
  return f_shape(SHAPE);
#elif defined(SHAPES)
  return f_anyshape();
#else
  g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX;
#ifdef ANYCOMP
  g_anycomp = 1;
#endif
#ifdef FIXLEN
  g_lenchoice = 0;
#endif
  { int k = KIND >= 0 ? KIND : g_conf ? 1 + vf_choose(3) : vf_choose(4); return g_tree(k, 0); }
#endif
}
static int same(const u8 *a, const u8 *b, size_t n) { int ok = 1; size_t i; for (i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
void harness(void) {
  rn *m = gen(); size_t n = (size_t)r_total(m), total; u8 *b; env_file *f; IFF_Chunk *c; int base, i; env_file *o;
#ifndef TRAIL
#define TRAIL 0
#endif
#ifdef PADSYM
  r_padsym = 1;
#endif
  b = h_alloc(n + TRAIL + 1); { u8 *e = r_encode(m, b, 0); vf_assert((size_t)(e - b) == n, "harness: model extent"); }
  for (i = 0; i < TRAIL; i++) b[n + i] = vin_u8();
  total = n + TRAIL; f = env_new_in(b, total);
  quiet(); base = vf_live_blocks();
#ifdef CUT
  /* the stream ends, or starts failing, before the last byte of the main chunk */
  { size_t cut = vf_u32(); vf_assume(cut < n);
    if (CUT == 1) f->len = cut; else f->read_fail_at = cut;
    c = IFF_readFd(EF(f), NULL);
    CHK(3, c == NULL, "a file that ends or fails early was accepted");
    CHK(3, vf_live_blocks() == base, "memory of a partially read hierarchy was kept");
    CHK(23, vf_live_blocks() == base, "memory of a partially read hierarchy was kept");
    CHK(28, env_diag_calls > 0, "a failing read was not explained");
    vf_reach("refused"); vf_obs(cut); return; }
#endif
  c = IFF_readFd(EF(f), NULL);
  vf_assert(c != NULL, "a file that encodes complete, properly nested chunks was refused");
  vf_reach("read"); if (m->kind != RAW && m->nk > 1) vf_reach("several-members"); if (m->np) vf_reach("shared-properties");
  vf_obs(r_count(m)); vf_obs((u64)f->pos);
  CHK(2, r_match(m, c, NULL), "the hierarchy differs from what the bytes denote");
  CHK(4, f->pos == n || f->pos == n + (TRAIL > 0), "reading did not consume exactly the declared extent");
  CHK(4, r_match(m, c, NULL), "a following chunk was not found where the declared extent ends");
#ifdef CONF
#if !TRAIL && !defined(PADSYM)
  CHK(28, env_diag_calls == 0, "reading a conforming file is not silent");
#endif
  if (P == 7 || P == 28 || P == 13) {
    vf_assert(IFF_check(c, NULL), "the conforming file does not pass the check");
    CHK(28, env_diag_calls == 0 || TRAIL, "checking a conforming hierarchy is not silent");
    o = env_new_out(n + 16);
    vf_assert(IFF_writeFd(EF(o), c, NULL), "writing the conforming hierarchy fails");
    CHK(28, env_diag_calls == 0 || TRAIL, "writing a conforming hierarchy is not silent");
    CHK(7, o->len == n && same(o->data, b, n), "the rewritten file differs from the original");
    vf_reach("rewritten");
    if (P == 28) { vf_assert(IFF_compare(c, c, NULL), "not equal to itself"); vf_assert(env_diag_calls == 0 || TRAIL, "comparing is not silent"); }
  }
#endif
  if (P == 1) { env_out = env_new_out(20000); use(c, n); vf_reach("used"); }
  IFF_free(c, NULL);
  CHK(23, vf_live_blocks() == base, "memory left after freeing a hierarchy that was read");
}
