/* Reading N arbitrary bytes (default registry): C01, C02, C03, C04, C23, C28, C30
 *   MUT   instead: the encoding of any hierarchy in which four bytes anywhere are arbitrary,
 *         with and without 16 further bytes behind it */
#include "ref.h"
#ifndef N
#define N 16
#endif
static size_t len = N;
void harness(void) {
  u8 *b; env_file *f; IFF_Chunk *c; int base, r, conf = 3; rn *m = NULL; size_t pos = 0;
#ifdef MUT
  { rn *g; size_t at, more; u8 *e; g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX; g_anycomp = 1; g_mixed = 1; g = g_tree(vf_choose(4), 0); len = (size_t)r_total(g); more = P != 1 && vf_choose(2) ? 16 : 0; b = h_alloc(len + TRAIL + more); e = r_encode(g, b, 0); while (e < b + len + TRAIL) *e++ = vin_u8(); memset(e, 0, more);
    at = (size_t)vf_choose((int)(len + TRAIL) - 3); len += TRAIL + more; b[at] = vin_u8(); b[at + 1] = vin_u8(); b[at + 2] = vin_u8(); b[at + 3] = vin_u8(); }
#else
  b = sym_bytes(N);
#endif
  f = env_new_in(b, len);
  quiet(); base = vf_live_blocks();
#ifdef SEEKLESS
  f->seekable = 0;
#endif
  env_out = env_new_out(8192);
  c = IFF_readFd(EF(f), NULL);
  if (!c) {
    vf_reach("refused");
    CHK(3, vf_live_blocks() == base, "memory kept after a refused read");
    CHK(23, vf_live_blocks() == base, "memory kept after a refused read");
    CHK(28, env_diag_calls > 0, "reading failed without any diagnostic");
    CHK(28, env_stderr_bytes == 0, "the library wrote to stderr although a callback is installed");
    if (P == 2) { r = r_parse(b, len, &pos, &m, &conf); vf_assert(r != 1, "a complete, properly nested file was refused"); }
    return;
  }
  vf_reach("accepted");
  if (P == 2 || P == 3 || P == 4) {
    r = r_parse(b, len, &pos, &m, &conf);
    if (r == 2) { vf_reach("not-properly-nested"); return; }
    CHK(3, r == 1, "a truncated file was accepted");
    CHK(4, r == 1, "a chunk with a negative size or beyond the end of the file was accepted");
    if (r == 1) { vf_reach("parsed"); if (m->kind != RAW && m->nk) vf_reach("parsed-members"); CHK(2, r_match(m, c, NULL), "the hierarchy differs from what the bytes denote"); }
    if (r == 1) CHK(4, f->pos == pos || (f->pos == pos + 1 && pos < len), "reading did not consume exactly the chunk's extent");
  }
  if (P == 1) use(c, len);
  IFF_free(c, NULL);
  CHK(23, vf_live_blocks() == base, "memory left after freeing the hierarchy");
  CHK(1, vf_live_blocks() == base, "memory left after freeing the hierarchy");
}
