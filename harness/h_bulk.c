/* A data chunk of any size up to what a FORM can hold, followed by another
 * chunk: C01 C02 C04 C05 C14 C16 */
#include "ref.h"
void harness(void) {
  u8 *b = h_alloc(64), *e = b; u32 s = vf_u32(), odd = (u32)vf_choose(2), t; env_file *f, *o; IFF_Chunk *c; IFF_Form *fm; IFF_RawChunk *r1, *r2; int base; u8 m0 = vin_u8(), m1 = vin_u8();
  vf_assume(s <= 0x7fffffff - 32); vf_assume((s & 1) == odd);
#ifdef SMALL
  vf_assume(s < SMALL);
#endif
  vf_assume(s > 64); t = 4 + 8 + s + odd + 8 + 2;
  e = r_put32(e, R_FORM); e = r_put32(e, t); e = r_put32(e, MKID('T','E','S','T')); e = r_put32(e, MKID('B','O','D','Y')); e = r_put32(e, s);
  f = env_new_in(b, 0); f->has_bulk = 1; f->bulk_at = (size_t)(e - b); f->bulk_len = s;
  if (odd) *e++ = 0;
  e = r_put32(e, MKID('M','A','R','K')); e = r_put32(e, 2); *e++ = m0; *e++ = m1; f->len = (size_t)(e - b);
  quiet(); base = vf_live_blocks();
#ifdef CUT
  /* the data ends early, by any number of bytes */
  { u32 cut = vf_u32(); vf_assume(cut < s); f->bulk_len = cut; f->len = f->bulk_at; c = IFF_readFd(EF(f), NULL); CHK(3, c == NULL, "a data chunk that ends early was accepted"); CHK(3, vf_live_blocks() == base, "memory of a refused file was kept"); CHK(23, vf_live_blocks() == base, "memory of a refused file was kept"); CHK(28, env_diag_calls > 0, "a failing read was not explained"); if (!c) vf_reach("refused"); return; }
#endif
  c = IFF_readFd(EF(f), NULL);
  vf_assert(c != NULL, "a properly nested file was refused"); vf_reach("read");
  fm = (IFF_Form *)c; CHK(2, fm->chunkLength == 2 && (u32)c->chunkSize == t, "the hierarchy differs from what the bytes denote");
  CHK(4, fm->chunkLength == 2, "the chunk after a large one was not found");
  r1 = (IFF_RawChunk *)fm->chunk[0]; r2 = (IFF_RawChunk *)fm->chunk[1];
  if (P == 2 || P == 4) vf_assert((u32)r1->chunkSize == s && r2->chunkId == MKID('M','A','R','K') && r2->chunkSize == 2 && r2->chunkData[0] == m0 && r2->chunkData[1] == m1, "the chunk after a large one was not read from where it is stored");
  CHK(4, f->pos == f->len, "reading did not consume exactly the declared extent");
  if (P == 2 || P == 4 || P == 1) vf_touch(r1->chunkData, s, 1);
  if (P == 14 || P == 1) { vf_assert(IFF_check(c, NULL), "a correct declared size is rejected"); r2->chunkSize = 1; fm->chunkSize = c->chunkSize; vf_assert(IFF_check(c, NULL), "padding counts the same for odd sizes"); fm->chunkSize ^= 1 << vf_choose(31); vf_assert(!IFF_check(c, NULL), "a wrong declared size is accepted"); fm->chunkSize = (IFF_Long)t; r2->chunkSize = 2; vf_reach("checked"); }
  if (P == 16) { fm->chunkSize = 0; IFF_updateChunkSizes((IFF_Chunk *)r1); vf_assert((u32)fm->chunkSize == t, "recalculation gives a wrong size"); vf_reach("updated"); }
  if (P == 5 || P == 1) { o = env_new_out(64); o->has_bulk = 1; vf_assert(IFF_writeFd(EF(o), c, NULL), "writing fails although every byte is accepted");
    vf_assert(o->bulk_w == s, "the data bytes written are not as many as declared"); vf_assert(o->total == (size_t)t + 8, "the output is not as long as the canonical encoding");
    { int ok = o->len == f->len, i; if (ok) for (i = 0; i < (int)f->len; i++) ok &= o->data[i] == b[i]; vf_assert(ok, "the output is not the canonical encoding"); } vf_reach("written"); }
  vf_obs(c->chunkSize);
  IFF_free(c, NULL); CHK(23, vf_live_blocks() == base, "memory left after freeing");
}
