/* What happens to the streams and files involved: C33
 *   READ, WRITE */
#include "ref.h"
static int same(const u8 *a, const u8 *b, size_t n) { int ok = 1; size_t i; for (i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
static rn *gen(void) { g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX; return g_tree(vf_choose(4), 0); }
static const char *name(void) { static const char *n[] = {"f", "-", "a b.iff", "stdin"}; return n[vf_choose(4)]; }
static void untouched(env_file *f, int open, const char *m) { vf_assert(f->open == open && f->closed == 0 && f->total == 0 && f->pos == 0 && !f->eof && !f->err, m); }
#ifdef READ
void harness(void) {
  rn *m = gen(); size_t n = (size_t)r_total(m), pre = (size_t)vf_choose(3), cut; u8 *b = h_alloc(n + pre + 3), *e; env_file *f, *other; int how = vf_choose(5), bad = vf_choose(3), i; IFF_Chunk *c; const char *nm = "f";
  for (i = 0; i < (int)pre; i++) b[i] = vin_u8(); e = r_encode(m, b + pre, 0); vf_assert((size_t)(e - b) == n + pre, "harness: model extent"); *e++ = vin_u8(); *e++ = vin_u8();
  quiet(); other = env_add("other", b, n); untouched(other, 0, "harness");
  if (how >= 2) vf_assume(pre == 0);
  if (how == 0 || how == 1) { f = env_new_in(b, n + pre + 2); f->pos = pre; f->seekable = how == 0; if (how == 0 && vf_choose(2)) env_in = f; }
  else if (how == 2 || how == 3) f = env_add(nm = name(), b, n + 2);
  else { f = env_new_in(b, n + 2); f->seekable = vf_choose(2); env_in = f; }
  if (bad) { cut = vf_u32(); vf_assume(cut < n); if (bad == 1) f->len = pre + cut; else f->read_fail_at = pre + cut; }
  c = how <= 1 ? IFF_readFd(EF(f), NULL) : how == 2 ? IFF_readFile(nm, NULL) : how == 3 ? IFF_read(nm, NULL) : IFF_read(NULL, NULL);
  if (bad) { vf_assert(c == NULL, "a stream that ends or fails early was accepted"); vf_reach("refused"); }
  else { vf_assert(c != NULL && r_match(m, c, NULL), "reading does not start where the stream stands"); vf_assert(f->pos - (f->unget >= 0) <= pre + n + 1, "more than the byte after the main chunk was consumed"); vf_reach("read"); }
  if (how == 2 || how == 3) { vf_assert(!f->open && f->everopen >= 1 && f->closed == f->everopen, "a file opened for reading is not closed exactly once"); vf_reach("file"); }
  else { vf_assert(f->open && f->closed == 0, "the caller's stream was closed"); vf_reach(how == 4 ? "standard-input" : "stream"); }
  vf_assert(env_files_open == 0 && env_fopen_w_count == 0, "another file was opened");
  untouched(other, 0, "another file was touched"); vf_assert(other->everopen == 0, "another file was opened");
  if (f != env_in) untouched(env_in, 1, "the standard input was touched");
  untouched(env_out, 1, "reading writes to the standard output");
  /* a file that does not exist */
  { int d = env_diag_calls; IFF_Chunk *x = ({ const char *q = vf_choose(2) ? "missing" : ""; vf_choose(2) ? IFF_read(q, NULL) : IFF_readFile(q, NULL); }); vf_assert(x == NULL, "a file that cannot be opened was read"); vf_assert(env_diag_calls > d, "a file that cannot be opened is not explained"); vf_assert(env_files_open == 0, "something is left open"); if (f != env_in) untouched(env_in, 1, "the standard input was read instead of a missing file"); }
  if (c) IFF_free(c, NULL); vf_obs(n); vf_obs(how); vf_obs(bad);
}
#else
void harness(void) {
  rn *m = gen(); size_t n = (size_t)r_total(m), pre = (size_t)vf_choose(3), cut; u8 *b = h_alloc(n + 1), p[2]; env_file *f, *other; int how = vf_choose(4), bad = vf_choose(2); const char *nm = "f"; IFF_Chunk *c; IFF_Bool r;
  p[0] = vin_u8(); p[1] = vin_u8(); r_encode(m, b, 0); quiet(); c = g_build(m);
  int old = 0; env_out = env_new_out(n + 64); other = env_add_out("other", n + 64); if (vf_choose(2)) env_out->seekable = 0; if (how >= 2) vf_assume(pre == 0 || how == 3);
  f = how == 0 ? env_new_out(n + 64) : how == 3 ? env_out : env_add_out("f", n + 64);
  if (how == 1 || how == 2) vf_assume(pre == 0);
  if (pre) { memcpy(f->data, p, pre); f->len = f->total = pre; }
  if ((how == 1 || how == 2) && vf_choose(2)) { old = 1; f->exists = 1; f->len = n + 40; memset(f->data, 'o', n + 40); } /* a longer file of that name exists */
  if (bad) { cut = vf_u32(); vf_assume(cut < n); f->wlimit = pre + cut; }
  r = how == 0 ? IFF_writeFd(EF(f), c, NULL) : how == 1 ? IFF_writeFile(nm, c, NULL) : how == 2 ? IFF_write(nm, c, NULL) : IFF_write(NULL, c, NULL);
  vf_assert(same(f->data, p, pre), "bytes written before were changed");
  if (bad) { vf_assert(!r, "a write that did not succeed is reported as successful"); vf_reach("failed"); }
  else { vf_assert(r && f->len == pre + n && same(f->data + pre, b, n), "the encoding is not written where the stream stands"); vf_reach("written"); }
  if (how == 1 || how == 2) { vf_assert(!f->open && f->everopen >= 1 && f->closed == f->everopen, "a file opened for writing is not closed exactly once"); vf_reach("file"); if (old) vf_reach("replaced"); }
  else { vf_assert(f->open && f->closed == 0, "the caller's stream was closed"); vf_reach(how == 3 ? "standard-output" : "stream"); }
  vf_assert(env_files_open == 0 && other->everopen == 0 && env_fopen_w_count == (how == 1 || how == 2), "another file was opened");
  if (f != env_out) untouched(env_out, 1, "the standard output was written to"); untouched(env_in, 1, "the standard input was touched");
  { size_t t = env_out->total; int d = env_diag_calls; { const char *q = vf_choose(2) ? "missing" : ""; r = vf_choose(2) ? IFF_write(q, c, NULL) : IFF_writeFile(q, c, NULL); } vf_assert(!r, "a file that cannot be opened was written"); vf_assert(env_diag_calls > d, "a file that cannot be opened is not explained"); vf_assert(env_out->total == t && env_files_open == 0, "the standard output was written instead of a file that cannot be opened"); }
  IFF_free(c, NULL); vf_obs(n); vf_obs(how); vf_obs(bad);
}
#endif
