/* Hierarchies composed through the interface, then written: C05 C06 C08 C23 C28 C30 */
#include "ref.h"
#ifndef FOPS
#define FOPS 250
#endif
static rn *gen(void) {
#ifdef CONF
  g_conf = 1;
#endif
#ifdef FULLTYPE
  g_fulltype = 1;
#endif
#ifdef SHAPE
  return f_shape(SHAPE);
#elif defined(SHAPES)
  return f_anyshape();
#else
  g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX;
#ifdef ANYCOMP
  g_anycomp = 1;
#endif
  return g_tree(g_conf ? 1 + vf_choose(3) : vf_choose(4), 0);
#endif
}
static int same(const u8 *a, const u8 *b, size_t n) { int ok = 1; size_t i; for (i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
#ifdef SLACK
/* any group may declare more bytes than its members take */
static void slack(rn *n) { int i; for (i = 0; i < n->np; i++) slack(n->prop[i]); for (i = 0; i < n->nk; i++) slack(n->kid[i]); n->size = (u32)r_body(n); if (n->kind != RAW) n->size += (u32)vf_choose(SLACK + 1); }
#elif defined(ANYDECL)
/* any group may declare a byte more or some bytes fewer than its members take, or none */
static void slack(rn *n) { int i, k; for (i = 0; i < n->np; i++) slack(n->prop[i]); for (i = 0; i < n->nk; i++) slack(n->kid[i]); n->size = (u32)r_body(n); if (n->kind != RAW) { k = vf_choose(5); n->size = k == 4 ? 0 : n->size + 1 - (u32)k; } }
#elif defined(SLACKS)
static void slack(rn *n) { static const u32 by[] = {0, 1, 2, 15, 16, 17, 63, 64, 65, 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 8193, 65536, 70001}; r_fixsizes(n); if (n->kind != RAW) n->size += by[vf_choose(sizeof by / sizeof *by)]; }
#endif
void harness(void) {
  rn *m = gen(); size_t n; u8 *b; env_file *o; IFF_Chunk *c, *d; int base, how = 0, ok; IFF_Bool r;
#if defined(SLACK) || defined(SLACKS) || defined(ANYDECL)
  slack(m);
#endif
#ifdef ANYDECL
  /* whatever writing makes of it, it only observes */
  quiet(); c = g_build(m); o = env_new_out(4000); { int live = vf_live_blocks(); vf_snapshot(); r = IFF_writeFd(EF(o), c, NULL); vf_assert(vf_snapshot_same(), "writing changes the hierarchy"); vf_assert(vf_live_blocks() == live, "writing leaves memory allocated"); vf_reach("written"); vf_obs(r); vf_obs(o->len); return; }
#endif
  n = (size_t)r_total(m); b = h_alloc(n + 1); { u8 *e = r_encode(m, b, 0xffffffff); vf_assert((size_t)(e - b) == n, "harness: model extent"); }
  quiet(); base = vf_live_blocks(); c = g_build(m);
  env_out = o = env_new_out(n + 64);
#ifdef FAULT
  { /* 0,1,2: writeFd; 3..: file of its own; 6..: standard output */
    int mode = vf_choose(9); size_t lim; int kind; env_file *nf = env_add_out("out.iff", n + 64);
    kind = mode % 3; how = mode / 3;
    if (how == 1) o = nf;
    if (kind == 0) { lim = vf_u32(); vf_assume(lim < n); o->wlimit = lim; }             /* the device takes lim bytes */
    else if (kind == 1) { env_write_fail_op = (int)vin_u8(); vf_assume(env_write_fail_op < FOPS); }                                             /* one operation fails once */
    else if (how == 0) { vf_assume(0); }
    else if (vf_choose(2)) { lim = vf_u32(); vf_assume(lim < n); o->wlimit = lim; o->wdefer = 1; }                   /* only noticed when flushed */
    else { vf_assume(how == 1); o->close_fail = 1; }
    if (P == 30) vf_snapshot();
    r = how == 0 ? IFF_writeFd(EF(o), c, NULL) : how == 1 ? IFF_writeFile("out.iff", c, NULL) : IFF_write(NULL, c, NULL);
    if (P == 30) vf_assert(vf_snapshot_same(), "a failing write changes the hierarchy");
    if (kind == 1 && env_write_ops <= env_write_fail_op) { vf_reach("no-failure"); CHK(8, r, "a write without any failing operation is reported as failed"); }
    else { CHK(8, !r, "a write that did not fully succeed is reported as successful"); CHK(28, env_diag_calls > 0, "a failing write was not explained"); vf_reach(how == 0 ? "fault-fd" : how == 1 ? "fault-file" : "fault-stdout"); }
    CHK(8, env_files_open == 0, "the output is left open"); if (how == 1) CHK(8, nf->closed == 1, "the output is not closed exactly once");
    vf_obs(r); vf_obs(mode);
    if (P != 23) return; IFF_free(c, NULL); CHK(23, vf_live_blocks() == base, "memory left after a failing write"); return; }
#endif
#if defined(HOW)
  how = vf_choose(4);
#endif
  if (P == 30) vf_snapshot();
  if (how == 0) r = IFF_writeFd(EF(o), c, NULL);
  else if (how == 1) { o = env_add_out("o.iff", n + 64); r = IFF_writeFile("o.iff", c, NULL); }
  else if (how == 2) { o = env_add_out("o.iff", n + 64); r = IFF_write("o.iff", c, NULL); }
  else r = IFF_write(NULL, c, NULL);
  if (P == 30) vf_assert(vf_snapshot_same(), "writing changes the hierarchy");
  CHK(5, r, "writing fails although the output accepts every byte"); CHK(8, r, "writing is reported as failed although every byte was accepted");
  CHK(6, r, "writing fails although the output accepts every byte");
  CHK(8, env_files_open == 0, "the output is left open");
  ok = o->len == n && same(o->data, b, n);
  CHK(5, ok, "the output is not the canonical encoding");
  vf_reach("written"); vf_obs((u64)o->len); if (m->np) vf_reach("shared-properties"); if (n & 2) vf_reach("even-odd");
#ifdef CONF
  CHK(28, env_diag_calls == 0, "writing a conforming hierarchy is not silent");
  if (P == 6) {
    env_file *f; vf_assert(IFF_check(c, NULL), "the model and the check disagree");
    if (how == 1 || how == 2) { env_add("i.iff", o->data, o->len); d = vf_choose(2) ? IFF_readFile("i.iff", NULL) : IFF_read("i.iff", NULL); }
    else { f = env_new_in(o->data, o->len); if (how == 3) { env_in = f; d = IFF_read(NULL, NULL); } else d = IFF_readFd(EF(f), NULL); }
    vf_assert(d != NULL, "what was written cannot be read");
    vf_assert(IFF_compare(c, d, NULL) && IFF_compare(d, c, NULL), "what was read does not compare equal to what was written");
    vf_assert(r_match(m, d, NULL), "what was read differs from what was written"); vf_assert(IFF_check(d, NULL), "what was read does not conform");
    vf_reach("read-back"); IFF_free(d, NULL);
  }
#endif
  IFF_free(c, NULL);
  CHK(23, vf_live_blocks() == base, "memory left after freeing a composed hierarchy");
  CHK(6, env_files_open == 0, "an input is left open");
}
