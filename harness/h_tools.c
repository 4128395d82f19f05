/* The command line tools: C25 (JOIN) and C26 (PP), through their main or the function behind it */
#include "ref.h"
#include "pmatch.h"
static int same(const u8 *a, const u8 *b, size_t n) { int ok = 1; size_t i; for (i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
#ifdef JOIN
#include "join.h"
#ifndef FILES
#define FILES 3
#endif
#ifndef MANY
#define MANY 0
#endif
#define NF (MANY > 4 ? MANY : 4)
static char *names[] = {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "fa", "fb", "fc", "fd", "fe", "ff", "g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "ga", "gb", "gc", "gd", "ge", "gf", "h0", "h1", "h2", "h3"};
#if !MANY
static rn *one(void) { int f = 1 + vf_choose(3); g_conf = 1; g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX; g_pkind = RAW; return g_tree(f, 0); }
#endif
void harness(void) {
  rn *m[NF], *cat; int k, i, bad = -1, how = 0, outm, st, base, argc = 0, diff = 0; u8 *b; size_t n; env_file *o, *f; char *argv[NF + 12]; int sameas = 0;
#if MANY
  { u32 t = g_validtype(); int odd = vf_choose(3); k = MANY; for (i = 0; i < k; i++) { m[i] = m_grp(FORM + i % 3, i == (odd == 1 ? k - 1 : odd == 2 ? k / 2 : k) ? MKID('Z','Z','Z','1') : t); if (i % 3 == 0) r_addkid(m[i], m_raw(MKID('A','B','0' + i / 10, '0' + i % 10), (u32)i % 4)); m[i]->size = (u32)r_body(m[i]); } }
#else
  k = vf_choose(FILES + 1); for (i = 0; i < k; i++) m[i] = one();
#endif
#ifdef AGAIN
  if (k > 1) { sameas = 1; m[k - 1] = m[0]; }
#endif
#ifdef BAD
  vf_assume(k > 0); bad = vf_choose(k); how = vf_choose(7);
#endif
  for (i = 0; i < k; i++) { u8 *e; size_t len;
    if (i == k - 1 && sameas) continue;
    if (i == bad && how == 0) continue; /* missing */
    if (i == bad) {
      if (how == 3) { m[i] = m_raw(MKID('B','O','D','Y'), 1); }                                                       /* not a group */
      if (how == 4) { m[i] = m_grp(PROP, MKID('T','E','S','T')); }                                                    /* shared properties on their own */
      if (how == 5) { m[i] = r_new(FORM); m[i]->type = vf_u32(); vf_assume(!r_validtype(m[i]->type)); m[i]->size = 4; } /* no form type */
      if (how == 6) { rn *q = r_new(FORM); q->type = MKID('T','E','S','T'); q->size = 4; m[i] = r_new(CAT); m[i]->type = MKID('A','B','C','D'); r_addkid(m[i], q); r_fixsizes(m[i]); } /* contents of another type */
    }
    len = (size_t)r_total(m[i]); b = h_alloc(len + 1); e = r_encode(m[i], b, 0); vf_assert((size_t)(e - b) == len, "harness: model extent"); f = env_add(names[i], b, len);
    if (i == bad && how == 1) { size_t c = vf_u32(); vf_assume(c < len); f->len = c; }
    if (i == bad && how == 2) { size_t c = vf_u32(); vf_assume(c < len); f->read_fail_at = c; }
  }
  cat = r_new(CAT); cat->type = R_JJJJ;
  for (i = 0; i < k; i++) { rn *q = m[i], *c = r_new(q->kind); *c = *q; r_addkid(cat, c); if (i == 0) cat->type = q->type; else diff |= q->type != m[0]->type; }
  if (diff) cat->type = R_JJJJ;
  cat->size = (u32)r_body(cat); n = (size_t)r_total(cat); b = h_alloc(n + 1); r_encode(cat, b, 0);
#ifdef OUTFAIL
  outm = vf_choose(6);
#else
  outm = vf_choose(2);
#endif
  env_out = env_new_out(4000); o = env_out;
  if (outm != 1 && outm != 2) o = env_add_out("out", n + 64);
  if (outm == 3) { size_t l = vf_u32(); vf_assume(l < n); if (vf_choose(2)) o = env_out; o->wlimit = l; }
  if (outm == 4) o->close_fail = 1;
  if (outm == 5) { size_t l = vf_u32(); vf_assume(l < n); o->wlimit = l; o->wdefer = 1; }
  base = vf_live_blocks();
#ifdef OOM
  env_alloc_fail_all = vf_choose(2); env_alloc_count = 0; env_alloc_failed = 0; env_alloc_fail = (int)vin_u8(); vf_assume(env_alloc_fail < OOM);
#endif
#ifdef VF_MAIN
  argv[argc++] = "iffjoin";
  if (o != env_out || outm == 2) switch (vf_choose(4)) { case 0: argv[argc++] = "-o"; argv[argc++] = "out"; break; case 1: argv[argc++] = "-oout"; break; case 2: argv[argc++] = "--output-file"; argv[argc++] = "out"; break; default: argv[argc++] = "--output-file=out"; break; }
  for (i = 0; i < k; i++) argv[argc++] = names[i == k - 1 && sameas ? 0 : i]; argv[argc] = NULL;
  if (k == 0) { st = tool_main(argc, argv); vf_assert(st != 0, "no input at all is reported as success"); vf_assert(env_fopen_w_count == 0 && env_out->total == 0, "the output was touched without any input"); vf_reach("no-input"); return; }
  st = tool_main(argc, argv);
#else
  for (i = 0; i < k; i++) argv[i] = names[i == k - 1 && sameas ? 0 : i];
  st = IFF_join(argv, (unsigned)k, o == env_out && outm != 2 ? NULL : "out");
#endif
  vf_assert(env_files_open == 0, "a file is left open"); vf_assert(vf_live_blocks() == base, "memory is left allocated");
#ifdef OOM
  env_alloc_fail = -1; env_alloc_fail_all = 0;
  if (env_alloc_failed) { vf_assert(st != 0, "joining is reported as successful although memory for it was not available"); vf_reach("failed"); vf_obs(k); return; }
#endif
  if (bad >= 0) { vf_assert(st != 0, "joining an input that is missing, unreadable or non-conforming is reported as success"); vf_assert(env_fopen_w_count == 0 && env_out->total == 0, "the output was touched although an input was refused"); vf_reach("refused"); vf_obs(how); vf_obs(bad); return; }
  if (outm >= 2) { vf_assert(st != 0, "output that cannot be written completely is reported as success"); vf_reach("output-failure"); vf_obs(outm); return; }
  vf_assert(st == 0, "joining valid files fails"); vf_assert(o->len == n && same(o->data, b, n), "the output is not the concatenation of all inputs in order with the right contents type");
  if (o != env_out) vf_assert(env_out->total == 0, "something else is written to the standard output");
  vf_reach(k == 0 ? "none" : k == 1 ? "one" : "several"); if (diff) vf_reach("mixed"); else vf_reach("uniform"); vf_obs(n);
}
#else
#include "pp.h"
static int shows(const env_file *o) { size_t i; for (i = 0; i + 9 <= o->len; i++) if (!memcmp(o->data + i, "chunkSize", 9)) return 1; return 0; }
void harness(void) {
  rn *m; u8 *b, *e; size_t n, i; env_file *f; int how, in, off, st, base, argc = 0, good; char *argv[6];
  pm_calibrate(DEPTH * 2 + 3);
#ifdef VF_MAIN
  if (vf_choose(2)) { static char *fl[] = {"-h", "--help", "-v", "--version", "-x", "--nonsense"}; int w = vf_choose(6); argv[0] = "iffpp"; argv[1] = fl[w]; argv[2] = NULL; st = tool_main(2, argv); vf_assert(w < 4 ? st == 0 : st != 0, "the status of an informational or unknown option is wrong"); vf_assert(!shows(env_out), "a hierarchy is shown although nothing was asked for"); vf_reach("options"); return; }
#endif
  g_mixed = 1; g_anycomp = 1; g_wild = vf_choose(NODES + 1) + 1; g_nodes = NODES; g_depth = DEPTH; g_kids = KIDS; g_rawmax = RAWMAX; m = g_tree(vf_choose(5), 0);
  n = (size_t)r_total(m); b = h_alloc(n + 1); e = r_encode(m, b, 0); vf_assert((size_t)(e - b) == n, "harness: model extent");
#ifdef READABLE
  how = 1;
#else
  how = vf_choose(4);
#endif
  in = vf_choose(2); off = vf_choose(2); env_out = env_new_out(64 + 400 * NODES);
  f = in ? env_new_in(b, n) : how ? env_add("f", b, n) : NULL; if (in) { vf_assume(how); env_in = f; }
  if (how == 2) { size_t c = vf_u32(); vf_assume(c < n); f->len = c; }
  if (how == 3) { size_t c = vf_u32(); vf_assume(c < n); f->read_fail_at = c; }
  base = vf_live_blocks();
#ifdef OOM
  env_alloc_fail_all = vf_choose(2); env_alloc_count = 0; env_alloc_failed = 0; env_alloc_fail = (int)vin_u8(); vf_assume(env_alloc_fail < OOM);
#endif
#ifdef VF_MAIN
  argv[argc++] = "iffpp"; if (off) argv[argc++] = vf_choose(2) ? "-c" : "--disable-check"; if (!in) argv[argc++] = "f"; argv[argc] = NULL; st = tool_main(argc, argv);
#else
  st = IFF_prettyPrint(in ? NULL : "f", off ? IFFPP_DISABLE_CHECK : 0);
#endif
  vf_assert(env_files_open == 0, "a file is left open"); vf_assert(vf_live_blocks() == base, "memory is left allocated");
#ifdef OOM
  env_alloc_fail = -1; env_alloc_fail_all = 0;
  if (env_alloc_failed) { vf_assert(st != 0, "printing is reported as successful although memory for it was not available"); vf_assert(!shows(env_out), "a hierarchy is shown although memory to read it was not available"); vf_reach("failed"); vf_obs((u64)st); return; }
#endif
  good = how == 1 && (off || r_checkroot(m));
  if (good) { vf_assert(st == 0, "a file that can be read, and conforms unless checking is disabled, is reported as failure"); vf_assert(pm_match(m, env_out->data, env_out->len), "the hierarchy is not shown as it is"); vf_reach(off ? "unchecked" : "conforming"); }
  else { vf_assert(st != 0, "a file that cannot be read or does not conform is reported as success"); vf_assert(!shows(env_out), "a hierarchy is shown although the file cannot be read or does not conform"); vf_reach(how == 1 ? "non-conforming" : how == 0 ? "missing" : "unreadable"); }
  vf_obs((u64)st); vf_obs(n); (void)argv; (void)argc; (void)i;
}
#endif
