// symex: path-based symbolic execution of LLVM IR with an SMT back end (Z3).
//
// Every path condition is a conjunction over 8-bit input variables v0,v1,...;
// branches on symbolic data fork, obligations (assertions, memory bounds,
// signed overflow, ...) are decided by the solver for all values of the path.
#include "expr.h"
#include <z3++.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>
#include <map>
#include <set>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;
typedef std::chrono::steady_clock Clk;
static double now() { return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

struct Val { u64 c; Expr *e; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }
static inline Val VE(Expr *e) { if (e->k == E_CONST) return Val{e->c, nullptr}; return Val{0, e}; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

static unsigned PW = 64;           // pointer width
static bool BE = false;            // big endian target
static unsigned SH = 40; static u64 BOFF = 1ULL << 39; static u32 FUNC0 = 0x400000;
static bool X64VA = false;

static Expr *const UNINIT = (Expr *)1;
enum { K_GLOBAL, K_STACK, K_HEAP, K_VARARG };

struct Obj {
  u32 rc = 0; u64 size = 0; Expr *symSize = nullptr; u8 kind = 0; bool ro = false; bool lib = false;
  std::vector<u8> c; std::vector<Expr *> s; std::vector<u8> slotty; std::string name;
  std::map<u64, Expr *> ov; u8 fill = 0, fillv = 0; // blocks of symbolic size: bytes written one by one; the rest is uninitialised (0), fillv (1) or not tracked (2)
};
struct ObjRef { Obj *p; ObjRef() : p(nullptr) {} ObjRef(Obj *q) : p(q) { if (p) p->rc++; } ObjRef(const ObjRef &o) : p(o.p) { if (p) p->rc++; }
  ObjRef(ObjRef &&o) : p(o.p) { o.p = nullptr; } ~ObjRef() { if (p && --p->rc == 0) delete p; }
  ObjRef &operator=(const ObjRef &o) { if (o.p) o.p->rc++; if (p && --p->rc == 0) delete p; p = o.p; return *this; } };

struct COpd { int slot; Val v; };
struct CFunc;
enum OP : u8 { O_BIN, O_ICMP, O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_SELECT, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_ZEXT, O_SEXT, O_TRUNC, O_MOVE, O_UNREACH, O_EXTRACTV, O_INSERTV, O_UNSUP };
struct CInst {
  u8 op = O_UNSUP; u8 sub = 0; u8 w = 0; u8 w2 = 0; u8 flags = 0; int dst = -1; u32 bb1 = 0, bb2 = 0; u64 imm = 0;
  std::vector<COpd> o; std::vector<std::pair<u64, u32>> cases; std::vector<u64> scale; CFunc *callee = nullptr; int intr = 0;
  const Instruction *I = nullptr; bool cov = false; Type *ty = nullptr;
};
struct CPhi { int dst; unsigned w; std::map<u32, COpd> in; };
struct CBlock { u32 first; std::vector<CPhi> phi; };
struct CFunc { std::string name; Function *F; u32 nregs = 0; std::vector<CInst> code; std::vector<CBlock> bb; bool compiled = false; bool hit = false; int intr = 0; u64 addr = 0; u32 nparams = 0; bool vararg = false; std::string file; std::vector<u64> byval; };

struct Frame { CFunc *f; u32 ip; u32 bb; std::vector<Val> regs; std::vector<u32> allocas; int retdst; u64 vaobj; };
struct Obs { Expr *e; u64 c; };
struct State {
  std::vector<Frame> st; std::vector<ObjRef> objs; u32 firstDyn = 0;
  std::vector<Expr *> pc; std::vector<int16_t> known; Model model; std::vector<std::pair<Expr *, u64>> conc;
  u32 nvin = 0; u64 nuninit = 0; u64 steps = 0; u32 forks = 0; int live = 0; u64 heapSerial = 0;
  std::vector<Obs> obs; std::vector<std::string> labels; std::vector<std::pair<u32, ObjRef>> snap; bool incomplete = false;
};

// ------------------------------------------------------------------ globals
static Module *M; static const DataLayout *DL; static LLVMContext Ctx;
static std::map<const Function *, CFunc *> funcs; static std::vector<CFunc *> funcById;
static std::map<const GlobalVariable *, u64> gaddr;
static std::vector<ObjRef> roObjs; // id -> object for read-only globals (index id)
static State *initState;
static std::deque<State *> work;
static struct { u64 paths, dead, errors, inc, steps, forks, queries, qsat, qunsat, qunk, enumq, domq, modelhit, cachehit, asserts, assertSym, memchecks, ubchecks; double solver; u64 maxq; } ST;
static std::set<std::string> errSeen; static FILE *out; static std::map<std::string, u64> labelCount; static std::set<std::string> incSeen;
static u64 maxSteps = 3000000; static u32 maxDepth = 3000; static double tEnd = 1e18; static u32 maxEnum = 300; static u32 wlimit = 3; static u64 rng = 88172645463325252ULL; static u64 maxErrPer = 3;
static std::map<std::string, u64> errCount; static std::string repoPrefix; static std::string smtDir; static u64 smtEvery = 0;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

// ------------------------------------------------------------------ solver
static z3::context *zc; static z3::solver *zs; static std::vector<z3::expr> *zmemo;
static z3::expr Z(Expr *e) {
  if (e->z3idx >= 0) return (*zmemo)[e->z3idx];
  z3::context &c = *zc; z3::expr r(c);
  auto b2v = [&](z3::expr x, unsigned w) { return z3::ite(x, c.bv_val(1, w), c.bv_val(0, w)); };
  switch (e->k) {
  case E_CONST: if (e->w == 1) r = c.bool_val(e->c != 0); else r = c.bv_val((uint64_t)e->c, (unsigned)e->w); break;
  case E_VAR: r = c.bv_const((e->c >= UNINIT_BASE ? "u" + std::to_string(e->c - UNINIT_BASE) : "v" + std::to_string(e->c)).c_str(), 8); break;
  case E_ITE: r = z3::ite(Z(e->kid[0]), Z(e->kid[1]), Z(e->kid[2])); break;
  case E_ZEXT: r = e->kid[0]->w == 1 ? b2v(Z(e->kid[0]), e->w) : z3::zext(Z(e->kid[0]), e->w - e->kid[0]->w); break;
  case E_SEXT: r = e->kid[0]->w == 1 ? z3::ite(Z(e->kid[0]), c.bv_val((uint64_t)maskw(e->w), e->w), c.bv_val(0, e->w)) : z3::sext(Z(e->kid[0]), e->w - e->kid[0]->w); break;
  case E_EXTRACT: { z3::expr x = Z(e->kid[0]).extract(e->c + e->w - 1, e->c); r = e->w == 1 ? (x == c.bv_val(1, 1)) : x; break; }
  case E_BYTES: { r = Z(e->kid[e->n - 1]); for (int i = e->n - 2; i >= 0; i--) r = z3::concat(r, Z(e->kid[i])); break; }
  default: {
    z3::expr a = Z(e->kid[0]), b = Z(e->kid[1]);
    bool bl = e->kid[0]->w == 1;
    switch (e->k) {
    case E_ADD: case E_SUB: r = bl ? (a != b) : (e->k == E_ADD ? a + b : a - b); break;
    case E_MUL: r = bl ? (a && b) : a * b; break;
    case E_UDIV: r = z3::udiv(a, b); break; case E_UREM: r = z3::urem(a, b); break;
    case E_SDIV: r = a / b; break; case E_SREM: r = z3::srem(a, b); break;
    case E_SHL: r = z3::shl(a, b); break; case E_LSHR: r = z3::lshr(a, b); break; case E_ASHR: r = z3::ashr(a, b); break;
    case E_AND: r = bl ? (a && b) : (a & b); break; case E_OR: r = bl ? (a || b) : (a | b); break;
    case E_XOR: if (bl) { if (isC(e->kid[1])) r = e->kid[1]->c ? !a : a; else r = (a != b); } else r = a ^ b; break;
    case E_EQ: r = (a == b); break;
    case E_ULT: r = bl ? (!a && b) : z3::ult(a, b); break; case E_ULE: r = bl ? (!a || b) : z3::ule(a, b); break;
    case E_SLT: r = bl ? (a && !b) : (a < b); break; case E_SLE: r = bl ? (a || !b) : (a <= b); break;
    default: abort();
    } } }
  e->z3idx = zmemo->size(); zmemo->push_back(r); return r;
}
static bool intersects(u32 a, u32 b) {
  auto &x = VS.sets[a], &y = VS.sets[b]; size_t i = 0, j = 0;
  while (i < x.size() && j < y.size()) { if (x[i] == y[j]) return true; if (x[i] < y[j]) i++; else j++; } return false;
}
struct State; static int checkSat(State *s, Expr *c, Model *mout, int obligation = 0);
struct QRes { int r; std::vector<std::pair<u64, u8>> m; };
static std::unordered_map<std::string, QRes> qcache;

static Expr *substRec(Expr *e, const State *s);
static u32 sstamp = 0;
static bool anyKnown(Expr *e, const State *s) { for (u64 v : VS.sets[e->vset]) if (v < s->known.size() && s->known[v] >= 0) return true; return false; }
static Expr *rebuild(Expr *e, Expr **k) {
  switch (e->k) {
  case E_ITE: return mkIte(k[0], k[1], k[2]); case E_ZEXT: return mkZext(k[0], e->w); case E_SEXT: return mkSext(k[0], e->w);
  case E_EXTRACT: return mkExtract(k[0], e->c, e->w); case E_BYTES: return mkBytes(k, e->n); case E_AGG: return mkAgg(std::vector<Expr *>(k, k + e->n));
  default: return mkBin(e->k, k[0], k[1]); }
}
static Expr *substRec(Expr *e, const State *s) {
  if (e->k == E_CONST || e->vset == 0) return e;
  if (e->k == E_VAR) { return e->c < s->known.size() && s->known[e->c] >= 0 ? mkConst(s->known[e->c], 8) : e; }
  if (e->sstamp == sstamp) return e->sval;
  Expr *r = e;
  if (anyKnown(e, s)) { std::vector<Expr *> k(e->n); for (int i = 0; i < e->n; i++) k[i] = substRec(e->kid[i], s); r = rebuild(e, k.data()); }
  e->sstamp = sstamp; e->sval = r; return r;
}
static Expr *subst(Expr *e, const State *s) { if (!anyKnown(e, s)) return e; sstamp++; return substRec(e, s); }

static std::string smtOf(const std::vector<Expr *> &cs) { z3::solver t(*zc); for (auto c : cs) t.add(Z(c)); return t.to_smt2(); }

// ---- byte domains: sound pre-decision of simple queries
struct Dom { u64 b[4]; bool has(u8 x) const { return b[x >> 6] >> (x & 63) & 1; } };
static std::unordered_map<u32, Dom> domOf; // by id of a constraint over one byte
static const Dom &domGet(Expr *e, u64 v) {
  auto it = domOf.find(e->id); if (it != domOf.end()) return it->second;
  Dom d; memset(&d, 0, sizeof d); Model m; for (int x = 0; x < 256; x++) { m.set(v, x); if (evalExpr(e, m)) d.b[x >> 6] |= 1ULL << (x & 63); }
  return domOf[e->id] = d;
}
struct Iv { u64 lo, hi; };
static std::unordered_map<u64, Dom> curDom; static u32 ivStamp; static std::unordered_map<u32, Iv> ivMemo;
static Iv ivOf(Expr *e) {
  Iv full{0, maskw(e->w ? e->w : 64)};
  if (e->k == E_CONST) return {e->c, e->c};
  auto it = ivMemo.find(e->id); if (it != ivMemo.end()) return it->second;
  Iv r = full;
  switch (e->k) {
  case E_VAR: { auto d = curDom.find(e->c); if (d != curDom.end()) { int lo = 0, hi = 255; while (lo < 255 && !d->second.has(lo)) lo++; while (hi > 0 && !d->second.has(hi)) hi--; if (lo <= hi) r = {(u64)lo, (u64)hi}; } break; }
  case E_ZEXT: r = ivOf(e->kid[0]); break;
  case E_SEXT: { Iv a = ivOf(e->kid[0]); unsigned iw = e->kid[0]->w; u64 sb = 1ULL << (iw - 1); if ((a.lo & sb) == (a.hi & sb)) r = {(u64)sx(a.lo, iw) & maskw(e->w), (u64)sx(a.hi, iw) & maskw(e->w)}; break; }
  case E_ADD: case E_SUB: { if (e->w == 1) break; Iv a = ivOf(e->kid[0]), b = ivOf(e->kid[1]); unsigned __int128 lo, hi, M = (unsigned __int128)1 << e->w;
    if (e->k == E_ADD) { lo = (unsigned __int128)a.lo + b.lo; hi = (unsigned __int128)a.hi + b.hi; } else { lo = M + a.lo - b.hi; hi = M + a.hi - b.lo; }
    if ((lo >> e->w) == (hi >> e->w)) r = {(u64)lo & maskw(e->w), (u64)hi & maskw(e->w)}; break; }
  case E_LSHR: if (isC(e->kid[1]) && e->kid[1]->c < e->w) { Iv a = ivOf(e->kid[0]); r = {a.lo >> e->kid[1]->c, a.hi >> e->kid[1]->c}; } break;
  case E_EXTRACT: { Iv a = ivOf(e->kid[0]); u64 lo = a.lo >> e->c, hi = a.hi >> e->c; if (e->w < 64 && (lo >> e->w) == (hi >> e->w)) r = {lo & maskw(e->w), hi & maskw(e->w)}; break; }
  case E_BYTES: { r = {0, 0}; for (unsigned i = 0; i < e->n; i++) { Iv k = ivOf(e->kid[i]); r.lo |= k.lo << (8 * i); r.hi |= k.hi << (8 * i); } break; }
  case E_ITE: { Iv c = ivOf(e->kid[0]); if (c.lo == 1) r = ivOf(e->kid[1]); else if (c.hi == 0) r = ivOf(e->kid[2]); else { Iv a = ivOf(e->kid[1]), b = ivOf(e->kid[2]); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; } break; }
  case E_AND: if (e->w == 1) { Iv a = ivOf(e->kid[0]); if (a.hi == 0) { r = a; break; } Iv b = ivOf(e->kid[1]); r = {a.lo & b.lo, a.hi & b.hi}; } else { Iv a = ivOf(e->kid[0]), b = ivOf(e->kid[1]); r = {0, std::min(a.hi, b.hi)}; } break;
  case E_OR: if (e->w == 1) { Iv a = ivOf(e->kid[0]); if (a.lo == 1) { r = a; break; } Iv b = ivOf(e->kid[1]); r = {a.lo | b.lo, a.hi | b.hi}; } break;
  case E_XOR: if (e->w == 1 && isC(e->kid[1])) { Iv a = ivOf(e->kid[0]); r = e->kid[1]->c ? Iv{1 - a.hi, 1 - a.lo} : a; } break;
  case E_EQ: { Iv a = ivOf(e->kid[0]), b = ivOf(e->kid[1]); if (a.hi < b.lo || b.hi < a.lo) r = {0, 0}; else if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) r = {1, 1};
    else if (e->kid[0]->k == E_VAR && isC(e->kid[1])) { auto d = curDom.find(e->kid[0]->c); if (d != curDom.end() && !d->second.has((u8)e->kid[1]->c)) r = {0, 0}; } break; }
  case E_ULT: { Iv a = ivOf(e->kid[0]), b = ivOf(e->kid[1]); if (a.hi < b.lo) r = {1, 1}; else if (a.lo >= b.hi) r = {0, 0}; break; }
  case E_ULE: { Iv a = ivOf(e->kid[0]), b = ivOf(e->kid[1]); if (a.hi <= b.lo) r = {1, 1}; else if (a.lo > b.hi) r = {0, 0}; break; }
  case E_SLT: case E_SLE: { unsigned w = e->kid[0]->w; if (w == 1) break; Iv a = ivOf(e->kid[0]), b = ivOf(e->kid[1]); u64 sb = 1ULL << (w - 1);
    if ((a.lo & sb) != (a.hi & sb) || (b.lo & sb) != (b.hi & sb)) break;
    u64 al = a.lo ^ sb, ah = a.hi ^ sb, bl = b.lo ^ sb, bh = b.hi ^ sb;
    if (e->k == E_SLT) { if (ah < bl) r = {1, 1}; else if (al >= bh) r = {0, 0}; } else { if (ah <= bl) r = {1, 1}; else if (al > bh) r = {0, 0}; } break; }
  default: break;
  }
  ivMemo[e->id] = r; return r;
}
static void eqParts(Expr *c, std::vector<std::pair<u64, u8>> &o, unsigned pick) {
  if (c->k == E_AND && c->w == 1) { eqParts(c->kid[0], o, pick); eqParts(c->kid[1], o, pick); }
  else if (c->k == E_OR && c->w == 1) eqParts(c->kid[pick & 1], o, pick >> 1);
  else if (c->k == E_EQ && c->kid[0]->k == E_VAR && isC(c->kid[1])) o.push_back({c->kid[0]->c, (u8)c->kid[1]->c});
}

static void flat(Expr *e, EK k, std::vector<Expr *> &o) { if (e->k == k && e->w == 1) { flat(e->kid[0], k, o); flat(e->kid[1], k, o); } else o.push_back(e); }
// is (pc && c) satisfiable?  1 / 0 / 2(unknown); model receives a full assignment on 1
static int checkSat(State *s, Expr *c, Model *mout, int obligation) {
  c = subst(c, s);
  if (isC(c)) { if (c->c && mout) *mout = s->model; return c->c ? 1 : 0; }
  Expr *nc = nullptr;
  for (Expr *p : s->pc) { if (p == c) { if (mout) *mout = s->model; return 1; } }
  nc = mkNot(c);
  for (Expr *p : s->pc) if (p == nc) return 0;
  if (evalExpr(c, s->model)) { ST.modelhit++; if (mout) *mout = s->model; return 1; }
  if (obligation) { // decide the parts of a large formula on their own: their queries are small and recur
    std::vector<Expr *> parts; bool neg = c->k == E_XOR && isC(c->kid[1]); Expr *b = neg ? c->kid[0] : c;
    if (!neg && b->k == E_AND) { flat(b, E_AND, parts); for (Expr *p : parts) { int r = checkSat(s, p, nullptr, obligation); if (r == 0) return 0; } }
    else if ((neg && b->k == E_AND) || (!neg && b->k == E_OR)) { flat(b, b->k, parts); bool unk = false;
      for (Expr *p : parts) { int r = checkSat(s, neg ? mkNot(p) : p, mout, obligation); if (r == 1) return 1; if (r == 2) unk = true; } return unk ? 2 : 0; }
  }
  // slice
  std::vector<Expr *> sl{c}; u32 vs = c->vset; std::vector<char> used(s->pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s->pc.size(); i++) if (!used[i] && intersects(s->pc[i]->vset, vs)) { used[i] = 1; sl.push_back(s->pc[i]); u32 nv = VS.uni(vs, s->pc[i]->vset); if (nv != vs) { vs = nv; ch = true; } } }
  std::sort(sl.begin() + 1, sl.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  std::string key; key.reserve(sl.size() * 4); for (Expr *e : sl) key.append((const char *)&e->id, 4);
  auto it = qcache.find(key); QRes *q;
  if (it != qcache.end()) { ST.cachehit++; q = &it->second; }
  else {
    QRes nq; nq.r = -1;
    auto &vars = VS.sets[vs];
    if (vars.size() == 1 && obligation < 2) { // complete enumeration of one byte
      ST.enumq++; Model m = s->model; nq.r = 0;
      for (int x = 0; x < 256 && !nq.r; x++) { m.set(vars[0], x); bool ok = true; for (Expr *e : sl) if (!evalExpr(e, m)) { ok = false; break; } if (ok) { nq.r = 1; nq.m.push_back({vars[0], (u8)x}); } }
    } else if (obligation < 2) {
      curDom.clear(); ivMemo.clear(); size_t nsv = 0;
      for (size_t i = 1; i < sl.size(); i++) { auto &vv = VS.sets[sl[i]->vset]; if (vv.size() != 1) continue; nsv++; const Dom &d = domGet(sl[i], vv[0]); auto it = curDom.find(vv[0]); if (it == curDom.end()) curDom[vv[0]] = d; else for (int q = 0; q < 4; q++) it->second.b[q] &= d.b[q]; }
      Iv iv = ivOf(c);
      if (iv.hi == 0) { ST.domq++; nq.r = 0; }
      else { // guesses that satisfy the equalities in c
        u32 rs = c->id * 2654435761u;
        for (int t = 0; t < 12 && nq.r < 0; t++) {
          Model m = s->model; std::vector<std::pair<u64, u8>> eqs; eqParts(c, eqs, (unsigned)t); 
          if (t >= 4) for (u64 v : VS.sets[c->vset]) { rs = rs * 1664525u + 1013904223u; auto d = curDom.find(v); u8 x = rs >> 24; if (d != curDom.end()) { int n = 0; while (!d->second.has(x) && n++ < 256) x++; } if (t & 1 || (rs >> 16 & 1)) m.set(v, x); }
          for (auto &p : eqs) m.set(p.first, p.second);
          bool ok = true; for (Expr *e : sl) if (!evalExpr(e, m)) { ok = false; break; }
          if (ok) { ST.domq++; nq.r = 1; for (u64 v : vars) nq.m.push_back({v, (u8)m.get(v)}); }
        }
      }
    }
    if (nq.r < 0) {
      double t0 = now(); ST.queries++;
      zs->push(); for (Expr *e : sl) zs->add(Z(e));
      if (smtEvery && ST.queries % smtEvery == 0 && !smtDir.empty()) { static int nd = 0; if (nd++ < 40) { std::string fn = smtDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(nd) + ".smt2"; FILE *f = fopen(fn.c_str(), "w"); if (f) { fputs("(set-logic QF_BV)\n", f); fputs(zs->to_smt2().c_str(), f); fclose(f); } } }
      z3::check_result r = zs->check(); z3::solver *zu = zs;
      if (r == z3::unknown) { // the incremental core is weak on sums: bit-blast from scratch
        zu = new z3::solver(*zc, "QF_BV"); z3::params fp(*zc); fp.set("timeout", 30000u); zu->set(fp); for (Expr *e : sl) zu->add(Z(e)); r = zu->check(); }
      if (r == z3::sat) { nq.r = 1; ST.qsat++; z3::model zm = zu->get_model(); for (u64 v : vars) { z3::expr x = zm.eval(Z(mkVar(v)), true); nq.m.push_back({v, (u8)x.get_numeral_uint64()}); } }
      else if (r == z3::unsat) { nq.r = 0; ST.qunsat++; } else { nq.r = 2; ST.qunk++; }
      if (zu != zs) delete zu;
      zs->pop(); double dt = now() - t0; ST.solver += dt; if (dt * 1000 > ST.maxq) ST.maxq = dt * 1000;
      if (dt > 3 && !smtDir.empty()) { static int nd = 0; FILE *f = fopen((smtDir + "/slow" + std::to_string(getpid()) + "_" + std::to_string(nd++) + ".smt2").c_str(), "w"); if (f) { fputs("(set-logic QF_BV)\n", f); fputs(smtOf(sl).c_str(), f); fclose(f); } }
    }
    q = &(qcache[key] = nq);
  }
  if (q->r == 1 && mout) { *mout = s->model; for (auto &p : q->m) mout->set(p.first, p.second);
  }
  return q->r;
}
static void addC(State *s, Expr *c);
static void learn(State *s, u64 v, u8 x) {
  if (v >= UNINIT_BASE) return;
  if (s->known.size() <= v) s->known.resize(v + 1, -1);
  if (s->known[v] >= 0) return; s->known[v] = x; s->model.set(v, x);
  std::vector<Expr *> old; old.swap(s->pc); std::vector<Expr *> redo;
  for (Expr *p : old) { bool has = false; for (u64 y : VS.sets[p->vset]) if (y == v) { has = true; break; } if (has) redo.push_back(p); else s->pc.push_back(p); }
  for (Expr *p : redo) addC(s, p);
}
static void addC(State *s, Expr *c) {
  c = subst(c, s);
  if (isC(c)) return; // must be true
  if (c->k == E_AND) { Expr *a = c->kid[0], *b = c->kid[1]; addC(s, a); addC(s, b); return; }
  if (c->k == E_XOR && isC(c->kid[1]) && c->kid[0]->k == E_OR) { addC(s, mkNot(c->kid[0]->kid[0])); addC(s, mkNot(c->kid[0]->kid[1])); return; }
  if (c->k == E_EQ && c->kid[0]->k == E_VAR && isC(c->kid[1]) && c->kid[0]->c < UNINIT_BASE) { learn(s, c->kid[0]->c, c->kid[1]->c); return; }
  for (Expr *p : s->pc) if (p == c) return;
  s->pc.push_back(c);
}

// ------------------------------------------------------------------ reporting
static std::string jesc(const std::string &s) { std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o; }
static std::string locOf(const Instruction *I) {
  if (!I) return "?"; std::string r = I->getFunction()->getName().str();
  if (const DILocation *d = I->getDebugLoc().get()) { std::string f = d->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); r += "@" + f + ":" + std::to_string(d->getLine()); }
  return r;
}
static std::string hexModel(State *s, const Model &m) { std::string h; char b[4]; for (u32 i = 0; i < s->nvin; i++) { u8 x = i < s->known.size() && s->known[i] >= 0 ? s->known[i] : m.get(i); snprintf(b, 4, "%02x", x); h += b; } return h; }
static bool isRepo(CFunc *f) { return f->file.compare(0, repoPrefix.size(), repoPrefix) == 0; }
static void reportErr(State *s, const char *kind, const std::string &msg, const Model &m) {
  ST.errors++;
  const Instruction *I = s->st.empty() ? nullptr : s->st.back().f->code[s->st.back().ip].I;
  // innermost repository frame
  std::string loc = locOf(I), rloc = "", stack;
  for (int i = s->st.size() - 1; i >= 0; i--) { const Instruction *J = s->st[i].f->code[s->st[i].ip].I; if (rloc.empty() && isRepo(s->st[i].f)) rloc = locOf(J); if (s->st.size() - i <= 12) stack += (stack.empty() ? "" : " < ") + locOf(J); }
  std::string key = std::string(kind) + "|" + msg + "|" + loc + "|" + rloc;
  if (++errCount[key] > maxErrPer) return;
  fprintf(out, "{\"type\":\"error\",\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"repo_loc\":\"%s\",\"stack\":\"%s\",\"input\":\"%s\"}\n", kind, jesc(msg).c_str(), jesc(loc).c_str(), jesc(rloc).c_str(), jesc(stack).c_str(), hexModel(s, m).c_str());
  fflush(out);
}
static void reportInc(State *s, const std::string &msg) {
  ST.inc++; const Instruction *I = s->st.empty() ? nullptr : s->st.back().f->code[s->st.back().ip].I;
  std::string k = msg + " at " + locOf(I);
  if (incSeen.insert(k).second) { fprintf(out, "{\"type\":\"incomplete\",\"msg\":\"%s\",\"input\":\"%s\"}\n", jesc(k).c_str(), hexModel(s, s->model).c_str()); fflush(out); }
}
static bool haveInput; static std::string inputBytes;
static void pathDone(State *s) {
  ST.paths++; ST.steps += s->steps; bool emit = false;
  for (auto &l : s->labels) { u64 &n = labelCount[l]; n++; if (n <= wlimit || (n & (n - 1)) == 0) emit = true; }
  if (s->labels.empty() && ((ST.paths & (ST.paths - 1)) == 0)) emit = true;
  if (emit) {
    std::string ob; char b[32]; for (auto &o : s->obs) { snprintf(b, 32, "%s%llu", ob.empty() ? "" : ",", (unsigned long long)(o.e ? evalExpr(o.e, s->model) : o.c)); ob += b; }
    std::string lb; for (auto &l : s->labels) lb += (lb.empty() ? "\"" : ",\"") + jesc(l) + "\"";
    fprintf(out, "{\"type\":\"witness\",\"labels\":[%s],\"obs\":[%s],\"input\":\"%s\"}\n", lb.c_str(), ob.c_str(), hexModel(s, s->model).c_str());
  }
}

// ------------------------------------------------------------------ memory
struct Die { int dummy; };      // path ends (error already reported, or infeasible)
static inline u32 idOf(u64 a) { return a >> SH; }
static inline u64 baseOf(u32 id) { return ((u64)id << SH) | BOFF; }
static Obj *objGet(State *s, u32 id) {
  if (id < s->firstDyn) return id < roObjs.size() ? roObjs[id].p : nullptr;
  u32 k = id - s->firstDyn; return k < s->objs.size() ? s->objs[k].p : nullptr;
}
static Obj *objW(State *s, u32 id) {
  u32 k = id - s->firstDyn; Obj *o = s->objs[k].p; if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 0; s->objs[k] = ObjRef(n); o = n; } return o;
}
static u64 newObj(State *s, u64 size, Expr *sym, u8 kind, bool uninit, const std::string &name = "") {
  Obj *o = new Obj; o->size = size; o->symSize = sym; o->kind = kind; o->name = name;
  if (!sym) { o->c.assign(size, 0); if (uninit && size) o->s.assign(size, UNINIT); }
  s->objs.push_back(ObjRef(o)); u32 id = s->firstDyn + s->objs.size() - 1;
  if (PW == 32 && (id >= FUNC0 || size > 0xB000)) { reportInc(s, "32-bit address space exhausted"); throw Die(); }
  return baseOf(id);
}
static u64 concr(State *s, Val v, unsigned w, const char *what);
// a block of symbolic size becomes an ordinary one once its size is known to be small
static Obj *materialise(State *s, u32 id) {
  Obj *o = objGet(s, id); if (!o || !o->symSize) return o; Expr *e = subst(o->symSize, s);
  if (!isC(e)) { Expr *big = mkBin(E_ULT, mkConst(4096, PW), e); if (checkSat(s, big, nullptr, false) != 0) return nullptr; e = mkConst(concr(s, VE(e), PW, "block size"), PW); }
  if (e->c > (1u << 24)) return nullptr;
  if (o->fill == 2) throw std::string("the contents of a block of symbolic size are not tracked");
  o = objW(s, id); o->symSize = nullptr; o->size = e->c; o->c.assign(e->c, o->fillv); o->s.clear(); if (e->c) o->s.assign(e->c, o->fill ? nullptr : UNINIT);
  for (auto &p : o->ov) if (p.first < o->size) { if (isC(p.second)) { o->c[p.first] = p.second->c; o->s[p.first] = nullptr; } else o->s[p.first] = p.second; } o->ov.clear(); return o;
}
// resolves an access; reports and dies when no valid access exists
static Obj *access(State *s, u64 a, u64 n, bool write, u32 *idp, u64 *offp) {
  u32 id = idOf(a); Obj *o = objGet(s, id);
  if (!o) {
    if (id == 0) reportErr(s, "null", a == 0 ? "null pointer dereference" : "access through invalid pointer near null", s->model);
    else if (id >= s->firstDyn && id - s->firstDyn < s->objs.size()) reportErr(s, "uaf", "access to freed or out-of-scope memory", s->model);
    else reportErr(s, "wild", "access through wild pointer", s->model);
    throw Die();
  }
  u64 off = a - baseOf(id); if (PW == 32) off = (u64)(i64)(int32_t)(u32)off;
  if (o->symSize) { o = materialise(s, id); if (!o) throw std::string("byte access to symbolic-size block"); }
  if (off > o->size || n > o->size - off) {
    char b[160]; snprintf(b, 160, "%s of %llu bytes at offset %lld of a %llu-byte %s block", write ? "write" : "read", (unsigned long long)n, (long long)off, (unsigned long long)o->size, o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global");
    reportErr(s, "oob", b, s->model); throw Die();
  }
  if (write && o->ro) { reportErr(s, "oob", "write to read-only data", s->model); throw Die(); }
  *idp = id; *offp = off; return o;
}
static Expr *freshUninit(State *s) { return mkVar(UNINIT_BASE + s->nuninit++); }
static void require(State *s, Expr *cond, const char *kind, const std::string &msg);
// single bytes of a block of symbolic size: the bounds are an obligation over every size
static bool symBlock(State *s, u64 a, unsigned n, bool write, u32 *id, u64 *off) {
  *id = idOf(a); Obj *o = objGet(s, *id); if (!o || !o->symSize || materialise(s, *id)) return false;
  *off = a - baseOf(*id); if (PW == 32) *off = (u64)(i64)(int32_t)(u32)*off; o = objGet(s, *id);
  char b[160]; snprintf(b, 160, "%s of %u bytes at offset %lld of a heap block that can be shorter", write ? "write" : "read", n, (long long)*off);
  require(s, mkBin(E_AND, mkBin(E_ULE, mkConst(*off, PW), o->symSize), mkBin(E_ULE, mkConst(n, PW), mkBin(E_SUB, o->symSize, mkConst(*off, PW)))), "oob", b);
  return !materialise(s, *id);
}
static Val loadB(State *s, u64 a, unsigned n) { // n bytes -> value of 8n bits
  { u32 id; u64 off; if (symBlock(s, a, n, false, &id, &off)) { Obj *o = objW(s, id); Expr *b[8]; for (unsigned i = 0; i < n; i++) { Expr *&e = o->ov[off + (BE ? n - 1 - i : i)]; if (!e) { if (o->fill == 2) throw std::string("reading a byte of a block of symbolic size"); e = o->fill ? mkConst(o->fillv, 8) : freshUninit(s); } b[i] = e; } return VE(subst(mkBytes(b, n), s)); } }
  u32 id; u64 off; Obj *o = access(s, a, n, false, &id, &off);
  if (o->s.empty()) { u64 v = 0; if (!BE) for (int i = n - 1; i >= 0; i--) v = v << 8 | o->c[off + i]; else for (unsigned i = 0; i < n; i++) v = v << 8 | o->c[off + i]; return VC(v); }
  bool sym = false; for (unsigned i = 0; i < n; i++) { Expr *e = o->s[off + i]; if (e) { sym = true; if (e == UNINIT) { o = objW(s, id); o->s[off + i] = freshUninit(s); } } }
  if (!sym) { u64 v = 0; for (unsigned i = 0; i < n; i++) v = v << 8 | o->c[off + (BE ? i : n - 1 - i)]; return VC(v); }
  Expr *b[8]; for (unsigned i = 0; i < n; i++) { u64 p = off + (BE ? n - 1 - i : i); b[i] = o->s[p] ? o->s[p] : mkConst(o->c[p], 8); }
  Expr *r = mkBytes(b, n); return VE(subst(r, s));
}
static void storeB(State *s, u64 a, unsigned n, Val v) {
  { u32 id; u64 off; if (symBlock(s, a, n, true, &id, &off)) { Obj *o = objW(s, id); for (unsigned i = 0; i < n; i++) o->ov[off + (BE ? n - 1 - i : i)] = mkExtract(toE(v, 8 * n), 8 * i, 8); return; } }
  u32 id; u64 off; access(s, a, n, true, &id, &off); Obj *o = objW(s, id);
  if (!v.e) { for (unsigned i = 0; i < n; i++) { u64 p = off + (BE ? n - 1 - i : i); o->c[p] = v.c >> (8 * i); if (!o->s.empty()) o->s[p] = nullptr; } return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  for (unsigned i = 0; i < n; i++) { u64 p = off + (BE ? n - 1 - i : i); Expr *e = mkExtract(v.e, 8 * i, 8); if (isC(e)) { o->c[p] = e->c; o->s[p] = nullptr; } else o->s[p] = e; }
}
static Expr *byteAt(State *s, u32 id, u64 off) { Obj *o = objGet(s, id); if (o->s.empty() || !o->s[off]) return mkConst(o->c[off], 8); if (o->s[off] == UNINIT) { o = objW(s, id); o->s[off] = freshUninit(s); } return subst(o->s[off], s); }

// ------------------------------------------------------------------ forking helpers
static void pushState(State *s) { ST.forks++; work.push_back(s); }
static bool hasUninit(Expr *e) { return e && (e->flags & 1); }

// concretise: forks remaining values (re-executing the current instruction in the forks)
static u64 concr(State *s, Val v, unsigned w, const char *what) {
  if (!v.e) return v.c;
  Expr *e = subst(v.e, s); if (isC(e)) return e->c;
  for (auto &p : s->conc) if (p.first == e) return p.second;
  u64 x = evalExpr(e, s->model);
  Expr *ne = mkNot(mkEq(e, mkConst(x, w))); Model m; int r = checkSat(s, ne, &m);
  if (r == 2) { s->incomplete = true; reportInc(s, "solver unknown (concretise)"); }
  if (r == 1) {
    if (hasUninit(e)) { reportErr(s, "uninit", std::string(what) + " depends on uninitialised memory", s->model); throw Die(); }
    if (s->forks > maxEnum) { reportInc(s, std::string("too many values for ") + what); }
    else { State *o = new State(*s); o->forks++; o->model = m; addC(o, ne); pushState(o); }
    addC(s, mkEq(e, mkConst(x, w)));
  }
  s->forks = 0;
  s->conc.push_back({e, x}); return x;
}
// table look-up at a symbolic index in the code under test: when every value of the address stays
// within one small object, the result is a choice between its entries (no fork)
static bool tableLoad(State *s, Val pv, unsigned n, Val *res) {
  Expr *e = subst(pv.e, s); if (isC(e) || hasUninit(e)) return false;
  for (auto &p : s->conc) if (p.first == e) return false;
  u64 x = evalExpr(e, s->model); u32 id = idOf(x); Obj *o = objGet(s, id);
  if (!o || o->symSize || o->size < n || o->size > 1024) return false;
  u64 base = baseOf(id); Expr *off = mkBin(E_SUB, e, mkConst(base, PW)), *in = mkBin(E_ULE, off, mkConst(o->size - n, PW));
  if (!isC(in)) { if (checkSat(s, mkNot(in), nullptr) != 0) return false; } else if (!in->c) return false;
  std::vector<u64> offs; const std::vector<u64> vs = VS.sets[e->vset];
  if (vs.size() == 1) { std::set<u64> d; Model mm = s->model; for (unsigned v = 0; v < 256; v++) { mm.set(vs[0], (u8)v); u64 k = evalExpr(off, mm); if (k <= o->size - n) d.insert(k); } offs.assign(d.begin(), d.end()); }
  if (offs.empty()) { if (o->size - n > 300) return false; for (u64 i = 0; i <= o->size - n; i++) offs.push_back(i); }
  std::map<Expr *, u32> freq; std::vector<Expr *> val; Expr *most = nullptr;
  for (u64 k : offs) { Val v = loadB(s, base + k, n); Expr *t = toE(v, 8 * n); if (hasUninit(t)) return false; val.push_back(t); u32 q = ++freq[t]; if (!most || q > freq[most]) most = t; }
  Expr *r = most; for (size_t i = offs.size(); i-- > 0;) if (val[i] != most) r = mkIte(mkEq(off, mkConst(offs[i], PW)), val[i], r);
  ST.memchecks++; *res = VE(r); return true;
}
// obligation: cond must hold on this path; reports when it can fail, then assumes it
static void require(State *s, Expr *cond, const char *kind, const std::string &msg) {
  cond = subst(cond, s); if (isC(cond)) { if (!cond->c) { reportErr(s, kind, msg, s->model); throw Die(); } return; }
  Model m; int r = checkSat(s, mkNot(cond), &m, !strcmp(kind, "assert") ? 2 : 1);
  if (r == 0) return;
  if (r == 2) { s->incomplete = true; reportInc(s, "solver unknown (" + msg + ")"); return; }
  Model keep = s->model; reportErr(s, kind, msg, m); s->model = keep;
  Model m2; int r2 = checkSat(s, cond, &m2); if (r2 != 1) throw Die(); s->model = m2; addC(s, cond);
}

// ------------------------------------------------------------------ loading
static std::map<std::string, int> intrNames;
enum INTR { I_NONE = 0, I_ISSYM, I_VIN, I_ASSUME, I_ASSERT, I_REACH, I_OBS, I_CONC, I_MALLOC, I_FREE, I_LIVE, I_SNAP, I_SNAPSAME, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_MEMCMP, I_CHECKINIT, I_TOUCH, I_FAIL, I_STOP, I_VACHECK, I_VASTART, I_VAEND, I_VACOPY, I_NOP, I_SOVF, I_UOVF, I_MINMAX, I_BSWAP, I_ABS, I_EXPECT, I_BLOCKSIZE, I_SAMEEXPR, I_ISLIVE, I_SYMSIZED, I_LABELINT, I_FSH, I_CTZ, I_ISFEAS, I_STACKSAVE, I_ENABLED };
static CFunc *getFunc(Function *F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second;
  CFunc *c = new CFunc; c->name = F->getName().str(); c->F = F; c->nparams = F->arg_size(); c->vararg = F->isVarArg(); c->addr = (((u64)FUNC0 + funcById.size()) << SH) | (PW == 32 ? 0x100 : 0x1000);
  if (auto *sp = F->getSubprogram()) { std::string d = sp->getDirectory().str(), f = sp->getFilename().str(); c->file = f[0] == '/' ? f : d + "/" + f; }
  auto in = intrNames.find(c->name); if (in != intrNames.end()) c->intr = in->second;
  StringRef n = F->getName();
  if (n.starts_with("llvm.")) {
    if (n.starts_with("llvm.memcpy")) c->intr = I_MEMCPY; else if (n.starts_with("llvm.memmove")) c->intr = I_MEMMOVE; else if (n.starts_with("llvm.memset")) c->intr = I_MEMSET;
    else if (n.starts_with("llvm.va_start")) c->intr = I_VASTART; else if (n.starts_with("llvm.va_end")) c->intr = I_VAEND; else if (n.starts_with("llvm.va_copy")) c->intr = I_VACOPY;
    else if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.stackrestore") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.donothing")) c->intr = I_NOP;
    else if (n.starts_with("llvm.stacksave")) c->intr = I_STACKSAVE;
    else if (n.starts_with("llvm.sadd.with") || n.starts_with("llvm.ssub.with") || n.starts_with("llvm.smul.with")) c->intr = I_SOVF;
    else if (n.starts_with("llvm.uadd.with") || n.starts_with("llvm.usub.with") || n.starts_with("llvm.umul.with")) c->intr = I_UOVF;
    else if (n.starts_with("llvm.smax") || n.starts_with("llvm.smin") || n.starts_with("llvm.umax") || n.starts_with("llvm.umin")) c->intr = I_MINMAX;
    else if (n.starts_with("llvm.bswap")) c->intr = I_BSWAP; else if (n.starts_with("llvm.abs")) c->intr = I_ABS; else if (n.starts_with("llvm.expect")) c->intr = I_EXPECT;
    else if (n.starts_with("llvm.fshl") || n.starts_with("llvm.fshr")) c->intr = I_FSH;
  }
  for (auto &a : F->args()) c->byval.push_back(a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()) : 0);
  funcs[F] = c; funcById.push_back(c); return c;
}
static u64 constAddr(const Constant *C);
static Val constVal(const Constant *C) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) throw std::string("wide integer"); return VC(ci->getZExtValue()); }
  if (isa<ConstantPointerNull>(C)) return VC(0);
  if (isa<GlobalValue>(C) || isa<ConstantExpr>(C)) return VC(constAddr(C));
  if (isa<UndefValue>(C)) return Val{0, UNINIT};
  if (isa<ConstantAggregateZero>(C) || isa<ConstantStruct>(C)) { std::vector<Expr *> k; Type *t = C->getType(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) { Constant *e = C->getAggregateElement(i); Val v = constVal(e); Type *et = e->getType(); unsigned w = et->isPointerTy() ? PW : et->getIntegerBitWidth(); k.push_back(toE(v, w)); } return Val{0, mkAgg(k)}; }
  throw std::string("unsupported constant");
}
static u64 constAddr(const Constant *C) {
  if (auto *g = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw std::string("unknown global ") + g->getName().str(); return it->second; }
  if (auto *f = dyn_cast<Function>(C)) return getFunc(const_cast<Function *>(f))->addr;
  if (auto *ga = dyn_cast<GlobalAlias>(C)) return constAddr(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(PW, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) throw std::string("gep const"); return (constVal(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue()) & maskw(PW); }
    if (ce->isCast()) { Val v = constVal(ce->getOperand(0)); unsigned w = ce->getType()->isPointerTy() ? PW : ce->getType()->getIntegerBitWidth(); return v.c & maskw(w); }
    if (ce->getOpcode() == Instruction::Sub) return (constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & maskw(ce->getType()->getIntegerBitWidth());
    if (ce->getOpcode() == Instruction::Add) return (constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & maskw(ce->getType()->getIntegerBitWidth());
  }
  throw std::string("unsupported constant address");
}
static void writeConst(Obj *o, u64 off, const Constant *C) {
  Type *t = C->getType();
  if (isa<UndefValue>(C) || C->isNullValue()) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(C)) { u64 es = DL->getTypeAllocSize(cds->getElementType()); for (unsigned i = 0; i < cds->getNumElements(); i++) { u64 v = cds->getElementAsInteger(i); for (unsigned b = 0; b < es; b++) o->c[off + i * es + (BE ? es - 1 - b : b)] = v >> (8 * b); } return; }
  if (auto *cs = dyn_cast<ConstantStruct>(C)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * es, ca->getOperand(i)); return; }
  if (t->isIntegerTy() || t->isPointerTy()) { Val v = constVal(C); u64 n = DL->getTypeStoreSize(t); for (unsigned b = 0; b < n; b++) o->c[off + (BE ? n - 1 - b : b)] = v.c >> (8 * b); return; }
  throw std::string("unsupported initializer");
}
static unsigned wOf(Type *t) { if (t->isPointerTy()) return PW; if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return t->getIntegerBitWidth(); return 0; }

static void compile(CFunc *c) {
  c->compiled = true; Function *F = c->F; std::map<const Value *, int> slot; int n = 0;
  for (auto &a : F->args()) slot[&a] = n++;
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
  c->nregs = n; std::map<const BasicBlock *, u32> bbi; u32 k = 0; for (auto &B : *F) bbi[&B] = k++;
  auto opd = [&](const Value *v) -> COpd { if (auto *C = dyn_cast<Constant>(v)) return COpd{-1, constVal(C)}; auto it = slot.find(v); if (it == slot.end()) throw std::string("operand"); return COpd{it->second, VC(0)}; };
  for (auto &B : *F) {
    CBlock cb; cb.first = c->code.size();
    for (auto &I : B) {
      if (auto *p = dyn_cast<PHINode>(&I)) { CPhi ph; ph.dst = slot[&I]; ph.w = wOf(I.getType()); for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph.in[bbi[p->getIncomingBlock(i)]] = opd(p->getIncomingValue(i)); cb.phi.push_back(ph); continue; }
      CInst ci; ci.I = &I; if (!I.getType()->isVoidTy()) { ci.dst = slot[&I]; ci.w = wOf(I.getType()); } ci.ty = I.getType();
      try {
        if (auto *b = dyn_cast<BinaryOperator>(&I)) {
          ci.op = O_BIN; ci.o = {opd(b->getOperand(0)), opd(b->getOperand(1))};
          switch (b->getOpcode()) { case Instruction::Add: ci.sub = E_ADD; break; case Instruction::Sub: ci.sub = E_SUB; break; case Instruction::Mul: ci.sub = E_MUL; break; case Instruction::UDiv: ci.sub = E_UDIV; break; case Instruction::SDiv: ci.sub = E_SDIV; break; case Instruction::URem: ci.sub = E_UREM; break; case Instruction::SRem: ci.sub = E_SREM; break; case Instruction::Shl: ci.sub = E_SHL; break; case Instruction::LShr: ci.sub = E_LSHR; break; case Instruction::AShr: ci.sub = E_ASHR; break; case Instruction::And: ci.sub = E_AND; break; case Instruction::Or: ci.sub = E_OR; break; case Instruction::Xor: ci.sub = E_XOR; break; default: ci.op = O_UNSUP; }
          if (!ci.w) ci.op = O_UNSUP;
          if (auto *ob = dyn_cast<OverflowingBinaryOperator>(b)) { if (ob->hasNoSignedWrap()) ci.flags |= 1; }
        } else if (auto *ic = dyn_cast<ICmpInst>(&I)) { ci.op = O_ICMP; ci.sub = ic->getPredicate(); ci.w2 = wOf(ic->getOperand(0)->getType()); ci.o = {opd(ic->getOperand(0)), opd(ic->getOperand(1))}; if (!ci.w2) ci.op = O_UNSUP;
        } else if (auto *al = dyn_cast<AllocaInst>(&I)) { ci.op = O_ALLOCA; ci.imm = DL->getTypeAllocSize(al->getAllocatedType()); ci.o = {opd(al->getArraySize())}; ci.w2 = wOf(al->getArraySize()->getType());
        } else if (auto *ld = dyn_cast<LoadInst>(&I)) { ci.op = O_LOAD; ci.o = {opd(ld->getPointerOperand())}; ci.imm = DL->getTypeStoreSize(ld->getType()); if (!ci.w && !ld->getType()->isStructTy()) ci.op = O_UNSUP;
        } else if (auto *sti = dyn_cast<StoreInst>(&I)) { ci.op = O_STORE; ci.o = {opd(sti->getValueOperand()), opd(sti->getPointerOperand())}; ci.w = wOf(sti->getValueOperand()->getType()); ci.ty = sti->getValueOperand()->getType(); ci.imm = DL->getTypeStoreSize(ci.ty); if (!ci.w && !ci.ty->isStructTy()) ci.op = O_UNSUP;
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          ci.op = O_GEP; ci.o = {opd(g->getPointerOperand())}; u64 off = 0;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value *ix = gi.getOperand();
            if (StructType *sty = gi.getStructTypeOrNull()) off += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            else { u64 sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci2 = dyn_cast<ConstantInt>(ix)) off += (u64)ci2->getSExtValue() * sc; else { ci.o.push_back(opd(ix)); ci.scale.push_back(sc); ci.cases.push_back({wOf(ix->getType()), 0}); } }
          }
          ci.imm = off;
        } else if (auto *se = dyn_cast<SelectInst>(&I)) { ci.op = O_SELECT; ci.o = {opd(se->getCondition()), opd(se->getTrueValue()), opd(se->getFalseValue())}; if (!ci.w) ci.op = O_UNSUP; ci.flags = se->getType()->isPointerTy();
        } else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { ci.op = O_CBR; ci.o = {opd(br->getCondition())}; ci.bb1 = bbi[br->getSuccessor(0)]; ci.bb2 = bbi[br->getSuccessor(1)]; } else { ci.op = O_BR; ci.bb1 = bbi[br->getSuccessor(0)]; }
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) { ci.op = O_SWITCH; ci.o = {opd(sw->getCondition())}; ci.w2 = wOf(sw->getCondition()->getType()); ci.bb1 = bbi[sw->getDefaultDest()]; for (auto &cs : sw->cases()) ci.cases.push_back({cs.getCaseValue()->getZExtValue(), bbi[cs.getCaseSuccessor()]});
        } else if (auto *rt = dyn_cast<ReturnInst>(&I)) { ci.op = O_RET; if (rt->getReturnValue()) { ci.o = {opd(rt->getReturnValue())}; ci.w = wOf(rt->getReturnValue()->getType()); }
        } else if (auto *cl = dyn_cast<CallInst>(&I)) {
          ci.op = O_CALL; for (unsigned i = 0; i < cl->arg_size(); i++) { Value *a = cl->getArgOperand(i); if (a->getType()->isMetadataTy()) { ci.o.push_back(COpd{-1, VC(0)}); ci.cases.push_back({0, 0}); } else { ci.o.push_back(opd(a)); ci.cases.push_back({wOf(a->getType()), (u32)(a->getType()->isPointerTy() ? 1 : 0)}); } }
          if (Function *cf = cl->getCalledFunction()) ci.callee = getFunc(cf);
          else if (isa<InlineAsm>(cl->getCalledOperand())) ci.op = O_UNSUP;
          else { auto *cv = cl->getCalledOperand()->stripPointerCasts(); if (auto *cf2 = dyn_cast<Function>(cv)) ci.callee = getFunc(cf2); else ci.o.push_back(opd(cl->getCalledOperand())); }
          if (ci.dst >= 0 && !ci.w && !cl->getType()->isStructTy()) ci.op = O_UNSUP;
        } else if (auto *cs = dyn_cast<CastInst>(&I)) {
          ci.o = {opd(cs->getOperand(0))}; ci.w2 = wOf(cs->getSrcTy());
          switch (cs->getOpcode()) { case Instruction::ZExt: ci.op = O_ZEXT; break; case Instruction::SExt: ci.op = O_SEXT; break; case Instruction::Trunc: ci.op = O_TRUNC; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: ci.op = ci.w > ci.w2 ? O_ZEXT : ci.w < ci.w2 ? O_TRUNC : O_MOVE; break; case Instruction::BitCast: ci.op = O_MOVE; break; default: ci.op = O_UNSUP; }
          if (!ci.w || !ci.w2) ci.op = O_UNSUP;
        } else if (isa<FreezeInst>(&I)) { ci.op = O_MOVE; ci.o = {opd(I.getOperand(0))};
        } else if (isa<UnreachableInst>(&I)) ci.op = O_UNREACH;
        else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { if (ev->getNumIndices() == 1) { ci.op = O_EXTRACTV; ci.o = {opd(ev->getAggregateOperand())}; ci.imm = ev->getIndices()[0]; } }
        else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { if (iv->getNumIndices() == 1) { ci.op = O_INSERTV; auto *ag = iv->getAggregateOperand(); ci.o = {isa<UndefValue>(ag) ? COpd{-1, Val{0, UNINIT}} : opd(ag), opd(iv->getInsertedValueOperand())}; ci.imm = iv->getIndices()[0]; ci.w2 = wOf(iv->getInsertedValueOperand()->getType()); ci.bb1 = ag->getType()->isStructTy() ? ag->getType()->getStructNumElements() : 0; } }
      } catch (std::string &e) { ci.op = O_UNSUP; }
      c->code.push_back(ci);
    }
    c->bb.push_back(cb);
  }
}

// ------------------------------------------------------------------ execution
static Val get(State *s, const Frame &f, const COpd &o, unsigned w) {
  if (o.slot >= 0) return f.regs[o.slot];
  if (o.v.e == UNINIT) { unsigned n = (w + 7) / 8; Expr *b[8]; for (unsigned i = 0; i < n; i++) b[i] = freshUninit(s); Expr *e = mkBytes(b, n); return Val{0, w % 8 ? mkExtract(e, 0, w) : e}; }
  return o.v;
}
static void setR(Frame &f, int d, Val v) { f.regs[d] = v; }
static void gotoBB(State *s, u32 to) {
  Frame &f = s->st.back(); CBlock &b = f.f->bb[to];
  if (!b.phi.empty()) { std::vector<Val> tmp; tmp.reserve(b.phi.size()); for (auto &p : b.phi) tmp.push_back(get(s, f, p.in.at(f.bb), p.w)); for (size_t i = 0; i < b.phi.size(); i++) f.regs[b.phi[i].dst] = tmp[i]; }
  f.bb = to; f.ip = b.first;
}
static void popFrame(State *s) { Frame &f = s->st.back(); for (u32 id : f.allocas) s->objs[id - s->firstDyn] = ObjRef(); s->st.pop_back(); }
static void freeObj(State *s, u32 id) { s->objs[id - s->firstDyn] = ObjRef(); }
static std::string cstr(State *s, u64 a) { std::string r; for (int i = 0; i < 400; i++) { Val v = loadB(s, a + i, 1); if (v.e || !v.c) break; r += (char)v.c; } return r; }

static Expr *nslOverflow(int op, Expr *a, Expr *b, unsigned w) { // condition: signed overflow
  if (w <= 32) { unsigned x = 64; Expr *r = mkBin((EK)op, mkSext(a, x), mkSext(b, x)); i64 lim = (i64)1 << (w - 1); return mkBin(E_OR, mkBin(E_SLT, r, mkConst((u64)-lim, x)), mkBin(E_SLE, mkConst((u64)lim, x), r)); }
  if (w < 64) { unsigned x = op == E_MUL ? std::min(64u, 2 * w) : w + 1; Expr *r = mkBin((EK)op, mkSext(a, x), mkSext(b, x)); return mkNot(mkEq(r, mkSext(mkExtract(r, 0, w), x))); }
  Expr *z = mkConst(0, 64);
  if (op == E_ADD) { Expr *r = mkBin(E_ADD, a, b); Expr *sa = mkBin(E_SLT, a, z), *sb = mkBin(E_SLT, b, z), *sr = mkBin(E_SLT, r, z); return mkBin(E_AND, mkEq(sa, sb), mkNot(mkEq(sa, sr))); }
  if (op == E_SUB) { Expr *r = mkBin(E_SUB, a, b); Expr *sa = mkBin(E_SLT, a, z), *sb = mkBin(E_SLT, b, z), *sr = mkBin(E_SLT, r, z); return mkBin(E_AND, mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sr))); }
  // 64-bit multiply: only the constant case is precise
  if (isC(b) && b->c && sx(b->c, 64) > 0) { i64 k = sx(b->c, 64); return mkBin(E_OR, mkBin(E_SLT, mkConst((u64)(INT64_MAX / k), 64), a), mkBin(E_SLT, a, mkConst((u64)(INT64_MIN / k), 64))); }
  return mkConst(0, 1);
}
static bool ovfConc(int op, u64 a, u64 b, unsigned w) { __int128 x = sx(a, w), y = sx(b, w), r = op == E_ADD ? x + y : op == E_SUB ? x - y : x * y; __int128 lim = (__int128)1 << (w - 1); return r >= lim || r < -lim; }

static Val loadTy(State *s, u64 a, Type *t) {
  if (auto *stt = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(stt); std::vector<Expr *> k; for (unsigned i = 0; i < stt->getNumElements(); i++) { Type *et = stt->getElementType(i); unsigned w = wOf(et); if (!w) throw std::string("aggregate load"); k.push_back(toE(loadTy(s, a + sl->getElementOffset(i), et), w)); } return Val{0, mkAgg(k)}; }
  unsigned w = wOf(t); if (!w) throw std::string("load type"); unsigned n = (w + 7) / 8; Val v = loadB(s, a, n); if (w % 8) { if (v.e) return VE(mkExtract(v.e, 0, w)); v.c &= maskw(w); } return v;
}
static void storeTy(State *s, u64 a, Val v, Type *t) {
  if (auto *stt = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(stt); for (unsigned i = 0; i < stt->getNumElements(); i++) storeTy(s, a + sl->getElementOffset(i), VE(v.e->kid[i]), stt->getElementType(i)); return; }
  unsigned w = wOf(t); unsigned n = (w + 7) / 8; if (w % 8 && v.e) v = VE(mkZext(v.e, n * 8)); storeB(s, a, n, v);
}
static void enterFunc(State *s, CFunc *c, std::vector<Val> &args, CInst &ci, int dst);
static void endPath(State *s) { pathDone(s); throw Die(); }

// bounds check for a bulk access of symbolic length; returns object
static Obj *bulk(State *s, u64 p, Val n, bool write, u32 *id, u64 *off) {
  *id = idOf(p); Obj *o = objGet(s, *id); ST.memchecks++;
  if (!n.e && n.c == 0) { return o; }
  if (!o) { // legal only when n == 0
    if (n.e) { Expr *z = mkEq(n.e, mkConst(0, PW)); require(s, z, *id == 0 ? "null" : "uaf", "block operation on an invalid pointer"); return nullptr; }
    u32 i2; u64 o2; access(s, p, 1, write, &i2, &o2); return nullptr; }
  *off = p - baseOf(*id); if (PW == 32) *off = (u64)(i64)(int32_t)(u32)*off;
  Expr *sz = o->symSize ? o->symSize : mkConst(o->size, PW);
  Expr *offE = mkConst(*off, PW), *ne = toE(n, PW);
  Expr *ok = mkBin(E_OR, mkEq(ne, mkConst(0, PW)), mkBin(E_AND, mkBin(E_ULE, offE, sz), mkBin(E_ULE, ne, mkBin(E_SUB, sz, offE))));
  char b[160]; if (o->symSize || n.e) snprintf(b, 160, "block %s beyond the end of a %s block", write ? "write" : "read", o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global"); else snprintf(b, 160, "block %s of %llu bytes at offset %lld of a %llu-byte %s block", write ? "write" : "read", (unsigned long long)n.c, (long long)*off, (unsigned long long)o->size, o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global");
  require(s, ok, "oob", b);
  if (write && o->ro) { reportErr(s, "oob", "write to read-only data", s->model); throw Die(); }
  return o;
}

static bool doIntr(State *s, int intr, std::vector<Val> &a, CInst &ci, CFunc *fn) {
  // returns true when handled with ip advance by caller; result stored in regs
  Frame *f = &s->st.back(); int dst = ci.dst;
  auto ret = [&](Val v) { if (dst >= 0) s->st.back().regs[dst] = v; };
  switch (intr) {
  case I_NOP: return true;
  case I_STACKSAVE: ret(VC(0)); return true;
  case I_VIN: { u32 i = s->nvin++; if (haveInput) { ret(VC(i < inputBytes.size() ? (u8)inputBytes[i] : 0)); return true; } if (s->model.v.size() <= i) s->model.v.resize(i + 1, 0); ret(Val{0, mkVar(i)}); return true; }
  case I_ASSUME: { Val c = a[0]; if (!c.e) { if (!c.c) { ST.dead++; throw Die(); } return true; }
    Expr *e = mkNot(mkEq(c.e, mkConst(0, c.e->w))); Model m; int r = checkSat(s, e, &m); if (r == 2) { s->incomplete = true; reportInc(s, "solver unknown (assume)"); throw Die(); } if (r == 0) { ST.dead++; throw Die(); } s->model = m; addC(s, e); return true; }
  case I_ASSERT: { Val c = a[0]; ST.asserts++; std::string msg = cstr(s, concr(s, a[1], PW, "message")); if (!c.e) { if (!c.c) { reportErr(s, "assert", msg, s->model); throw Die(); } return true; }
    ST.assertSym++; Expr *e = mkNot(mkEq(c.e, mkConst(0, c.e->w))); require(s, e, "assert", msg); return true; }
  case I_FAIL: { reportErr(s, "assert", cstr(s, a[0].c), s->model); throw Die(); }
  case I_REACH: { std::string l = cstr(s, a[0].c); if (std::find(s->labels.begin(), s->labels.end(), l) == s->labels.end()) s->labels.push_back(l); return true; }
  case I_OBS: s->obs.push_back(Obs{a[0].e ? mkZext(a[0].e, 64) : nullptr, a[0].c}); return true;
  case I_CONC: ret(VC(concr(s, a[0], ci.cases[0].first, "value"))); return true;
  case I_STOP: endPath(s); return true;
  case I_MALLOC: { // (size, lib) ; NULL for absurd sizes
    Val n = a[0]; u64 lib = a[1].c; if (n.e) n = VE(subst(n.e, s));
    u64 lim = PW == 64 ? (1ULL << 40) : (1ULL << 31);
    if (n.e) { Expr *big = mkBin(E_ULT, mkConst(lim, PW), n.e); Model m1, m2; int rb = checkSat(s, big, &m1), rs = checkSat(s, mkNot(big), &m2);
      if (rb == 1 && rs == 1) { State *o = new State(*s); o->model = m1; addC(o, big); pushState(o); s->model = m2; addC(s, mkNot(big)); n = VE(subst(n.e, s)); }
      else if (rb == 1) { ret(VC(0)); return true; }
      if (hasUninit(n.e)) { reportErr(s, "uninit", "allocation size depends on uninitialised memory", s->model); throw Die(); } }
    else if (n.c > lim) { ret(VC(0)); return true; }
    if (n.e) { // keep small ranges concrete: decide whether all sizes are <= 4096 cheaply is left to the caller
      u64 p = newObj(s, 0, n.e, K_HEAP, true); s->objs.back().p->lib = lib; s->live += lib ? 1 : 0; ret(VC(p)); return true; }
    if (n.c > (1u << 24)) { u64 p = newObj(s, 0, mkBin(E_OR, mkConst(n.c, PW), mkConst(0, PW)), K_HEAP, true); s->objs.back().p->symSize = mkConst(n.c, PW); s->objs.back().p->lib = lib; s->live += lib ? 1 : 0; ret(VC(p)); return true; }
    u64 p = newObj(s, n.c, nullptr, K_HEAP, true); s->objs.back().p->lib = lib; s->live += lib ? 1 : 0; ret(VC(p)); return true; }
  case I_FREE: { u64 p = concr(s, a[0], PW, "pointer"); if (!p) return true; u32 id = idOf(p); Obj *o = objGet(s, id);
    if (!o) { reportErr(s, "free", "free of memory that is not allocated (double or wild free)", s->model); throw Die(); }
    if (o->kind != K_HEAP || p != baseOf(id)) { reportErr(s, "free", "free of a pointer that is not the start of a heap block", s->model); throw Die(); }
    if (o->lib) s->live--; freeObj(s, id); return true; }
  case I_BLOCKSIZE: { u64 p = concr(s, a[0], PW, "pointer"); Obj *o = objGet(s, idOf(p)); if (!o || o->kind != K_HEAP || p != baseOf(idOf(p))) { reportErr(s, "free", "realloc of a pointer that is not an allocated heap block", s->model); throw Die(); } ret(o->symSize ? VE(o->symSize) : VC(o->size)); return true; }
  case I_ISSYM: { Val v = a[0]; ret(VC(v.e && !isC(subst(v.e, s)) ? 1 : 0)); return true; }
  case I_SYMSIZED: { u64 p = concr(s, a[0], PW, "pointer"); Obj *o = objGet(s, idOf(p)); Expr *z = o && o->symSize ? subst(o->symSize, s) : nullptr; ret(VC(z && (!isC(z) || z->c > (1u << 24)) ? 1 : 0)); return true; }
  case I_ISLIVE: { u64 p = concr(s, a[0], PW, "pointer"); Obj *o = objGet(s, idOf(p)); ret(VC(o && o->kind == K_HEAP && p == baseOf(idOf(p)))); return true; }
  case I_LIVE: ret(VC((u64)s->live & maskw(ci.w))); return true;
  case I_SNAP: { s->snap.clear(); for (u32 i = 0; i < s->objs.size(); i++) { Obj *o = s->objs[i].p; if (o && ((o->kind == K_HEAP && o->lib) || (o->kind == K_GLOBAL && o->name.compare(0, 4, "env_") != 0 && o->name.compare(0, 2, "h_") != 0 && o->lib))) s->snap.push_back({i, s->objs[i]}); } return true; }
  case I_SNAPSAME: { Expr *all = mkConst(1, 1); bool bad = false;
    for (auto &p : s->snap) { Obj *o = s->objs[p.first].p, *q = p.second.p; if (o == q) continue; if (!o || o->size != q->size) { bad = true; break; }
      for (u64 i = 0; i < o->size; i++) { Expr *x = o->s.empty() ? nullptr : o->s[i], *y = q->s.empty() ? nullptr : q->s[i]; if (y == UNINIT) continue; if (x == UNINIT) { bad = true; break; } Expr *ex = x ? x : mkConst(o->c[i], 8), *ey = y ? y : mkConst(q->c[i], 8); all = mkBin(E_AND, all, mkEq(ex, ey)); } }
    if (bad) ret(VC(0)); else { Expr *r = mkZext(all, 32); ret(VE(r)); } return true; }
  case I_CHECKINIT: { u64 p = concr(s, a[0], PW, "pointer"); u64 n = concr(s, a[1], PW, "length"); u32 id; u64 off; if (!n) return true; access(s, p, n, false, &id, &off);
    for (u64 i = 0; i < n; i++) { Expr *e = byteAt(s, id, off + i); if (hasUninit(e)) { reportErr(s, "uninit", cstr(s, a[2].c), s->model); throw Die(); } } return true; }
  case I_TOUCH: { u64 p = concr(s, a[0], PW, "pointer"); Val n = a[1]; if (n.e) n = VE(subst(n.e, s)); u32 id; u64 off; Obj *o = bulk(s, p, n, a[2].c != 0, &id, &off); if (a[2].c == 2 && o && objGet(s, id)->symSize) { o = objW(s, id); o->fill = 2; o->ov.clear(); } return true; }
  case I_MEMCPY: case I_MEMMOVE: {
    u64 d = concr(s, a[0], PW, "pointer"), q = concr(s, a[1], PW, "pointer"); Val n = a[2]; if (n.e) n = VE(subst(n.e, s)); u32 di, si; u64 doff = 0, soff = 0;
    Obj *od = bulk(s, d, n, true, &di, &doff); Obj *os = bulk(s, q, n, false, &si, &soff); if (od) od = objGet(s, di); if (os) os = objGet(s, si);
    if (n.e) n = VE(subst(n.e, s));
    if (!n.e && n.c == 0) { ret(VC(d)); return true; }
    if ((od && od->symSize && !materialise(s, di)) || (os && os->symSize && !materialise(s, si))) throw std::string("memcpy on symbolic-size block");
    u64 k = concr(s, n, PW, "length"); ret(VC(d)); if (!k) return true;
    if (intr == I_MEMCPY && di == si && d != q && (doff < soff + k && soff < doff + k) && fn->name == "memcpy") { reportErr(s, "overlap", "memcpy with overlapping blocks", s->model); throw Die(); }
    std::vector<u8> tc(k); std::vector<Expr *> ts; os = objGet(s, si);
    if (!os->s.empty()) { ts.resize(k); for (u64 i = 0; i < k; i++) { if (os->s[soff + i] == UNINIT) { os = objW(s, si); os->s[soff + i] = freshUninit(s); } ts[i] = os->s[soff + i]; } }
    memcpy(tc.data(), os->c.data() + soff, k); od = objW(s, di); memcpy(od->c.data() + doff, tc.data(), k);
    if (!ts.empty()) { if (od->s.empty()) od->s.assign(od->size, nullptr); for (u64 i = 0; i < k; i++) od->s[doff + i] = ts[i]; } else if (!od->s.empty()) for (u64 i = 0; i < k; i++) od->s[doff + i] = nullptr;
    return true; }
  case I_MEMSET: { u64 d = concr(s, a[0], PW, "pointer"); Val n = a[2]; if (n.e) n = VE(subst(n.e, s)); u32 di; u64 doff = 0; Obj *od = bulk(s, d, n, true, &di, &doff); if (n.e) n = VE(subst(n.e, s));
    if (od && od->symSize && !materialise(s, di)) { od = objW(s, di); if (doff || a[1].e || toE(n, PW) != subst(od->symSize, s)) od->fill = 2; else { od->fill = 1; od->fillv = a[1].c; } od->ov.clear(); ret(VC(d)); return true; }
    u64 k = concr(s, n, PW, "length"); ret(VC(d)); if (!k) return true; od = objW(s, di); Val v = a[1]; Expr *e = v.e ? mkExtract(v.e, 0, 8) : nullptr; if (e && od->s.empty()) od->s.assign(od->size, nullptr);
    for (u64 i = 0; i < k; i++) { if (e) od->s[doff + i] = e; else { od->c[doff + i] = v.c; if (!od->s.empty()) od->s[doff + i] = nullptr; } } return true; }
  case I_MEMCMP: { u64 x = concr(s, a[0], PW, "pointer"), y = concr(s, a[1], PW, "pointer"); Val n = a[2]; if (n.e) n = VE(subst(n.e, s)); u32 xi, yi; u64 xo = 0, yo = 0;
    Obj *ox = bulk(s, x, n, false, &xi, &xo), *oy = bulk(s, y, n, false, &yi, &yo); if (ox) ox = objGet(s, xi); if (oy) oy = objGet(s, yi); if (n.e) n = VE(subst(n.e, s));
    if (((ox && ox->symSize && !materialise(s, xi)) || (oy && oy->symSize && !materialise(s, yi))) && (n.e || n.c)) throw std::string("memcmp on symbolic-size block");
    u64 k = concr(s, n, PW, "length"); Expr *r = mkConst(0, 32), *alleq = mkConst(1, 1), *sg = mkConst(1, 32);
    for (i64 i = (i64)k - 1; i >= 0; i--) { Expr *p = byteAt(s, xi, xo + i), *q = byteAt(s, yi, yo + i); Expr *eq = mkEq(p, q); alleq = mkBin(E_AND, eq, alleq); sg = mkIte(eq, sg, mkIte(mkBin(E_ULT, p, q), mkConst(~0u, 32), mkConst(1, 32))); }
    r = mkIte(alleq, mkConst(0, 32), sg); ret(VE(r)); return true; }
  case I_VASTART: { u64 p = concr(s, a[0], PW, "pointer"); u64 va = f->vaobj; if (X64VA) { storeB(s, p, 4, VC(48)); storeB(s, p + 4, 4, VC(176)); storeB(s, p + 8, 8, VC(va)); storeB(s, p + 16, 8, VC(0)); } else storeB(s, p, PW / 8, VC(va)); return true; }
  case I_VAEND: return true;
  case I_VACOPY: { u64 d = concr(s, a[0], PW, "pointer"), q = concr(s, a[1], PW, "pointer"); unsigned n = X64VA ? 24 : PW / 8; for (unsigned i = 0; i < n; i += 4) { Val v = loadB(s, q + i, 4); storeB(s, d + i, 4, v); } return true; }
  case I_VACHECK: { // (va_list*, kind) kind: 4 = int, 8 = long, 1 = pointer ; reports format mismatch
    u64 p = concr(s, a[0], PW, "pointer"); u64 area = loadB(s, X64VA ? p + 8 : p, PW / 8).c; u32 id = idOf(area); Obj *o = objGet(s, id); u64 kind = a[1].c; unsigned slot = PW / 8; if (!X64VA && PW == 32) slot = 4;
    if (!o || o->kind != K_VARARG) { reportErr(s, "format", "variable argument list is not valid", s->model); throw Die(); }
    u64 off = area - baseOf(id); if (off >= o->size) { reportErr(s, "format", "diagnostic format consumes more arguments than were passed", s->model); throw Die(); }
    u8 ty = off / slot < o->slotty.size() ? o->slotty[off / slot] : 0; u8 want = kind == 1 ? 1 : (kind == 8 && PW == 64) ? 8 : 4;
    if (ty != want) { char b[128]; const char *nm[] = {"?", "a pointer", "", "", "a 32-bit integer", "", "", "", "a 64-bit integer"}; snprintf(b, 128, "format directive expects %s but was given %s", nm[want], nm[ty <= 8 ? ty : 0]); reportErr(s, "format", b, s->model); throw Die(); }
    return true; }
  case I_SOVF: case I_UOVF: { StringRef n = fn->name; int op = n.contains("add") ? E_ADD : n.contains("sub") ? E_SUB : E_MUL; unsigned w = ci.cases[0].first; Expr *x = toE(a[0], w), *y = toE(a[1], w); Expr *r = mkBin((EK)op, x, y), *ov;
    if (intr == I_SOVF) ov = nslOverflow(op, x, y, w);
    else if (op == E_ADD) ov = mkBin(E_ULT, r, x); else if (op == E_SUB) ov = mkBin(E_ULT, x, y); else { if (w <= 32) { Expr *r2 = mkBin(E_MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)); ov = mkNot(mkEq(mkExtract(r2, w, w), mkConst(0, w))); } else { if (isC(x)) std::swap(x, y); if (!isC(y)) throw std::string("umul overflow 64"); ov = y->c ? mkBin(E_ULT, mkConst(~0ULL / y->c, 64), x) : mkConst(0, 1); } }
    ret(Val{0, mkAgg({r, ov})}); return true; }
  case I_MINMAX: { StringRef n = fn->name; unsigned w = ci.cases[0].first; Expr *x = toE(a[0], w), *y = toE(a[1], w); bool sg = n.contains("smax") || n.contains("smin"), mx = n.contains("max"); Expr *lt = mkBin(sg ? E_SLT : E_ULT, x, y); ret(VE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y))); return true; }
  case I_ABS: { unsigned w = ci.cases[0].first; Expr *x = toE(a[0], w); ret(VE(mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x))); return true; }
  case I_BSWAP: { unsigned w = ci.cases[0].first; Expr *x = toE(a[0], w); Expr *b[8]; for (unsigned i = 0; i < w / 8; i++) b[w / 8 - 1 - i] = mkExtract(x, 8 * i, 8); ret(VE(mkBytes(b, w / 8))); return true; }
  case I_FSH: { unsigned w = ci.cases[0].first; if (a[2].e) throw std::string("funnel shift"); unsigned k = a[2].c % w; Expr *x = toE(a[0], w), *y = toE(a[1], w); bool l = fn->name.find("fshl") != std::string::npos; if (!l) k = w - k; if (k == 0) ret(VE(x)); else if (k == w) ret(VE(y)); else ret(VE(mkBin(E_OR, mkBin(E_SHL, x, mkConst(k, w)), mkBin(E_LSHR, y, mkConst(w - k, w))))); return true; }
  case I_EXPECT: ret(a[0]); return true;
  case I_SAMEEXPR: { ret(VC(1)); return true; }
  }
  throw std::string("unsupported intrinsic ") + fn->name;
}

static void enterFunc(State *s, CFunc *c, std::vector<Val> &args, CInst &ci, int dst) {
  if (!c->compiled) { if (c->F->isDeclaration()) throw std::string("call to external function ") + c->name; compile(c); }
  c->hit = true;
  if (s->st.size() >= maxDepth) { reportErr(s, "stack", "call depth limit exceeded (unbounded recursion)", s->model); throw Die(); }
  if (args.size() < c->nparams || (args.size() > c->nparams && !c->vararg)) { reportErr(s, "badcall", "function " + c->name + " called with " + std::to_string(args.size()) + " arguments", s->model); throw Die(); }
  Frame nf; nf.f = c; nf.ip = c->bb[0].first; nf.bb = 0; nf.regs.assign(c->nregs, VC(0)); nf.retdst = dst; nf.vaobj = 0;
  for (u32 i = 0; i < c->nparams; i++) nf.regs[i] = args[i];
  for (u32 i = 0; i < c->nparams; i++) if (c->byval[i]) { u64 n = c->byval[i]; u64 p = newObj(s, n, nullptr, K_STACK, true); u32 id = idOf(p); nf.allocas.push_back(id); for (u64 j = 0; j < n; j++) storeB(s, p + j, 1, loadB(s, nf.regs[i].c + j, 1)); nf.regs[i] = VC(p); }
  if (c->vararg) { // lay the extra arguments out in an overflow area
    std::vector<std::pair<Val, std::pair<unsigned, u8>>> ex; for (u32 i = c->nparams; i < args.size(); i++) ex.push_back({args[i], {ci.cases[i].first, (u8)(ci.cases[i].second ? 1 : ci.cases[i].first / 8)}});
    unsigned slot = X64VA ? 8 : PW / 8; u64 n = 0; std::vector<u64> offs; std::vector<u8> sty;
    for (auto &x : ex) { unsigned b = x.second.first / 8; if (b > slot && slot == 4) { n = (n + 7) & ~7ULL; } while (sty.size() < n / slot) sty.push_back(0); offs.push_back(n); sty.push_back(x.second.second); n += b > slot ? b : slot; }
    while (sty.size() < n / slot) sty.push_back(0);
    u64 p = newObj(s, n, nullptr, K_VARARG, true); u32 id = idOf(p); nf.allocas.push_back(id); s->objs.back().p->slotty = sty;
    for (size_t i = 0; i < ex.size(); i++) { unsigned b = ex[i].second.first / 8; u64 o = offs[i]; if (BE && b < slot) o += slot - b; if (b) storeB(s, p + o, b, ex[i].first); }
    nf.vaobj = p; }
  s->st.push_back(std::move(nf));
}

static void step(State *s) {
  Frame &f = s->st.back(); CInst &ci = f.f->code[f.ip]; ci.cov = true;
  if (++s->steps > maxSteps) { reportErr(s, "steps", "step limit exceeded (non-termination)", s->model); throw Die(); }
  switch (ci.op) {
  case O_BIN: {
    Val a = get(s, f, ci.o[0], ci.w), b = get(s, f, ci.o[1], ci.w); unsigned w = ci.w;
    if (!a.e && !b.e) {
      if ((ci.flags & 1) && (ci.sub == E_ADD || ci.sub == E_SUB || ci.sub == E_MUL) && ovfConc(ci.sub, a.c, b.c, w)) { reportErr(s, "overflow", "signed integer overflow", s->model); throw Die(); }
      if (ci.sub >= E_UDIV && ci.sub <= E_SREM) { if (!b.c) { reportErr(s, "div", "division by zero", s->model); throw Die(); } if ((ci.sub == E_SDIV || ci.sub == E_SREM) && sx(b.c, w) == -1 && a.c == (1ULL << (w - 1))) { reportErr(s, "overflow", "signed division overflow", s->model); throw Die(); } }
      if (ci.sub >= E_SHL && ci.sub <= E_ASHR && b.c >= w) { reportErr(s, "shift", "shift amount not smaller than the width", s->model); throw Die(); }
      setR(f, ci.dst, VC(foldBin((EK)ci.sub, a.c, b.c, w)));
    } else {
      Expr *x = toE(a, w), *y = toE(b, w);
      if ((ci.flags & 1) && (ci.sub == E_ADD || ci.sub == E_SUB || ci.sub == E_MUL)) { ST.ubchecks++; require(s, mkNot(nslOverflow(ci.sub, x, y, w)), "overflow", "signed integer overflow"); }
      if (ci.sub >= E_UDIV && ci.sub <= E_SREM) { ST.ubchecks++; require(s, mkNot(mkEq(y, mkConst(0, w))), "div", "division by zero"); if (ci.sub == E_SDIV || ci.sub == E_SREM) require(s, mkNot(mkBin(E_AND, mkEq(y, mkConst(maskw(w), w)), mkEq(x, mkConst(1ULL << (w - 1), w)))), "overflow", "signed division overflow"); }
      if (ci.sub >= E_SHL && ci.sub <= E_ASHR) require(s, mkBin(E_ULT, y, mkConst(w, w)), "shift", "shift amount not smaller than the width");
      setR(s->st.back(), ci.dst, VE(mkBin((EK)ci.sub, x, y)));
    }
    s->st.back().ip++; return; }
  case O_ICMP: {
    Val a = get(s, f, ci.o[0], ci.w2), b = get(s, f, ci.o[1], ci.w2); unsigned w = ci.w2; EK k; bool neg = false, sw = false;
    switch (ci.sub) { case CmpInst::ICMP_EQ: k = E_EQ; break; case CmpInst::ICMP_NE: k = E_EQ; neg = true; break; case CmpInst::ICMP_ULT: k = E_ULT; break; case CmpInst::ICMP_ULE: k = E_ULE; break; case CmpInst::ICMP_UGT: k = E_ULT; sw = true; break; case CmpInst::ICMP_UGE: k = E_ULE; sw = true; break; case CmpInst::ICMP_SLT: k = E_SLT; break; case CmpInst::ICMP_SLE: k = E_SLE; break; case CmpInst::ICMP_SGT: k = E_SLT; sw = true; break; default: k = E_SLE; sw = true; }
    if (sw) std::swap(a, b);
    if (!a.e && !b.e) setR(f, ci.dst, VC(foldBin(k, a.c, b.c, w) ^ (neg ? 1 : 0)));
    else { Expr *r = mkBin(k, toE(a, w), toE(b, w)); if (neg) r = mkNot(r); setR(f, ci.dst, VE(r)); }
    f.ip++; return; }
  case O_ALLOCA: { u64 n = concr(s, get(s, f, ci.o[0], ci.w2), ci.w2, "alloca size"); u64 p = newObj(s, n * ci.imm, nullptr, K_STACK, true); Frame &g = s->st.back(); g.allocas.push_back(idOf(p)); setR(g, ci.dst, VC(p)); g.ip++; return; }
  case O_LOAD: { Val tp = get(s, f, ci.o[0], PW), tv; if (tp.e && ci.w && ci.w % 8 == 0 && !ci.ty->isPointerTy() && isRepo(f.f) && tableLoad(s, tp, ci.w / 8, &tv)) { Frame &g = s->st.back(); setR(g, ci.dst, tv); g.ip++; return; }
    u64 p = concr(s, get(s, f, ci.o[0], PW), PW, "pointer"); Val v; if (ci.w && ci.w % 8 == 0) v = loadB(s, p, ci.w / 8); else v = loadTy(s, p, ci.ty); Frame &g = s->st.back(); setR(g, ci.dst, v); g.ip++; return; }
  case O_STORE: { u64 p = concr(s, get(s, f, ci.o[1], PW), PW, "pointer"); Val v = get(s, s->st.back(), ci.o[0], ci.w); if (ci.w && ci.w % 8 == 0) storeB(s, p, ci.w / 8, v); else storeTy(s, p, v, ci.ty); s->st.back().ip++; return; }
  case O_GEP: {
    Val b = get(s, f, ci.o[0], PW); bool sym = b.e != nullptr; u64 off = ci.imm; Expr *e = nullptr;
    for (size_t i = 1; i < ci.o.size(); i++) { unsigned w = ci.cases[i - 1].first; Val x = get(s, f, ci.o[i], w); if (!x.e) off += (u64)sx(x.c, w) * ci.scale[i - 1]; else { sym = true; Expr *t = mkSext(x.e, PW > w ? PW : w); if (w > PW) t = mkExtract(t, 0, PW); t = mkBin(E_MUL, t, mkConst(ci.scale[i - 1], PW)); e = e ? mkBin(E_ADD, e, t) : t; } }
    if (!sym) setR(f, ci.dst, VC((b.c + off) & maskw(PW)));
    else { Expr *r = mkBin(E_ADD, toE(b, PW), mkConst(off, PW)); if (e) r = mkBin(E_ADD, r, e); setR(f, ci.dst, VE(r)); }
    f.ip++; return; }
  case O_SELECT: {
    Val c = get(s, f, ci.o[0], 1); Val a = get(s, f, ci.o[1], ci.w), b = get(s, f, ci.o[2], ci.w);
    if (c.e) c = VE(subst(c.e, s));
    if (!c.e) { setR(f, ci.dst, c.c & 1 ? a : b); f.ip++; return; }
    if (ci.flags) { u64 x = concr(s, c, 1, "select condition"); Frame &g = s->st.back(); setR(g, ci.dst, x ? a : b); g.ip++; return; }
    setR(f, ci.dst, VE(mkIte(c.e, toE(a, ci.w), toE(b, ci.w)))); f.ip++; return; }
  case O_BR: gotoBB(s, ci.bb1); return;
  case O_CBR: {
    Val c = get(s, f, ci.o[0], 1);
    if (c.e) c = VE(subst(c.e, s));
    if (!c.e) { gotoBB(s, c.c & 1 ? ci.bb1 : ci.bb2); return; }
    bool t = evalExpr(c.e, s->model) != 0; Expr *other = t ? mkNot(c.e) : c.e; Model m; int r = checkSat(s, other, &m);
    if (r == 2) { s->incomplete = true; reportInc(s, "solver unknown (branch)"); }
    if (r == 1) {
      if (hasUninit(c.e)) { reportErr(s, "uninit", "branch depends on uninitialised memory", s->model); throw Die(); }
      State *o = new State(*s); o->model = m; addC(o, other); gotoBB(o, t ? ci.bb2 : ci.bb1); pushState(o); addC(s, mkNot(other)); }
    gotoBB(s, t ? ci.bb1 : ci.bb2); return; }
  case O_SWITCH: {
    Val c = get(s, f, ci.o[0], ci.w2); if (c.e) c = VE(subst(c.e, s));
    if (!c.e) { u32 d = ci.bb1; for (auto &k : ci.cases) if (k.first == c.c) { d = k.second; break; } gotoBB(s, d); return; }
    std::map<u32, Expr *> tgt; Expr *def = mkConst(1, 1);
    for (auto &k : ci.cases) { Expr *q = mkEq(c.e, mkConst(k.first, ci.w2)); def = mkBin(E_AND, def, mkNot(q)); auto it = tgt.find(k.second); tgt[k.second] = it == tgt.end() ? q : mkBin(E_OR, it->second, q); }
    { auto it = tgt.find(ci.bb1); tgt[ci.bb1] = it == tgt.end() ? def : mkBin(E_OR, it->second, def); }
    u32 mine = ~0u; Expr *mineC = nullptr; std::vector<std::pair<u32, Expr *>> others;
    for (auto &k : tgt) { if (mine == ~0u && evalExpr(k.second, s->model)) { mine = k.first; mineC = k.second; } else others.push_back(k); }
    bool forked = false;
    for (auto &k : others) { Model m; int r = checkSat(s, k.second, &m); if (r == 2) { s->incomplete = true; reportInc(s, "solver unknown (switch)"); } if (r == 1) { if (hasUninit(c.e)) { reportErr(s, "uninit", "branch depends on uninitialised memory", s->model); throw Die(); } State *o = new State(*s); o->model = m; addC(o, k.second); gotoBB(o, k.first); pushState(o); forked = true; } }
    if (forked) addC(s, mineC); gotoBB(s, mine); return; }
  case O_RET: {
    Val v = ci.o.empty() ? VC(0) : get(s, f, ci.o[0], ci.w); int dst = f.retdst; popFrame(s);
    if (s->st.empty()) endPath(s);
    Frame &g = s->st.back(); if (dst >= 0) g.regs[dst] = v; g.ip++; return; }
  case O_CALL: {
    CFunc *c = ci.callee; std::vector<Val> a; size_t na = ci.cases.size(); a.reserve(na);
    if (!c) { u64 p = concr(s, get(s, f, ci.o[na], PW), PW, "function pointer"); u32 id = idOf(p); if (p == 0) { reportErr(s, "null", "call through a null function pointer", s->model); throw Die(); } if (id < FUNC0 || id - FUNC0 >= funcById.size() || funcById[id - FUNC0]->addr != p) { reportErr(s, "badcall", "call through an invalid function pointer", s->model); throw Die(); } c = funcById[id - FUNC0]; }
    Frame &g = s->st.back();
    for (size_t i = 0; i < na; i++) a.push_back(ci.cases[i].first ? get(s, g, ci.o[i], ci.cases[i].first) : ci.o[i].v);
    if (c->intr) { doIntr(s, c->intr, a, ci, c); s->st.back().ip++; return; }
    enterFunc(s, c, a, ci, ci.dst); return; }
  case O_ZEXT: { Val a = get(s, f, ci.o[0], ci.w2); setR(f, ci.dst, a.e ? VE(mkZext(a.e, ci.w)) : a); f.ip++; return; }
  case O_SEXT: { Val a = get(s, f, ci.o[0], ci.w2); setR(f, ci.dst, a.e ? VE(mkSext(a.e, ci.w)) : VC((u64)sx(a.c, ci.w2) & maskw(ci.w))); f.ip++; return; }
  case O_TRUNC: { Val a = get(s, f, ci.o[0], ci.w2); setR(f, ci.dst, a.e ? VE(mkExtract(a.e, 0, ci.w)) : VC(a.c & maskw(ci.w))); f.ip++; return; }
  case O_MOVE: { Val a = get(s, f, ci.o[0], ci.w); setR(f, ci.dst, a); f.ip++; return; }
  case O_UNREACH: reportErr(s, "unreachable", "reached undefined behaviour (unreachable code)", s->model); throw Die();
  case O_EXTRACTV: { Val a = get(s, f, ci.o[0], 0); if (!a.e || a.e->k != E_AGG) throw std::string("extractvalue"); setR(f, ci.dst, VE(a.e->kid[ci.imm])); f.ip++; return; }
  case O_INSERTV: { std::vector<Expr *> k; if (ci.o[0].slot < 0 && ci.o[0].v.e == UNINIT) k.assign(ci.bb1, mkConst(0, 32)); else { Val a = get(s, f, ci.o[0], 0); k.assign(a.e->kid, a.e->kid + a.e->n); } Val b = get(s, f, ci.o[1], ci.w2); k[ci.imm] = toE(b, ci.w2); setR(f, ci.dst, Val{0, mkAgg(k)}); f.ip++; return; }
  default: { std::string str; raw_string_ostream os(str); ci.I->print(os); throw std::string("unsupported instruction ") + str; }
  }
}
static void runState(State *s, bool bfs) {
  u64 start = ST.forks, asked = ST.queries; (void)start;
  try { for (u32 k = 0;; k++) { step(s); if (bfs && ST.forks != start) { work.push_back(s); return; } if (((k & 0xfff) == 0 || ST.queries != asked) && (asked = ST.queries, now() > tEnd)) { ST.inc++; break; } } }
  catch (Die &) {}
  catch (std::string &e) { reportInc(s, e); }
  ST.steps += 0; delete s;
}
static void emitStats(double t0, bool timeout) {
  fprintf(out, "{\"type\":\"stats\",\"paths\":%llu,\"dead\":%llu,\"errors\":%llu,\"incomplete\":%llu,\"steps\":%llu,\"forks\":%llu,\"smt_queries\":%llu,\"smt_sat\":%llu,\"smt_unsat\":%llu,\"smt_unknown\":%llu,\"byte_enum_queries\":%llu,\"domain_queries\":%llu,\"model_hits\":%llu,\"cache_hits\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"ub_obligations\":%llu,\"block_obligations\":%llu,\"solver_s\":%.3f,\"max_query_ms\":%llu,\"wall_s\":%.2f,\"timeout\":%s,\"labels\":{", (unsigned long long)ST.paths, (unsigned long long)ST.dead, (unsigned long long)ST.errors, (unsigned long long)ST.inc, (unsigned long long)ST.steps, (unsigned long long)ST.forks, (unsigned long long)ST.queries, (unsigned long long)ST.qsat, (unsigned long long)ST.qunsat, (unsigned long long)ST.qunk, (unsigned long long)ST.enumq, (unsigned long long)ST.domq, (unsigned long long)ST.modelhit, (unsigned long long)ST.cachehit, (unsigned long long)ST.asserts, (unsigned long long)ST.assertSym, (unsigned long long)ST.ubchecks, (unsigned long long)ST.memchecks, ST.solver, (unsigned long long)ST.maxq, now() - t0, timeout ? "true" : "false");
  bool first = true; for (auto &l : labelCount) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
  fprintf(out, "},\"functions\":["); first = true;
  for (auto *c : funcById) if (c->hit && isRepo(c)) { fprintf(out, "%s\"%s\"", first ? "" : ",", c->name.c_str()); first = false; }
  fprintf(out, "],\"lines\":["); first = true; std::set<std::string> lines;
  for (auto *c : funcById) if (c->hit && isRepo(c)) for (auto &ci : c->code) if (ci.cov) if (const DILocation *d = ci.I->getDebugLoc().get()) { std::string fl = c->file; size_t p = fl.rfind('/'); lines.insert(fl.substr(p + 1) + ":" + std::to_string(d->getLine())); }
  for (auto &l : lines) { fprintf(out, "%s\"%s\"", first ? "" : ",", l.c_str()); first = false; }
  fprintf(out, "]}\n"); fflush(out);
}
static void initZ3() { zc = new z3::context(); zmemo = new std::vector<z3::expr>(); zs = new z3::solver(*zc, z3::solver::simple()); z3::params p(*zc); p.set("timeout", 50u); zs->set(p); }

int main(int argc, char **argv) {
  std::string file, entry = "harness", outf; int W = 8; double tlim = 300; u32 frontier = 512;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--entry") entry = argv[++i]; else if (a == "--out") outf = argv[++i]; else if (a == "--workers") W = atoi(argv[++i]); else if (a == "--time") tlim = atof(argv[++i]); else if (a == "--steps") maxSteps = atoll(argv[++i]); else if (a == "--depth") maxDepth = atoi(argv[++i]); else if (a == "--repo") repoPrefix = argv[++i]; else if (a == "--frontier") frontier = atoi(argv[++i]); else if (a == "--witness") wlimit = atoi(argv[++i]); else if (a == "--enum") maxEnum = atoi(argv[++i]); else if (a == "--smt-dir") smtDir = argv[++i]; else if (a == "--smt-every") smtEvery = atoll(argv[++i]); else if (a == "--input") { haveInput = true; std::string h = argv[++i]; for (size_t k = 0; k + 1 < h.size(); k += 2) inputBytes += (char)strtol(h.substr(k, 2).c_str(), nullptr, 16); } else if (a == "--seed") { rng ^= (u64)atoll(argv[++i]) * 0x9E3779B97F4A7C15ULL; if (!rng) rng = 1; } else file = a; }
  const char *names[] = {"vin_u8", "vf_assume", "vf_assert", "vf_reach", "vf_obs", "vf_concretize", "vf_malloc", "vf_free", "vf_live_blocks", "vf_snapshot", "vf_snapshot_same", "memcpy", "memmove", "memset", "memcmp", "vf_check_init", "vf_touch", "vf_fail", "vf_stop", "vf_va_check", "vf_block_size", "vf_is_live", "bcmp", "vf_symsized", "vf_is_sym"};
  int codes[] = {I_VIN, I_ASSUME, I_ASSERT, I_REACH, I_OBS, I_CONC, I_MALLOC, I_FREE, I_LIVE, I_SNAP, I_SNAPSAME, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_MEMCMP, I_CHECKINIT, I_TOUCH, I_FAIL, I_STOP, I_VACHECK, I_BLOCKSIZE, I_ISLIVE, I_MEMCMP, I_SYMSIZED, I_ISSYM};
  for (size_t i = 0; i < sizeof(codes) / sizeof(*codes); i++) intrNames[names[i]] = codes[i];
  out = outf.empty() ? stdout : fopen(outf.c_str(), "w"); if (!out) { perror("out"); return 3; }
  SMDiagnostic err; auto mod = parseIRFile(file, err, Ctx); if (!mod) { err.print("symex", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout(); PW = DL->getPointerSizeInBits(); BE = DL->isBigEndian();
  std::string tr = M->getTargetTriple(); X64VA = tr.compare(0, 6, "x86_64") == 0;
  if (PW == 32) { SH = 16; BOFF = 0x4000; FUNC0 = 0xF000; }
  double t0 = now(); tEnd = t0 + tlim;
  initState = new State; State *s0 = initState; roObjs.push_back(ObjRef()); // id 0 = null
  for (auto &F : *M) getFunc(&F);
  std::vector<GlobalVariable *> ros, rws; for (auto &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; (g.isConstant() ? ros : rws).push_back(&g); }
  for (auto *g : ros) { gaddr[g] = baseOf(roObjs.size()); Obj *o = new Obj; o->size = DL->getTypeAllocSize(g->getValueType()); o->c.assign(o->size, 0); o->ro = true; o->kind = K_GLOBAL; o->name = g->getName().str(); roObjs.push_back(ObjRef(o)); }
  s0->firstDyn = roObjs.size();
  for (auto *g : rws) { u64 p = newObj(s0, DL->getTypeAllocSize(g->getValueType()), nullptr, K_GLOBAL, false, g->getName().str()); gaddr[g] = p;
    SmallVector<DIGlobalVariableExpression *, 2> dv; g->getDebugInfo(dv); if (!dv.empty()) { auto *d = dv[0]->getVariable(); std::string f = d->getFilename().str(), dd = d->getDirectory().str(); std::string full = !f.empty() && f[0] == '/' ? f : dd + "/" + f; s0->objs.back().p->lib = full.compare(0, repoPrefix.size(), repoPrefix) == 0; } }
  try { for (auto *g : ros) if (g->hasInitializer()) writeConst(roObjs[idOf(gaddr[g])].p, 0, g->getInitializer());
    for (auto *g : rws) if (g->hasInitializer()) writeConst(objGet(s0, idOf(gaddr[g])), 0, g->getInitializer());
  } catch (std::string &e) { fprintf(stderr, "init: %s\n", e.c_str()); return 3; }
  Function *EF = M->getFunction(entry); if (!EF) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  { CFunc *c = getFunc(EF); compile(c); c->hit = true; Frame f; f.f = c; f.ip = c->bb[0].first; f.bb = 0; f.regs.assign(c->nregs, VC(0)); f.retdst = -1; f.vaobj = 0; s0->st.push_back(f); }
  for (auto &F : *M) if (!F.isDeclaration()) { CFunc *c = getFunc(&F); if (!c->compiled) compile(c); }
  initZ3(); work.push_back(s0);
  while (!work.empty() && work.size() < frontier && now() < tEnd && now() - t0 < tlim / 3) { State *s = work.front(); work.pop_front(); runState(s, true); }
  if (work.empty()) { emitStats(t0, false); fprintf(out, "{\"type\":\"end\"}\n"); fclose(out); _exit(0); }
  std::vector<State *> fr(work.begin(), work.end()); work.clear();
  // hand the frontier out in a pseudo-random order
  for (size_t i = fr.size(); i > 1; i--) std::swap(fr[i - 1], fr[rnd() % i]);
  emitStats(t0, false); fflush(out);
  volatile u32 *next = (u32 *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *next = 0;
  std::vector<pid_t> kids; std::vector<std::string> files;
  for (int w = 0; w < W; w++) {
    std::string wf = (outf.empty() ? "/tmp/symex" + std::to_string(getpid()) : outf) + ".w" + std::to_string(w); files.push_back(wf);
    pid_t p = fork(); if (p) { kids.push_back(p); continue; }
    out = fopen(wf.c_str(), "w"); memset(&ST, 0, sizeof ST); labelCount.clear(); for (auto *c : funcById) { c->hit = false; for (auto &ci : c->code) ci.cov = false; }
    bool to = false; double tw = now();
    for (;;) { u32 i = __sync_fetch_and_add((u32 *)next, 1); if (i >= fr.size()) break; work.push_back(fr[i]); while (!work.empty()) { if (now() > tEnd) { to = true; break; } State *s = work.back(); work.pop_back(); runState(s, false); } if (to) break; }
    emitStats(tw, to); fclose(out); _exit(0);
  }
  int bad = 0; for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  for (auto &wf : files) { FILE *f = fopen(wf.c_str(), "r"); if (f) { char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, n, out); fclose(f); unlink(wf.c_str()); } }
  fprintf(out, "{\"type\":\"end\",\"crashed_workers\":%d}\n", bad); fclose(out); _exit(bad ? 4 : 0);
}
