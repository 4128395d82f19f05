// Hash-consed bit-vector expression DAG (width 1..64), with folding aimed at
// byte-oriented code.  Values are modulo 2^w.
#pragma once
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef uint32_t u32;

enum EK : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_BYTES, E_AGG };

struct Expr {
  EK k; u8 w; u8 n; u8 flags;   // flags: 1 = contains uninitialised byte
  u64 c;                        // constant / var id / extract offset
  Expr **kid;
  u32 vset;                     // interned variable set
  u32 id;
  // eval memo
  u32 stamp; u64 val;
  int z3idx;
  // substitution memo
  u32 sstamp; Expr *sval;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); return (i64)((v ^ m) - m); }

static const u64 UNINIT_BASE = 1ULL << 32;

// interned variable sets
struct VarSets {
  std::vector<std::vector<u64>> sets;
  std::unordered_map<std::string, u32> idx;
  std::unordered_map<u64, u32> memo;
  VarSets() { sets.push_back({}); idx[""] = 0; }
  u32 intern(const std::vector<u64> &v) {
    std::string key((const char *)v.data(), v.size() * 8);
    auto it = idx.find(key); if (it != idx.end()) return it->second;
    u32 r = sets.size(); sets.push_back(v); idx[key] = r; return r;
  }
  u32 single(u64 v) { return intern({v}); }
  u32 uni(u32 a, u32 b) {
    if (a == b || b == 0) return a; if (a == 0) return b;
    if (a > b) std::swap(a, b);
    u64 key = ((u64)a << 32) | b; auto it = memo.find(key); if (it != memo.end()) return it->second;
    std::vector<u64> o; std::set_union(sets[a].begin(), sets[a].end(), sets[b].begin(), sets[b].end(), std::back_inserter(o));
    u32 r = intern(o); memo[key] = r; return r;
  }
};
extern VarSets VS;

struct ExprHash { size_t operator()(const Expr *e) const {
  u64 h = e->k * 0x9E3779B97F4A7C15ULL + e->w * 1315423911u + e->c * 0xC2B2AE3D27D4EB4FULL;
  for (int i = 0; i < e->n; i++) h = (h ^ (u64)e->kid[i]->id) * 0x100000001B3ULL + (h >> 29);
  return h; } };
struct ExprEq { bool operator()(const Expr *a, const Expr *b) const {
  if (a->k != b->k || a->w != b->w || a->n != b->n || a->c != b->c) return false;
  for (int i = 0; i < a->n; i++) if (a->kid[i] != b->kid[i]) return false; return true; } };

Expr *mkConst(u64 v, unsigned w);
Expr *mkVar(u64 id);
Expr *mkBin(EK k, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned off, unsigned w);
Expr *mkBytes(Expr **b, unsigned n);   // least significant first
Expr *mkAgg(const std::vector<Expr *> &v);
static inline Expr *mkNot(Expr *a) { return mkBin(E_XOR, a, mkConst(1, 1)); }
static inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(E_EQ, a, b); }
static inline bool isC(Expr *e) { return e->k == E_CONST; }
u64 foldBin(EK k, u64 a, u64 b, unsigned w);
struct Model { std::vector<u8> v; std::vector<u8> un;
  u8 get(u64 id) const { if (id >= UNINIT_BASE) { id -= UNINIT_BASE; return id < un.size() ? un[id] : 0; } return id < v.size() ? v[id] : 0; }
  void set(u64 id, u8 x) { auto &t = id >= UNINIT_BASE ? un : v; if (id >= UNINIT_BASE) id -= UNINIT_BASE; if (t.size() <= id) t.resize(id + 1, 0); t[id] = x; } };
u64 evalExpr(Expr *e, const Model &m);
void dumpSmt(Expr *e, std::string &out);
