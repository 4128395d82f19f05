#include "expr.h"
VarSets VS;
static std::unordered_set<Expr *, ExprHash, ExprEq> table;
static u32 nextId = 1;
static char *arena = nullptr; static size_t arenaLeft = 0;
static void *aalloc(size_t n) { n = (n + 15) & ~15ULL; if (arenaLeft < n) { arenaLeft = std::max<size_t>(n, 1 << 20); arena = (char *)malloc(arenaLeft); } void *p = arena; arena += n; arenaLeft -= n; return p; }

static Expr *intern(EK k, unsigned w, u64 c, Expr **kid, unsigned n) {
  Expr t; t.k = k; t.w = w; t.n = n; t.c = c; t.kid = kid;
  auto it = table.find(&t); if (it != table.end()) return *it;
  Expr *e = (Expr *)aalloc(sizeof(Expr)); *e = t; e->flags = 0; e->stamp = 0; e->sstamp = 0; e->z3idx = -1; e->id = nextId++; e->vset = 0; e->sval = nullptr;
  e->kid = n ? (Expr **)aalloc(n * sizeof(Expr *)) : nullptr;
  for (unsigned i = 0; i < n; i++) { e->kid[i] = kid[i]; e->flags |= kid[i]->flags & 1; e->vset = VS.uni(e->vset, kid[i]->vset); }
  if (k == E_VAR) { e->vset = VS.single(c); if (c >= UNINIT_BASE) e->flags |= 1; }
  table.insert(e); return e;
}
Expr *mkConst(u64 v, unsigned w) { return intern(E_CONST, w, v & maskw(w), nullptr, 0); }
Expr *mkVar(u64 id) { return intern(E_VAR, 8, id, nullptr, 0); }
Expr *mkAgg(const std::vector<Expr *> &v) { return intern(E_AGG, 0, 0, (Expr **)v.data(), v.size()); }

u64 foldBin(EK k, u64 a, u64 b, unsigned w) {
  u64 m = maskw(w);
  switch (k) {
  case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
  case E_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
  case E_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case E_SHL: return b >= w ? 0 : (a << b) & m; case E_LSHR: return b >= w ? 0 : a >> b;
  case E_ASHR: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? (w - 1 < 63 ? w - 1 : 63) : b)) & m; }
  case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
  case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
  case E_SLT: return sx(a, w) < sx(b, w); case E_SLE: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}
static bool isCmp(EK k) { return k >= E_EQ && k <= E_SLE; }
static bool commut(EK k) { return k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR || k == E_EQ; }

static Expr *extract(Expr *a, unsigned off, unsigned w);
/* the parts of an expression are shared, so what was computed for one of them is kept */
Expr *mkExtract(Expr *a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  switch (a->k) {
  case E_AND: case E_OR: case E_XOR: case E_ITE: case E_ADD: case E_SUB: case E_MUL: {
    static std::unordered_map<u64, Expr *> memo;
    u64 key = (u64)(uintptr_t)a << 13 ^ (u64)off << 7 ^ w;
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    Expr *r = extract(a, off, w);
    memo[key] = r;
    return r; }
  default: return extract(a, off, w);
  }
}
static Expr *extract(Expr *a, unsigned off, unsigned w) {
  switch (a->k) {
  case E_CONST: return mkConst(a->c >> off, w);
  case E_EXTRACT: return mkExtract(a->kid[0], a->c + off, w);
  case E_BYTES:
    if (off % 8 == 0 && w % 8 == 0) return mkBytes(a->kid + off / 8, w / 8);
    if (off / 8 == (off + w - 1) / 8) return mkExtract(a->kid[off / 8], off % 8, w);
    break;
  case E_ZEXT: {
    unsigned iw = a->kid[0]->w;
    if (off >= iw) return mkConst(0, w);
    if (off + w <= iw) return mkExtract(a->kid[0], off, w);
    return mkZext(mkExtract(a->kid[0], off, iw - off), w); }
  case E_SEXT: {
    unsigned iw = a->kid[0]->w;
    if (off + w <= iw) return mkExtract(a->kid[0], off, w);
    if (off == 0) return mkSext(a->kid[0], w);
    break; }
  case E_AND: case E_OR: case E_XOR:
    if (isC(a->kid[1]) || w == 8) return mkBin(a->k, mkExtract(a->kid[0], off, w), mkExtract(a->kid[1], off, w));
    break;
  case E_ITE:
    if (isC(a->kid[1]) || isC(a->kid[2])) return mkIte(a->kid[0], mkExtract(a->kid[1], off, w), mkExtract(a->kid[2], off, w));
    break;
  case E_ADD: case E_SUB: case E_MUL:
    if (off == 0) return mkBin(a->k, mkExtract(a->kid[0], 0, w), mkExtract(a->kid[1], 0, w));
    break;
  default: break;
  }
  return intern(E_EXTRACT, w, off, &a, 1);
}
Expr *mkBytes(Expr **b, unsigned n) {
  if (n == 1) return b[0];
  // all const
  bool allc = true; for (unsigned i = 0; i < n; i++) if (!isC(b[i])) { allc = false; break; }
  if (allc) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= b[i]->c << (8 * i); return mkConst(v, n * 8); }
  // consecutive extracts of the same expression
  for (unsigned j = 0; j < 2 && j < n; j++) if (b[j]->k == E_EXTRACT && b[j]->c >= 8 * j) {
    Expr *src = b[j]->kid[0]; u64 o = b[j]->c - 8 * j; bool ok = o + 8 * n <= src->w;
    for (unsigned i = 0; ok && i < n; i++) ok = (b[i]->k == E_EXTRACT && b[i]->kid[0] == src && b[i]->c == o + 8 * i) || mkExtract(src, o + 8 * i, 8) == b[i];
    if (ok) return mkExtract(src, o, 8 * n);
    break;
  }
  if (b[0]->k == E_ZEXT) { bool z = true; for (unsigned i = 1; i < n; i++) if (!(isC(b[i]) && b[i]->c == 0)) z = false; if (z) return mkZext(b[0]->kid[0], n * 8); }
  return intern(E_BYTES, n * 8, 0, b, n);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->k == E_ZEXT) return mkZext(a->kid[0], w);
  if (w % 8 == 0 && (a->k == E_BYTES || a->w == 8)) {
    Expr *b[8]; unsigned n = w / 8, m = a->w / 8;
    for (unsigned i = 0; i < n; i++) b[i] = i < m ? (a->k == E_BYTES ? a->kid[i] : a) : mkConst(0, 8);
    return mkBytes(b, n);
  }
  return intern(E_ZEXT, w, 0, &a, 1);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u64)sx(a->c, a->w), w);
  if (a->k == E_SEXT) return mkSext(a->kid[0], w);
  if (a->k == E_ZEXT) return mkZext(a->kid[0], w);
  if (a->k == E_BYTES && isC(a->kid[a->n - 1]) && a->kid[a->n - 1]->c < 0x80) return mkZext(a, w);
  return intern(E_SEXT, w, 0, &a, 1);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
  }
  if (c->k == E_XOR && isC(c->kid[1])) return mkIte(c->kid[0], b, a);
  if (isC(a) && isC(b) && b->c == 0 && a->c == 1) return mkZext(c, a->w);
  if (isC(a) && isC(b) && a->c == 0 && b->c == 1) return mkZext(mkNot(c), a->w);
  if (isC(a) && isC(b) && ((a->c - b->c) & maskw(a->w)) == 1) return mkBin(E_ADD, mkZext(c, a->w), b);
  Expr *k[3] = {c, a, b}; return intern(E_ITE, a->w, 0, k, 3);
}
// view as byte vector; returns false when it is not one
static bool toB(Expr *e, Expr **o) {
  if (e->w % 8 || e->w < 16) return false;
  unsigned n = e->w / 8;
  if (e->k == E_BYTES) { for (unsigned i = 0; i < n; i++) o[i] = e->kid[i]; return true; }
  if (isC(e)) { for (unsigned i = 0; i < n; i++) o[i] = mkConst(e->c >> (8 * i), 8); return true; }
  return false;
}
static bool byteMask(u64 c, unsigned w) { for (unsigned i = 0; i < w; i += 8) { u8 b = c >> i; if (b != 0 && b != 0xff) return false; } return true; }
static bool isZeroC(Expr *e) { return isC(e) && e->c == 0; }

Expr *mkBin(EK k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->c, b->c, w), isCmp(k) ? 1 : w);
  if (commut(k) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  Expr *ba[8], *bb[8], *r[8];
  if ((k == E_AND || k == E_OR || k == E_XOR) && a->k == E_ZEXT) {
    unsigned iw = a->kid[0]->w;
    if (b->k == E_ZEXT && b->kid[0]->w == iw) return mkZext(mkBin(k, a->kid[0], b->kid[0]), w);
    if (isC(b) && k == E_AND) return mkZext(mkBin(k, a->kid[0], mkConst(b->c, iw)), w);
    if (isC(b) && b->c <= maskw(iw)) return mkZext(mkBin(k, a->kid[0], mkConst(b->c, iw)), w);
  }
  switch (k) {
  case E_ADD: { // sums are kept in one normal form: terms by id, the constant last
    if (isC(b) && !b->c) return a;
    if (a->k != E_ADD && b->k != E_ADD) break;
    std::vector<Expr *> ts; u64 c = 0;
    for (Expr *x : {a, b}) { while (x->k == E_ADD) { if (isC(x->kid[1])) c += x->kid[1]->c; else ts.push_back(x->kid[1]); x = x->kid[0]; } if (isC(x)) c += x->c; else ts.push_back(x); }
    std::stable_sort(ts.begin(), ts.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
    Expr *r = ts[0]; for (size_t i = 1; i < ts.size(); i++) { Expr *kk[2] = {r, ts[i]}; r = intern(E_ADD, w, 0, kk, 2); }
    c &= maskw(w); if (c) { Expr *kk[2] = {r, mkConst(c, w)}; r = intern(E_ADD, w, 0, kk, 2); }
    return r; }
  case E_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(E_ADD, a, mkConst(0 - b->c, w));
    break;
  case E_MUL: if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) return mkBin(E_SHL, a, mkConst(__builtin_ctzll(b->c), w)); } break;
  case E_UDIV: if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(E_LSHR, a, mkConst(__builtin_ctzll(b->c), w)); break;
  case E_UREM: if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(E_AND, a, mkConst(b->c - 1, w)); break;
  case E_SDIV: if (isC(b) && b->c == 1) return a; break;
  case E_AND:
    if (a == b) return a;
    if (isC(b) && b->c == 1 && w > 1 && w % 8 == 0 && a->w == 8) return mkZext(mkExtract(a, 0, 1), w);
    if (isC(b)) { if (b->c == 0) return b; if (b->c == maskw(w)) return a;
      if (a->k == E_AND && isC(a->kid[1])) return mkBin(E_AND, a->kid[0], mkConst(a->kid[1]->c & b->c, w)); }
    if (toB(a, ba) && toB(b, bb) && (isC(b) || 1)) { unsigned n = w / 8; bool ok = true;
      for (unsigned i = 0; i < n; i++) if (!(isC(ba[i]) || isC(bb[i]) || ba[i] == bb[i])) ok = false;
      if (ok) { for (unsigned i = 0; i < n; i++) r[i] = mkBin(E_AND, ba[i], bb[i]); return mkBytes(r, n); } }
    if (w > 8 && isC(b) && byteMask(b->c, w)) { unsigned n = w / 8; for (unsigned i = 0; i < n; i++) r[i] = ((b->c >> (8 * i)) & 0xff) ? mkExtract(a, 8 * i, 8) : mkConst(0, 8); return mkBytes(r, n); }
    if (w == 1) { if (a->k == E_XOR && isC(a->kid[1]) && a->kid[0] == b) return mkConst(0, 1); if (b->k == E_XOR && isC(b->kid[1]) && b->kid[0] == a) return mkConst(0, 1); }
    break;
  case E_OR: case E_XOR:
    if (a == b) return k == E_OR ? a : mkConst(0, w);
    if (isC(b)) { if (b->c == 0) return a; if (k == E_OR && b->c == maskw(w)) return b; }
    if (k == E_XOR && isC(b) && a->k == E_XOR && isC(a->kid[1])) return mkBin(E_XOR, a->kid[0], mkConst(a->kid[1]->c ^ b->c, w));
    if (toB(a, ba) && toB(b, bb)) { unsigned n = w / 8; bool ok = true;
      for (unsigned i = 0; i < n; i++) if (!(isZeroC(ba[i]) || isZeroC(bb[i]) || (isC(ba[i]) && isC(bb[i])))) ok = false;
      if (ok) { for (unsigned i = 0; i < n; i++) r[i] = mkBin(k, ba[i], bb[i]); return mkBytes(r, n); } }
    if (k == E_OR && w == 1) { if (a->k == E_XOR && isC(a->kid[1]) && a->kid[0] == b) return mkConst(1, 1); if (b->k == E_XOR && isC(b->kid[1]) && b->kid[0] == a) return mkConst(1, 1); }
    break;
  case E_SHL: case E_LSHR: case E_ASHR:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (b->c >= w) { if (k != E_ASHR) return mkConst(0, w); }
      else if (b->c % 8 == 0 && w % 8 == 0 && k != E_ASHR && w > 8) {
        unsigned n = w / 8, s = b->c / 8;
        for (unsigned i = 0; i < n; i++) {
          int src = k == E_SHL ? (int)i - (int)s : (int)(i + s);
          r[i] = src < 0 || src >= (int)n ? mkConst(0, 8) : mkExtract(a, 8 * src, 8);
        }
        return mkBytes(r, n);
      } else if (k == E_ASHR && a->k == E_BYTES && isC(a->kid[a->n - 1]) && a->kid[a->n - 1]->c < 0x80) return mkBin(E_LSHR, a, b);
    } else if (isZeroC(a)) return a;
    break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (a->k == E_ADD || b->k == E_ADD) { // cancel common terms of sums
      std::vector<Expr *> x, y; u64 cx = 0, cy = 0; auto terms = [](Expr *e, std::vector<Expr *> &o, u64 &c) { while (e->k == E_ADD) { if (isC(e->kid[1])) c += e->kid[1]->c; else o.push_back(e->kid[1]); e = e->kid[0]; } if (isC(e)) c += e->c; else o.push_back(e); };
      terms(a, x, cx); terms(b, y, cy); size_t n0 = x.size();
      for (size_t i = 0; i < x.size();) { auto it = std::find(y.begin(), y.end(), x[i]); if (it != y.end()) { y.erase(it); x.erase(x.begin() + i); } else i++; }
      if (x.size() != n0) { auto mk = [&](std::vector<Expr *> &t) { Expr *r = mkConst(0, w); for (Expr *e : t) r = mkBin(E_ADD, r, e); return r; };
        return mkEq(mkBin(E_ADD, mk(x), mkConst(cx - cy, w)), mk(y)); }
    }
    if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
    if (toB(a, ba) && toB(b, bb)) { // split when at least one side has constants
      unsigned n = w / 8; Expr *acc = mkConst(1, 1); int ncst = 0;
      for (unsigned i = 0; i < n; i++) if (isC(ba[i]) || isC(bb[i]) || ba[i] == bb[i]) ncst++;
      if (ncst) { for (unsigned i = 0; i < n; i++) { Expr *q = mkEq(ba[i], bb[i]); if (isZeroC(q)) return q; } for (unsigned i = 0; i < n; i++) acc = mkBin(E_AND, acc, mkEq(ba[i], bb[i])); return acc; }
    }
    if (isC(b)) {
      if (a->k == E_SREM && b->c == 0 && isC(a->kid[1]) && a->kid[1]->c && (a->kid[1]->c & (a->kid[1]->c - 1)) == 0 && a->kid[1]->c >> (w - 1) == 0) return mkEq(mkBin(E_AND, a->kid[0], mkConst(a->kid[1]->c - 1, w)), b);
      if (a->k == E_ADD && isC(a->kid[1])) return mkEq(a->kid[0], mkConst(b->c - a->kid[1]->c, w));
      if (a->k == E_ZEXT) { unsigned iw = a->kid[0]->w; if (b->c & ~maskw(iw)) return mkConst(0, 1); return mkEq(a->kid[0], mkConst(b->c, iw)); }
      if (a->k == E_SEXT) { unsigned iw = a->kid[0]->w; if ((u64)sx(b->c & maskw(iw), iw) % 1 != 0 || ((u64)sx(b->c & maskw(iw), iw) & maskw(w)) != b->c) return mkConst(0, 1); return mkEq(a->kid[0], mkConst(b->c, iw)); }
      if (a->k == E_XOR && isC(a->kid[1])) return mkEq(a->kid[0], mkConst(a->kid[1]->c ^ b->c, w));
      if (a->k == E_ITE && isC(a->kid[1]) && isC(a->kid[2])) return mkIte(a->kid[0], mkConst(a->kid[1]->c == b->c, 1), mkConst(a->kid[2]->c == b->c, 1));
    }
    break;
  case E_ULT: if (a == b) return mkConst(0, 1); if (isZeroC(b)) return b->w == 1 ? mkConst(0, 1) : mkConst(0, 1);
    if (isC(a) && a->c == maskw(w)) return mkConst(0, 1);
    if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, w));
    goto cmpz;
  case E_ULE: if (a == b) return mkConst(1, 1); if (isZeroC(a)) return mkConst(1, 1); if (isC(b) && b->c == maskw(w)) return mkConst(1, 1);
    goto cmpz;
  case E_SLT: if (a == b) return mkConst(0, 1); goto cmps;
  case E_SLE: if (a == b) return mkConst(1, 1); goto cmps;
  cmps: { // both have known-zero sign bit -> unsigned
      auto nonneg = [](Expr *e) { return isC(e) ? !(e->c >> (e->w - 1)) : e->k == E_ZEXT || (e->k == E_BYTES && isC(e->kid[e->n - 1]) && e->kid[e->n - 1]->c < 0x80); };
      if (nonneg(a) && nonneg(b)) return mkBin(k == E_SLT ? E_ULT : E_ULE, a, b);
      if (w > 1) { auto neg = [](Expr *e) { return isC(e) && (e->c >> (e->w - 1)); };
        if (nonneg(a) && neg(b)) return mkConst(0, 1); if (neg(a) && nonneg(b)) return mkConst(1, 1); }
      if ((a->k == E_SEXT || isC(a)) && (b->k == E_SEXT || isC(b))) {
        unsigned iw = a->k == E_SEXT ? a->kid[0]->w : b->kid[0]->w;
        auto fit = [&](Expr *e) -> Expr * { if (e->k == E_SEXT) return e->kid[0]->w == iw ? e->kid[0] : nullptr; i64 v = sx(e->c, e->w); return sx(v & maskw(iw), iw) == v ? mkConst(v, iw) : nullptr; };
        Expr *x = fit(a), *y = fit(b); if (x && y) return mkBin(k, x, y);
      }
      break; }
  cmpz: { // strip common zero upper bytes
      if (w >= 16 && isC(b) && a->k == E_BYTES) { if (k == E_ULT && (b->c & 0xff) == 0) return mkBin(E_ULT, mkBytes(a->kid + 1, w / 8 - 1), mkConst(b->c >> 8, w - 8)); if (k == E_ULE && (b->c & 0xff) == 0xff) return mkBin(E_ULE, mkBytes(a->kid + 1, w / 8 - 1), mkConst(b->c >> 8, w - 8)); }
      if (w >= 16 && isC(a) && b->k == E_BYTES) { if (k == E_ULT && (a->c & 0xff) == 0xff) return mkBin(E_ULT, mkConst(a->c >> 8, w - 8), mkBytes(b->kid + 1, w / 8 - 1)); if (k == E_ULE && (a->c & 0xff) == 0) return mkBin(E_ULE, mkConst(a->c >> 8, w - 8), mkBytes(b->kid + 1, w / 8 - 1)); }
      if (toB(a, ba) && toB(b, bb)) { unsigned n = w / 8, m = n; while (m > 1 && isC(ba[m - 1]) && isC(bb[m - 1])) { if (ba[m-1]->c != bb[m-1]->c) return mkConst(ba[m-1]->c < bb[m-1]->c, 1); m--; }
        if (m < n) return mkBin(k, mkBytes(ba, m), mkBytes(bb, m)); }
      if (a->k == E_ZEXT || b->k == E_ZEXT) { unsigned iw = a->k == E_ZEXT ? a->kid[0]->w : b->kid[0]->w;
        auto fit = [&](Expr *e) -> Expr * { if (e->k == E_ZEXT) return e->kid[0]->w == iw ? e->kid[0] : nullptr; if (isC(e)) return e->c <= maskw(iw) ? mkConst(e->c, iw) : nullptr; return nullptr; };
        Expr *x = fit(a), *y = fit(b); if (x && y) return mkBin(k, x, y); }
      break; }
  default: break;
  }
  Expr *kk[2] = {a, b};
  return intern(k, isCmp(k) ? 1 : w, 0, kk, 2);
}

static u32 curStamp = 0;
static u64 ev(Expr *e, const Model &m) {
  if (e->k == E_CONST) return e->c;
  if (e->k == E_VAR) return m.get(e->c);
  if (e->stamp == curStamp) return e->val;
  u64 r = 0;
  switch (e->k) {
  case E_ITE: r = ev(e->kid[0], m) ? ev(e->kid[1], m) : ev(e->kid[2], m); break;
  case E_ZEXT: r = ev(e->kid[0], m); break;
  case E_SEXT: r = (u64)sx(ev(e->kid[0], m), e->kid[0]->w) & maskw(e->w); break;
  case E_EXTRACT: r = (ev(e->kid[0], m) >> e->c) & maskw(e->w); break;
  case E_BYTES: for (unsigned i = 0; i < e->n; i++) r |= ev(e->kid[i], m) << (8 * i); break;
  case E_AGG: abort();
  default: r = foldBin(e->k, ev(e->kid[0], m), ev(e->kid[1], m), e->kid[0]->w);
  }
  e->stamp = curStamp; e->val = r; return r;
}
u64 evalExpr(Expr *e, const Model &m) { curStamp++; return ev(e, m); }
