/* Reference model shared by the harnesses: what an IFF hierarchy denotes,
 * written down independently of the library.  Symbolic generators fork over
 * shapes only; ids, types, sizes and data stay symbolic. */
#ifndef VF_REF_H
#define VF_REF_H
#include "env.h"
#include "iff.h"
#include "chunk.h"
#include "chunkregistry.h"
#include "defaultregistry.h"
#include "group.h"
#include "form.h"
#include "cat.h"
#include "list.h"
#include "prop.h"
#include "rawchunk.h"
#include "field.h"
#include "io.h"
#include "id.h"
#include "error.h"
#include "util.h"
#ifndef P
#define P 0
#endif
#define CHK(n, c, m) do { if (P == (n)) vf_assert((c), m); } while (0)
#define MKID(a, b, c, d) ((u32)(a) << 24 | (u32)(b) << 16 | (u32)(c) << 8 | (u32)(d))
#define R_FORM MKID('F','O','R','M')
#define R_CAT MKID('C','A','T',' ')
#define R_LIST MKID('L','I','S','T')
#define R_PROP MKID('P','R','O','P')
#define R_JJJJ MKID('J','J','J','J')
#define R_TEXT MKID('T','E','X','T')
enum { RAW = 0, FORM, CAT, LIST, PROP, EXT };
typedef struct rn {
  int kind; u32 id, size, type; int np, nk; struct rn **prop, **kid; struct rn *parent;
  u8 *data; u32 dlen; IFF_Chunk *lib; int mark, after; /* after: members in front of a shared-property group in the file */
} rn;

static int r_isgroup(u32 id) { return (id == R_FORM) | (id == R_CAT) | (id == R_LIST) | (id == R_PROP); }
static int r_kind(u32 id) { return id == R_FORM ? FORM : id == R_CAT ? CAT : id == R_LIST ? LIST : id == R_PROP ? PROP : RAW; }
static u32 r_kindid(int k) { return k == FORM ? R_FORM : k == CAT ? R_CAT : k == LIST ? R_LIST : R_PROP; }
static int r_validid(u32 id) {
  u32 a = id >> 24, b = (id >> 16) & 255, c = (id >> 8) & 255, d = id & 255;
  return (a >= 0x21) & (a <= 0x7e) & (b >= 0x20) & (b <= 0x7e) & (c >= 0x20) & (c <= 0x7e) & (d >= 0x20) & (d <= 0x7e);
}
static int r_typechar(u32 c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | (c == ' '); }
static int r_validtype(u32 id) {
  u32 a = id >> 24, b = (id >> 16) & 255, c = (id >> 8) & 255, d = id & 255, h = id & 0xffffff00u;
  int ok = (a != ' ') & r_typechar(a) & r_typechar(b) & r_typechar(c) & r_typechar(d);
  int rev = (d >= '1') & (d <= '9') & ((h == (R_FORM & 0xffffff00u)) | (h == (R_CAT & 0xffffff00u)) | (h == (R_LIST & 0xffffff00u)));
  return ok & !r_isgroup(id) & (id != R_JJJJ) & !rev;
}
/* padded extent of a member: header, body, padding */
static u64 r_ext(const rn *n) { return 8 + (u64)n->size + (n->size & 1); }
static u64 r_body(const rn *n) {
  u64 t; int i; if (n->kind == RAW || n->kind == EXT) return n->dlen;
  for (t = 4, i = 0; i < n->np; i++) t += r_ext(n->prop[i]);
  for (i = 0; i < n->nk; i++) t += r_ext(n->kid[i]);
  return t;
}
/* conformance, as a single (branch-free in the symbolic data) value */
static int r_check(const rn *n) {
  int ok = r_validid(n->id) & ((n->size >> 31) == 0), i;
  if (n->kind == RAW) return ok;
  if (n->kind == FORM || n->kind == PROP) ok &= r_validtype(n->type); else ok &= r_validid(n->type);
  { u64 t = r_body(n); ok &= (n->size == (u32)t) & (t <= 0x7fffffffu); }
  for (i = 0; i < n->np; i++) ok &= r_check(n->prop[i]);
  for (i = 0; i < n->nk; i++) {
    const rn *k = n->kid[i];
    if (n->kind == FORM) ok &= k->kind != PROP;
    else if (n->kind == PROP) ok &= k->kind == RAW;
    else { if (k->kind != FORM && k->kind != CAT && k->kind != LIST) ok = 0; else ok &= (n->type == R_JJJJ) | (k->type == n->type); }
    ok &= r_check(k);
  }
  return ok;
}
static int r_checkroot(const rn *n) { return (n->kind == FORM || n->kind == CAT || n->kind == LIST) ? r_check(n) : 0; }
static int r_equal(const rn *a, const rn *b) {
  int ok = (a->id == b->id) & (a->size == b->size), i; u32 k;
  if (a->kind != b->kind) return 0;
  if (a->kind == RAW) { if (a->dlen != b->dlen) return 0; for (k = 0; k < a->dlen; k++) ok &= a->data[k] == b->data[k]; return ok; }
  if (a->np != b->np || a->nk != b->nk) return 0;
  ok &= a->type == b->type;
  for (i = 0; i < a->np; i++) ok &= r_equal(a->prop[i], b->prop[i]);
  for (i = 0; i < a->nk; i++) ok &= r_equal(a->kid[i], b->kid[i]);
  return ok;
}
/* the library's hierarchy is exactly the one the model denotes */
static int r_match(const rn *n, const IFF_Chunk *c, const void *parent) {
  int ok, i; u32 k;
  if (!c) return 0;
  ok = (c->chunkId == n->id) & ((u32)c->chunkSize == n->size) & ((const void *)c->parent == parent);
  if (n->kind == RAW) { const IFF_RawChunk *r = (const IFF_RawChunk *)c; for (k = 0; k < n->dlen; k++) ok &= r->chunkData[k] == n->data[k]; return ok; }
  if (n->kind == EXT) return ok;
  { const IFF_Group *g = (const IFF_Group *)c; ok &= g->groupType == n->type; if (g->chunkLength != (unsigned)n->nk) return 0;
    for (i = 0; i < n->nk; i++) ok &= r_match(n->kid[i], g->chunk[i], c); }
  if (n->kind == LIST) { const IFF_List *l = (const IFF_List *)c; if (l->propLength != (unsigned)n->np) return 0;
    for (i = 0; i < n->np; i++) ok &= r_match(n->prop[i], (const IFF_Chunk *)l->prop[i], c); }
  return ok;
}
static u8 *r_put32(u8 *p, u32 v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; return p + 4; }
static u32 r_get32(const u8 *p) { return (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3]; }
static int r_padsym; /* padding bytes arbitrary instead of zero */
/* canonical encoding; needs concrete body sizes; a declared size beyond the body is zero-filled */
static u8 *r_encode(const rn *n, u8 *p, u32 fillmax) {
  u8 *b; int i; u32 k;
  p = r_put32(p, n->id); p = r_put32(p, n->size); b = p;
  (void)k; if (n->kind == RAW || n->kind == EXT) { if (n->dlen) memcpy(p, n->data, n->dlen); p += n->dlen; }
  else {
    p = r_put32(p, n->type);
    { int j = 0; for (i = 0; i <= n->nk; i++) { while (j < n->np && n->prop[j]->after <= i) p = r_encode(n->prop[j++], p, fillmax); if (i < n->nk) p = r_encode(n->kid[i], p, fillmax); } }
  }
  if (fillmax) while ((u32)(p - b) < n->size && (u32)(p - b) < fillmax) *p++ = 0;
  if (n->size & 1) *p++ = r_padsym ? vin_u8() : 0;
  return p;
}
static rn *r_new(int kind) { rn *n = h_alloc(sizeof *n); memset(n, 0, sizeof *n); n->kind = kind; if (kind != RAW && kind != EXT) n->id = r_kindid(kind); return n; }
static void r_addkid(rn *g, rn *k) { rn **a = h_alloc((g->nk + 1) * sizeof *a); int i; for (i = 0; i < g->nk; i++) a[i] = g->kid[i]; a[g->nk++] = k; g->kid = a; k->parent = g; }
static void r_addprop(rn *g, rn *k) { rn **a = h_alloc((g->np + 1) * sizeof *a); int i; for (i = 0; i < g->np; i++) a[i] = g->prop[i]; a[g->np++] = k; g->prop = a; k->parent = g; }
static u64 r_total(const rn *n) { return r_ext(n); }
static int r_count(const rn *n) { int c = 1, i; for (i = 0; i < n->np; i++) c += r_count(n->prop[i]); for (i = 0; i < n->nk; i++) c += r_count(n->kid[i]); return c; }
static void r_fixsizes(rn *n) { int i; for (i = 0; i < n->np; i++) r_fixsizes(n->prop[i]); for (i = 0; i < n->nk; i++) r_fixsizes(n->kid[i]); n->size = (u32)r_body(n); }

static void r_fixsizes_groups(rn *n) { int i; for (i = 0; i < n->np; i++) r_fixsizes_groups(n->prop[i]); for (i = 0; i < n->nk; i++) r_fixsizes_groups(n->kid[i]); if (n->kind == RAW) return; { u64 t = 4; for (i = 0; i < n->np; i++) t += r_ext(n->prop[i]); for (i = 0; i < n->nk; i++) t += r_ext(n->kid[i]); n->size = (u32)t; } }

/* ---- reference reader over a byte buffer.  Result: 1 parsed (node in *out),
 * 0 must be refused, 2 the bytes are not a properly nested encoding (no claim) */
static int r_parse(const u8 *b, size_t len, size_t *pos, rn **out, int *conf) {
  size_t p = *pos, end; rn *n; u32 id, size; int k;
  if (len - p < 8) return 0;
  id = r_get32(b + p); size = r_get32(b + p + 4); p += 8;
  if (size >> 31) return 0;
  k = r_kind(id); n = r_new(k); n->id = id; n->size = size; *out = n;
  if (k == RAW) {
    if (size > len - p) return 0;
    size = (u32)vf_concretize(size);
    n->size = size; n->data = (u8 *)b + p; n->dlen = size; p += size;
  } else {
    if (size < 4) { return 2; }
    if (len - p < 4) return 0;
    n->type = r_get32(b + p); p += 4;
    /* members are whole chunks inside the declared size */
    end = 4;
    while (end < size) {
      rn *c; size_t q = p; int r;
      r = r_parse(b, len, &q, &c, conf);
      if (r != 1) return r;
      if (n->kind == LIST && c->kind == PROP) { if (n->nk) *conf = 0; r_addprop(n, c); } else r_addkid(n, c);
      end += q - p; p = q;
      if (end > size) return 2;
    }
    n->size = size = (u32)vf_concretize(size);
  }
  if (size & 1) { if (p >= len) return 0; if (b[p]) *conf &= ~2; p++; }
  *pos = p; return 1;
}

/* ---- symbolic trees */
static int g_nodes = 4, g_depth = 3, g_kids = 3, g_rawmax = 2, g_anycomp = 0, g_lenchoice = 1;
static int g_late;         /* shared properties may follow other members in the file */
static int g_conf = 0;     /* only conforming hierarchies, by construction */
static int g_fulltype = 0; /* their types range over every valid type instead of four capitals */
/* a valid type; characters are constrained one by one to keep queries small */
static u32 g_validtype(void) {
  u32 c[4], t; int i; for (i = 0; i < 4; i++) { c[i] = vin_u8(); if (g_fulltype) vf_assume(r_typechar(c[i]) & ((i > 0) | (c[i] != ' '))); else { vf_assume(c[i] >= 'A'); vf_assume(c[i] <= (i ? 'Z' : 'B')); } }
  t = MKID(c[0], c[1], c[2], c[3]); if (g_fulltype) vf_assume(r_validtype(t)); return t;
}
static int g_fids; /* three symbolic characters per id */
static u32 f_rawid(void);
static int g_mixed = 0, g_wild = -1, g_index; /* mixed: ordinary ids and types except for the wild node, where they are arbitrary */
static u32 g_rawid(void) {
  if (g_fids) return f_rawid();
  if (g_mixed && g_index == g_wild) { u32 id = vf_u32(); vf_assume(!r_isgroup(id)); return id; }
  if (g_conf || g_mixed) { u32 c[4], id; int i; for (i = 0; i < 4; i++) { c[i] = vin_u8(); vf_assume(c[i] >= (i ? 0x20 : 0x21)); vf_assume(c[i] <= 0x7e); } id = MKID(c[0], c[1], c[2], c[3]); vf_assume(!r_isgroup(id)); return id; } else { u32 id = vf_u32(); vf_assume(!r_isgroup(id)); return id; } }
static rn *g_raw(void) {
  rn *n = r_new(RAW); u32 i; n->id = g_rawid(); n->dlen = g_lenchoice ? (u32)vf_choose(g_rawmax + 1) : (u32)g_rawmax;
  n->data = h_alloc(n->dlen + 1); for (i = 0; i < n->dlen; i++) n->data[i] = vin_u8(); n->size = n->dlen; return n;
}
/* g_anycomp: members of any kind anywhere; otherwise only compositions the rules allow */
/* the type of a group inside a group of the given kind and type (kind RAW: anywhere) */
static u32 g_type(int kind, int pkind, u32 ptype) {
  if (g_mixed) { (void)pkind; (void)ptype; if (g_index == g_wild) return vf_u32(); return (kind == CAT || kind == LIST) && vf_choose(2) ? R_JJJJ : g_validtype(); }
  if (!g_conf) return vf_u32();
  if ((pkind == CAT || pkind == LIST) && ptype != R_JJJJ) return ptype;
  if (kind == CAT || kind == LIST) return vf_choose(2) ? R_JJJJ : g_validtype();
  return g_validtype();
}
static int g_pkind = RAW; static u32 g_ptype;
static rn *g_tree(int kind, int depth) {
  rn *n; int m, i, pk = g_pkind; u32 pt = g_ptype;
  g_nodes--; g_index++;
  if (kind == RAW) return g_raw();
  n = r_new(kind); n->type = g_type(kind, pk, pt);
  if (kind == LIST && g_nodes > 0 && depth < g_depth) {
    m = vf_choose((g_nodes < g_kids ? g_nodes : g_kids) + 1);
    for (i = 0; i < m && g_nodes > 0; i++) { g_pkind = RAW; r_addprop(n, g_tree(PROP, depth + 1)); }
  }
  if (g_nodes > 0 && depth < g_depth) {
    m = vf_choose((g_nodes < g_kids ? g_nodes : g_kids) + 1);
    for (i = 0; i < m && g_nodes > 0; i++) {
      int k;
      if (g_anycomp) k = vf_choose(kind == LIST && g_anycomp != 2 ? 4 : 5);
      else if (kind == FORM) k = vf_choose(4);
      else if (kind == PROP) k = RAW;
      else k = 1 + vf_choose(3);
      g_pkind = kind; g_ptype = n->type; if (g_conf && kind != FORM && kind != PROP && n->type == R_JJJJ) g_pkind = RAW;
      r_addkid(n, g_tree(k, depth + 1));
    }
  }
  g_pkind = pk; g_ptype = pt; n->size = (u32)r_body(n);
  if (g_late) for (i = 0, m = 0; i < n->np; i++) { m += vf_choose(n->nk - m + 1); n->prop[i]->after = m; if (m) vf_reach("late-properties"); }
  return n;
}
/* the library's own hierarchy for a model tree, through its public interface */
static IFF_Chunk *g_make(rn *n) {
  int i;
  if (n->kind == RAW) {
    IFF_Chunk *c = IFF_createRawChunk(n->id, (IFF_Long)n->dlen);
    if (n->dlen) IFF_copyDataToRawChunkData((IFF_RawChunk *)c, n->data);
    return n->lib = c;
  }
  { IFF_Group *g = NULL;
    switch (n->kind) {
    case FORM: g = (IFF_Group *)IFF_createEmptyForm(n->type); break;
    case CAT: g = (IFF_Group *)IFF_createEmptyCATWithContentsType(n->type); break;
    case LIST: g = (IFF_Group *)IFF_createEmptyListWithContentsType(n->type); break;
    case PROP: g = (IFF_Group *)IFF_createEmptyProp(n->type); break;
    }
    n->lib = (IFF_Chunk *)g;
    for (i = 0; i < n->np; i++) IFF_addPropToList((IFF_List *)g, (IFF_Prop *)g_make(n->prop[i]));
    for (i = 0; i < n->nk; i++) {
      IFF_Chunk *c = g_make(n->kid[i]);
      switch (n->kind) {
      case FORM: IFF_addToForm((IFF_Form *)g, c); break;
      case CAT: IFF_addToCAT((IFF_CAT *)g, c); break;
      case LIST: IFF_addToList((IFF_List *)g, c); break;
      case PROP: IFF_addToProp((IFF_Prop *)g, c); break;
      }
    }
    return n->lib; }
}
/* declared sizes as the model has them, right or wrong */
static void g_sizes(rn *n) { int i; for (i = 0; i < n->np; i++) g_sizes(n->prop[i]); for (i = 0; i < n->nk; i++) g_sizes(n->kid[i]); n->lib->chunkSize = (IFF_Long)n->size; }
static IFF_Chunk *g_build(rn *n) { g_make(n); g_sizes(n); return n->lib; }
/* ---- fixed large shapes with symbolic ids, types and data */
static u32 f_rawid(void) { /* three symbolic characters; the first one spreads over the gaps between the group ids */
  static int k; static const char first[] = "BDGMZa!~"; u32 c[3]; int i;
  for (i = 0; i < 3; i++) { c[i] = vin_u8(); vf_assume(c[i] >= 0x20); vf_assume(c[i] <= 0x7e); }
  return MKID(first[k++ % 8], c[0], c[1], c[2]);
}
static int f_fixdata, f_nraw; /* only a few data bytes are symbolic */
static rn *f_raw(u32 len) {
  rn *n = r_new(RAW); u32 i; if (f_fixdata && len > 2000) len = 2000 + (len & 1); n->id = f_rawid(); n->size = n->dlen = len; n->data = h_alloc(len + 1); 
  if (f_fixdata) { for (i = 0; i < len; i++) n->data[i] = (u8)(i * 37 + len * 5 + f_nraw); if (len && f_nraw++ % 8 == 3) n->data[len - 1] = vin_u8(); return n; }
  if (len <= 64) { for (i = 0; i < len; i++) n->data[i] = vin_u8(); return n; }
  memset(n->data, 0x5a, len);
  for (i = 0; i < len && i < 70; i++) n->data[i] = (u8)(i * 37 + 11);
  { u32 at[] = {0, 1, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, len - 1}; for (i = 0; i < sizeof at / sizeof *at; i++) if (at[i] < len) n->data[at[i]] = vin_u8(); }
  return n;
}
static u32 f_type(void) { int g = g_conf; u32 t; g_conf = 1; t = g_validtype(); g_conf = g; return t; }
static rn *f_grp(int kind, u32 type) { rn *n = r_new(kind); n->type = type; return n; }
#ifndef WIDE
#define WIDE 20
#endif
#ifndef DEEP
#define DEEP 13
#endif
#ifndef VDEEP
#define VDEEP 139
#endif
#ifndef VWIDE
#define VWIDE 270
#endif
static rn *f_shape(int which) {
  rn *n, *g; int i, j; u32 t;
  switch (which) {
  case 0: n = f_grp(FORM, f_type()); for (i = 0; i < WIDE; i++) r_addkid(n, f_raw((u32)(i % 4))); break;
  case 1: n = f_grp(CAT, f_type()); for (i = 0; i < WIDE; i++) { g = f_grp(FORM, n->type); r_addkid(g, f_raw((u32)(i % 3))); r_addkid(n, g); } break;
  case 2: n = f_grp(LIST, f_type()); for (i = 0; i < WIDE; i++) { g = f_grp(PROP, f_type()); for (j = 0; j < i % 3; j++) r_addkid(g, f_raw((u32)(j + i) % 4)); r_addprop(n, g); }
    for (i = 0; i < WIDE; i++) { g = f_grp(1 + i % 3, n->type); if (i % 3 == 0) r_addkid(g, f_raw((u32)(i % 5))); r_addkid(n, g); } break;
  case 3: /* deep */
    t = f_type(); n = f_grp(LIST, t); g = n;
    for (i = 0; i < DEEP; i++) { rn *k; int kind = i >= DEEP - 3 ? FORM : i % 2 ? LIST : CAT; k = f_grp(kind, g->kind == FORM ? f_type() : t);
      if (g->kind == LIST) { rn *p = f_grp(PROP, f_type()); r_addkid(p, f_raw(1)); r_addprop(g, p); }
      r_addkid(g, k); g = k; }
    r_addkid(g, f_raw(3)); break;
  case 4: n = f_grp(FORM, f_type()); r_addkid(n, f_raw(300)); r_addkid(n, f_raw(70001)); r_addkid(n, f_raw(1)); break;
  case 5: /* groups in forms, data after nested groups */
    n = f_grp(FORM, f_type()); for (i = 0; i < 3; i++) { g = f_grp(1 + i, f_type()); if (i == 0) r_addkid(g, f_raw(3)); else { rn *k = f_grp(FORM, g->type); r_addkid(k, f_raw((u32)i)); r_addkid(g, k); } r_addkid(n, g); r_addkid(n, f_raw((u32)i)); } break;
  case 6: n = f_grp(FORM, f_type()); r_addkid(n, f_raw(65537)); g = f_grp(LIST, f_type()); { rn *p = f_grp(PROP, f_type()); r_addkid(p, f_raw(257)); r_addkid(p, f_raw(2)); r_addprop(g, p); r_addkid(g, f_grp(CAT, g->type)); } r_addkid(n, g); break;
  case 7: /* many forms inside nested groups */
    t = f_type(); n = f_grp(CAT, R_JJJJ);
    for (i = 0; i < 3; i++) { rn *h = f_grp(i ? LIST : CAT, i == 1 ? R_JJJJ : t); for (j = 0; j < 5 + i; j++) { g = f_grp(FORM, i == 1 && j % 2 ? f_type() : t); if (j == 1) r_addkid(g, f_raw(1)); r_addkid(h, g); } if (i) { g = f_grp(i == 1 ? LIST : CAT, t); for (j = 0; j < 4; j++) r_addkid(g, f_grp(FORM, t)); r_addkid(h, g); } r_addkid(n, h); }
    break;
  case 9: /* very deep */
    t = f_type(); n = f_grp(LIST, t); g = n;
    for (i = 0; i < VDEEP; i++) { rn *k = f_grp(i % 5 == 4 ? LIST : i % 2 ? FORM : CAT, t); if (i % 50 == 10 && g->kind == FORM) r_addkid(g, f_raw(1)); r_addkid(g, k); g = k; }
    { rn *k = f_grp(FORM, t); r_addkid(k, f_raw(2)); r_addkid(g, k); } break;
  default: /* very wide */
    t = f_type(); n = f_grp(LIST, t); g = f_grp(FORM, t); for (i = 0; i < VWIDE; i++) { rn *k = f_grp(PROP, t); r_addprop(n, k); k = r_new(RAW); k->id = MKID('A', 'B', '0' + i % 10, '0' + i / 10 % 10); k->data = h_alloc(1); r_addkid(g, k); }
    r_addkid(n, g); for (i = 0; i < VWIDE; i++) r_addkid(n, f_grp(i % 7 ? FORM : CAT, t)); r_addkid(g, f_raw(3)); break;
  case 8: n = f_grp(CAT, R_JJJJ); for (i = 0; i < 6; i++) { g = f_grp(1 + i % 3, f_type()); if (i % 3 == 0) { r_addkid(g, f_raw((u32)i)); r_addkid(g, f_raw(1)); } r_addkid(n, g); } break;
  }
  r_fixsizes(n); return n;
}
#ifndef NSHAPES
#define NSHAPES 11
#endif
#ifdef MIDSHAPES
static rn *f_anyshape(void) { static const int s[] = {0, 1, 2, 3, 5, 7, 8}; return f_shape(s[vf_choose(7)]); }
#else
static rn *f_anyshape(void) { return f_shape(vf_choose(NSHAPES)); }
#endif
/* silence diagnostics (counted, formats checked) */
static int g_quiet; void h_after(void) { if (P == 28 && g_quiet) vf_assert(env_stderr_bytes == 0, "the library wrote to the standard error stream although a callback is installed"); }
static void quiet(void) { g_quiet = 1; IFF_errorCallback = &env_diag_callback; }
static u8 *sym_bytes(u32 n) { u8 *b = h_alloc(n ? n : 1); u32 i; for (i = 0; i < n; i++) b[i] = vin_u8(); return b; }
static rn *m_raw(u32 id, u32 len) { rn *n = r_new(RAW); n->id = id; n->size = n->dlen = len; n->data = sym_bytes(len); return n; }
static rn *m_grp(int kind, u32 type) { rn *n = r_new(kind); n->type = type; n->size = 4; return n; }
static void walk(IFF_Chunk *c) { /* look-ups in every form */
  unsigned i, n = 0; IFF_Group *g = (IFF_Group *)c; IFF_Chunk **r;
  if (!r_isgroup(c->chunkId)) return;
  if (c->chunkId == R_FORM) { IFF_getChunkFromForm((IFF_Form *)c, MKID('N','A','M','E')); r = IFF_getChunksFromForm((IFF_Form *)c, MKID('N','A','M','E'), &n); env_free(r); }
  if (c->chunkId == R_LIST) { IFF_List *l = (IFF_List *)c; IFF_getPropFromList(l, MKID('N','A','M','E')); for (i = 0; i < l->propLength; i++) walk((IFF_Chunk *)l->prop[i]); }
  for (i = 0; i < g->chunkLength; i++) walk(g->chunk[i]);
}
static void use(IFF_Chunk *c, size_t len) { /* everything one can do with a hierarchy */
  IFF_Bool ok; env_file *o = env_new_out(len + 64); unsigned int cnt = 0; IFF_Form **f; int live;
  live = vf_live_blocks();
  ok = IFF_check(c, NULL); vf_obs(ok);
  if (ok) vf_reach("read-conforming");
  vf_assert(IFF_compare(c, c, NULL), "a hierarchy is not equal to itself");
  vf_assert(vf_live_blocks() == live, "check or compare leaves memory allocated");
  f = IFF_searchForms(c, R_PROP, &cnt); vf_assert(cnt == 0 || f != NULL, "search result missing"); env_free(f);
  walk(c);
  #ifndef NOPRINT
  if (c->chunkSize >= 0 && (size_t)c->chunkSize <= len && len < 3000) IFF_print(c, 0, NULL);
#endif
  if ((size_t)c->chunkSize <= len) IFF_writeFd(EF(o), c, NULL);
  IFF_updateChunkSizes(c);
}
#endif
