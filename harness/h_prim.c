/* Primitive readers and writers, fields, ids and form types: C09 C10 C11 C12 */
#include "ref.h"
enum { UBYTE, UWORD, WORD, ULONG, LONG, ID };
static const u32 width[] = {1, 2, 2, 4, 4, 4};
static IFF_Bool rd(int k, FILE *f, void *v) {
  switch (k) { case UBYTE: return IFF_readUByte(f, v, R_TEXT, "a"); case UWORD: return IFF_readUWord(f, v, R_TEXT, "a"); case WORD: return IFF_readWord(f, v, R_TEXT, "a"); case ULONG: return IFF_readULong(f, v, R_TEXT, "a"); case LONG: return IFF_readLong(f, v, R_TEXT, "a"); default: return IFF_readId(f, v, R_TEXT, "a"); }
}
static IFF_Bool wr(int k, FILE *f, u32 v) {
  switch (k) { case UBYTE: return IFF_writeUByte(f, (IFF_UByte)v, R_TEXT, "a"); case UWORD: return IFF_writeUWord(f, (IFF_UWord)v, R_TEXT, "a"); case WORD: return IFF_writeWord(f, (IFF_Word)v, R_TEXT, "a"); case ULONG: return IFF_writeULong(f, v, R_TEXT, "a"); case LONG: return IFF_writeLong(f, (IFF_Long)v, R_TEXT, "a"); default: return IFF_writeId(f, v, R_TEXT, "a"); }
}
static IFF_FieldStatus rdf(int k, FILE *f, void *v, IFF_Chunk *c, IFF_Long *bp) {
  switch (k) { case UBYTE: return IFF_readUByteField(f, v, c, "a", bp); case UWORD: return IFF_readUWordField(f, v, c, "a", bp); case WORD: return IFF_readWordField(f, v, c, "a", bp); case ULONG: return IFF_readULongField(f, v, c, "a", bp); case LONG: return IFF_readLongField(f, v, c, "a", bp); default: return IFF_readIdField(f, v, c, "a", bp); }
}
static IFF_FieldStatus wrf(int k, FILE *f, u32 v, IFF_Chunk *c, IFF_Long *bp) {
  switch (k) { case UBYTE: return IFF_writeUByteField(f, (IFF_UByte)v, c, "a", bp); case UWORD: return IFF_writeUWordField(f, (IFF_UWord)v, c, "a", bp); case WORD: return IFF_writeWordField(f, (IFF_Word)v, c, "a", bp); case ULONG: return IFF_writeULongField(f, v, c, "a", bp); case LONG: return IFF_writeLongField(f, (IFF_Long)v, c, "a", bp); default: return IFF_writeIdField(f, v, c, "a", bp); }
}
/* the value a destination of kind k holds, as sign- or zero-extended 64 bits */
static long long val(int k, const void *v) {
  switch (k) { case UBYTE: return *(const IFF_UByte *)v; case UWORD: return *(const IFF_UWord *)v; case WORD: return *(const IFF_Word *)v; case ULONG: return *(const IFF_ULong *)v; case LONG: return *(const IFF_Long *)v; default: return *(const IFF_ID *)v; }
}
static long long denotes(int k, const u8 *b) {
  u32 n = width[k], i; u32 u = 0; for (i = 0; i < n; i++) u = u << 8 | b[i];
  if (k == WORD) return (long long)u - ((u >> 15) ? 0x10000 : 0);
  if (k == LONG) return (long long)u - ((u >> 31) ? 0x100000000LL : 0);
  return u;
}
static void dest_init(u8 *d) { int i; for (i = 0; i < 16; i++) d[i] = (u8)(0xC0 + i); }
static int dest_outside(const u8 *d, u32 n) { int ok = 1; u32 i; for (i = n; i < 16; i++) ok &= d[i] == (u8)(0xC0 + i); return ok; }
void harness(void) {
  int k, i; quiet();
#if defined(READ)
  { u8 *b = sym_bytes(8); env_file *f = env_new_in(b, 8); union { u8 d[16]; u64 a; } u; IFF_Bool r; u32 w; k = vf_choose(6); w = width[k]; dest_init(u.d);
    f->len = (size_t)vf_choose(9); if (vf_choose(2)) { f->read_fail_at = f->len; f->len = 8; }
    { size_t avail = f->len < f->read_fail_at ? f->len : f->read_fail_at; r = rd(k, EF(f), u.d);
      if (avail >= w) { vf_assert(r, "a complete value is refused"); vf_assert(f->pos == w, "reading a value consumes something else than its width"); vf_assert(val(k, u.d) == denotes(k, b), "the value read is not what the bytes denote"); vf_assert(dest_outside(u.d, w), "bytes outside the destination were changed"); vf_reach("read"); vf_obs((u64)val(k, u.d)); 
        vf_assert(env_diag_calls == 0, "reading a value is not silent"); }
      else { vf_assert(!r, "a short value is accepted"); vf_assert(f->pos <= avail, "more than what was available was consumed"); vf_assert(env_diag_calls > 0, "a failing read was not explained"); vf_reach("short"); } } }
#elif defined(WRITE)
  { u32 v = vf_u32(), w; env_file *o = env_new_out(16); IFF_Bool r; u8 e[4]; k = vf_choose(6); w = width[k];
    for (i = 0; i < (int)w; i++) e[i] = (u8)(v >> (8 * (w - 1 - (u32)i)));
    if (vf_choose(2)) { o->wlimit = (size_t)vf_choose((int)w); r = wr(k, EF(o), v); vf_assert(!r, "a short write is reported as complete"); vf_assert(env_diag_calls > 0, "a failing write was not explained"); vf_reach("short-write"); }
    else { r = wr(k, EF(o), v); vf_assert(r, "writing a value fails"); vf_assert(o->len == w, "writing a value emits something else than its width"); for (i = 0; i < (int)w; i++) vf_assert(o->data[i] == e[i], "the bytes written do not denote the value");
      /* round trip */
      { env_file *f = env_new_in(o->data, o->len); union { u8 d[16]; u64 a; } u; dest_init(u.d); vf_assert(rd(k, EF(f), u.d), "what was written cannot be read"); vf_assert(((u32)val(k, u.d) ^ v) << (32 - 8 * w) == 0, "a value changes on the way through a file"); }
      vf_assert(env_diag_calls == 0, "writing a value is not silent"); vf_reach("written"); vf_obs(v); } }
#elif defined(FREAD) || defined(FWRITE)
  { IFF_Chunk c; IFF_Long bp, bp0; u32 w; u8 *b = sym_bytes(8); env_file *f = env_new_in(b, 8), *o = env_new_out(16); union { u8 d[16]; u64 a; } u; IFF_FieldStatus s; int fits, fault, changed = 0; u32 v = vf_u32();
    k = vf_choose(6); w = width[k]; dest_init(u.d); c.parent = NULL; c.chunkId = vf_u32(); c.chunkSize = (IFF_Long)vf_u32(); bp = bp0 = (IFF_Long)vf_u32();
    vf_assume(c.chunkSize >= 0); vf_assume(bp >= 0); vf_assume(bp <= c.chunkSize);
    fault = vf_choose(2); if (fault) { int short_by = 1 + vf_choose((int)w); f->len = w - (u32)short_by; o->wlimit = w - (u32)short_by; }
    fits = (long long)bp0 + w <= (long long)c.chunkSize;
#ifdef FREAD
    s = rdf(k, EF(f), u.d, &c, &bp);
    if (!fits) { for (i = 0; i < 16; i++) changed |= u.d[i] != (u8)(0xC0 + i); vf_assert(s == IFF_FIELD_LAST, "a field beyond the end of the chunk is not refused"); vf_assert(f->pos == 0 && bp == bp0, "a field beyond the end of the chunk was consumed"); vf_assert(!changed, "the destination of an absent field was changed"); vf_assert(IFF_deriveSuccess(s), "the end of the fields counts as a failure"); vf_assert(env_diag_calls == 0, "the end of the fields is not silent"); vf_reach("last"); }
    else if (fault) { vf_assert(s == IFF_FIELD_FAILURE, "a failing field transfer is not told apart"); vf_assert(!IFF_deriveSuccess(s), "a failing field transfer counts as success"); vf_assert(bp == bp0, "a failing field transfer advances the position"); vf_assert(env_diag_calls > 0, "a failing field transfer was not explained"); vf_reach("failure"); }
    else { vf_assert(s == IFF_FIELD_MORE, "a field that fits is not transferred"); vf_assert(IFF_deriveSuccess(s), "a field transfer counts as a failure"); vf_assert(f->pos == w && bp == bp0 + (IFF_Long)w, "a field does not advance the position by its size"); vf_assert(val(k, u.d) == denotes(k, b), "the field's value is not what the bytes denote"); vf_assert(dest_outside(u.d, w), "bytes outside the destination were changed"); vf_reach("more"); vf_obs((u64)val(k, u.d)); }
#else
    s = wrf(k, EF(o), v, &c, &bp);
    if (!fits) { vf_assert(s == IFF_FIELD_LAST, "a field beyond the end of the chunk is not refused"); vf_assert(o->total == 0 && bp == bp0, "a field beyond the end of the chunk was written"); vf_assert(IFF_deriveSuccess(s), "the end of the fields counts as a failure"); vf_reach("last"); }
    else if (fault) { vf_assert(s == IFF_FIELD_FAILURE, "a failing field transfer is not told apart"); vf_assert(!IFF_deriveSuccess(s), "a failing field transfer counts as success"); vf_assert(bp == bp0, "a failing field transfer advances the position"); vf_assert(env_diag_calls > 0, "a failing field transfer was not explained"); vf_reach("failure"); }
    else { vf_assert(s == IFF_FIELD_MORE, "a field that fits is not transferred"); vf_assert(o->len == w && bp == bp0 + (IFF_Long)w, "a field does not advance the position by its size"); for (i = 0; i < (int)w; i++) vf_assert(o->data[i] == (u8)(v >> (8 * (w - 1 - (u32)i))), "the bytes written do not denote the value"); vf_reach("more"); vf_obs(v); }
    (void)changed;
#endif
  }
#elif defined(IDS)
  { u32 id = vf_u32(); IFF_ID2 s; env_file *o = env_new_out(16); env_out = env_new_out(16);
    vf_assert(IFF_checkId(id) == r_validid(id), "id validity is decided wrongly");
    if (r_validid(id)) vf_reach("valid-id"); else { vf_reach("invalid-id"); vf_assert(env_diag_calls > 0, "an invalid id is not explained"); }
    IFF_idToString(id, s); vf_assert((u8)s[0] == (id >> 24) && (u8)s[1] == ((id >> 16) & 255) && (u8)s[2] == ((id >> 8) & 255) && (u8)s[3] == (id & 255), "the characters of an id are not its bytes in order");
    IFF_printId(id); vf_assert(env_out->len == 4, "printing an id does not print four characters"); for (i = 0; i < 4; i++) vf_assert(env_out->data[i] == ((id >> (8 * (3 - i))) & 255), "an id is printed wrongly");
    vf_assert(IFF_writeId(EF(o), id, id, "x") && o->len == 4, "storing an id fails"); for (i = 0; i < 4; i++) vf_assert(o->data[i] == ((id >> (8 * (3 - i))) & 255), "an id is stored wrongly");
    { env_file *f = env_new_in(o->data, 4); IFF_ID back = ~id; vf_assert(IFF_readId(EF(f), &back, id, "x") && back == id, "an id read back differs"); }
    vf_obs(id); }
#elif defined(FTYPES)
  { u32 id = vf_u32(); IFF_Bool r = IFF_checkFormType(id); vf_assert((r ? 1 : 0) == r_validtype(id), "form type validity is decided wrongly"); if (r) vf_reach("valid-type"); else { vf_reach("invalid-type"); vf_assert(env_diag_calls > 0, "an invalid form type is not explained"); } vf_obs(r); }
#elif defined(FTYPECHK)
  /* the same decision inside the conformance check of FORMs and shared-property groups; ids for chunk ids and contents types */
  { u32 id = vf_u32(); IFF_Chunk *c, *g; int w = vf_choose(4), want; c = (IFF_Chunk *)IFF_createEmptyCATWithContentsType(R_JJJJ);
    if (w == 0) { g = (IFF_Chunk *)IFF_createEmptyForm(id); IFF_addToCAT((IFF_CAT *)c, g); want = r_validtype(id); }
    else if (w == 1) { IFF_List *l = IFF_createEmptyListWithContentsType(R_JJJJ); IFF_addPropToList(l, IFF_createEmptyProp(id)); IFF_addToCAT((IFF_CAT *)c, (IFF_Chunk *)l); want = r_validtype(id); }
    else if (w == 2) { IFF_Form *fm = IFF_createEmptyForm(R_TEXT); vf_assume(!r_isgroup(id)); IFF_addToForm(fm, IFF_createRawChunk(id, 0)); IFF_addToCAT((IFF_CAT *)c, (IFF_Chunk *)fm); want = r_validid(id); }
    else { IFF_addToCAT((IFF_CAT *)c, vf_choose(2) ? (IFF_Chunk *)IFF_createEmptyCATWithContentsType(id) : (IFF_Chunk *)IFF_createEmptyListWithContentsType(id)); want = r_validid(id); }
    { IFF_Bool r = IFF_check(c, NULL); vf_assert((r ? 1 : 0) == want, "the conformance check decides the validity of an id or type wrongly"); vf_reach(r ? "conforming" : "not-conforming"); vf_obs(r); } }
#endif
}
