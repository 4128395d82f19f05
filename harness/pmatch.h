/* Reads the textual representation back and compares it with the model.  White
 * space between tokens is free (that inside ids and text is not), the words for
 * group types are free, so only the content counts. */
static const u8 *pm_p, *pm_e; static int pm_ok, pm_gap[400], pm_sp[400], pm_n;
#define PM(c) vf_assert((c), "the text does not show the hierarchy as it is")
static int pm_blank(int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static int pm_ws(void) { int n = 0; while (pm_p < pm_e && pm_blank(*pm_p)) { n = *pm_p == '\n' ? 0 : n + 1; pm_p++; } return n; }
static void pm_lit(const char *s) { for (; *s; s++) { if (pm_p >= pm_e || *pm_p != (u8)*s) { pm_ok = 0; return; } pm_p++; } }
static void pm_tok(const char *s) { if (!pm_ok) return; pm_ws(); pm_lit(s); }
static void pm_word(void) { int n = 0; if (!pm_ok) return; pm_ws(); while (pm_p < pm_e && ((*pm_p >= 'a' && *pm_p <= 'z') || (*pm_p >= 'A' && *pm_p <= 'Z'))) { pm_p++; n++; } if (!n) pm_ok = 0; }
static void pm_id(u32 id) { int i; if (!pm_ok) return; if (pm_e - pm_p < 4) { pm_ok = 0; return; } for (i = 0; i < 4; i++) { PM(*pm_p == ((id >> (24 - 8 * i)) & 255)); pm_p++; } }
static void pm_num(u32 v) { char t[12]; int n = 0; u32 a; if (!pm_ok) return; pm_ws(); v = (u32)vf_concretize(v); a = v >> 31 ? 0 - v : v; do { t[n++] = (char)('0' + a % 10); a /= 10; } while (a); if (v >> 31) t[n++] = '-'; while (n--) { if (pm_p >= pm_e || *pm_p != (u8)t[n]) { pm_ok = 0; return; } pm_p++; } }
static u32 pm_hex(u32 c) { u32 dig = (c >= '0') & (c <= '9'), lo = (c >= 'a') & (c <= 'f'), up = (c >= 'A') & (c <= 'F'); return dig * (c - '0') + lo * (c - 'a' + 10) + up * (c - 'A' + 10) + (1 - (dig | lo | up)) * 0x1000; }
static int pm_gapof(int sp) { int i; for (i = 0; i < pm_n; i++) if (pm_sp[i] == sp) return pm_gap[i]; return -1; }
static void pm_chunk(const rn *n) {
  int i, sp; u32 k;
  if (!pm_ok) return;
  sp = pm_ws(); pm_lit("'"); pm_id(n->id); if (!pm_ok) return; pm_lit("'"); pm_tok("="); pm_tok("{"); pm_tok("chunkSize"); pm_tok("="); pm_num(n->size); pm_tok(";");
  if (n->kind == RAW) {
    if (n->id == R_TEXT) {
      int gap = pm_gapof(sp); pm_tok("text"); pm_tok("="); pm_tok("'"); if (!pm_ok) return;
      if (gap >= 0) { if (pm_e - pm_p < gap) { pm_ok = 0; return; } pm_p += gap; } else if (n->dlen) pm_ws();
      if ((size_t)(pm_e - pm_p) < n->dlen) { pm_ok = 0; return; }
      for (k = 0; k < n->dlen; k++) { PM(*pm_p == n->data[k]); pm_p++; }
      vf_reach("text"); pm_tok("'"); pm_tok(";");
    } else {
      pm_tok("bytes"); pm_tok("=");
      for (k = 0; k < n->dlen && pm_ok; k++) {
        pm_ws(); if (pm_e - pm_p < 3) { pm_ok = 0; return; }
        PM((pm_hex(pm_p[0]) << 4 | pm_hex(pm_p[1])) == n->data[k]); pm_p += 2;
        if (!pm_blank(*pm_p) && *pm_p != ';') pm_ok = 0;
      }
      vf_reach("bytes"); pm_tok(";");
    }
  } else {
    pm_word(); pm_tok("="); pm_tok("'"); pm_id(n->type); if (!pm_ok) return; pm_lit("'"); pm_tok(";");
    if (n->kind == LIST) { pm_tok("prop"); pm_tok("="); pm_tok("["); for (i = 0; i < n->np; i++) pm_chunk(n->prop[i]); pm_tok("]"); pm_tok(";"); if (n->np) vf_reach("shared-properties"); }
    pm_tok("["); for (i = 0; i < n->nk; i++) pm_chunk(n->kid[i]); pm_tok("]"); pm_tok(";");
    vf_reach("group");
  }
  pm_tok("}");
}
static int pm_match(const rn *n, const u8 *p, size_t len) { pm_p = p; pm_e = p + len; pm_ok = 1; pm_chunk(n); if (pm_ok) { pm_ws(); pm_ok &= pm_p == pm_e; } return pm_ok; }
/* how far text is indented at which depth */
static void pm_calibrate(int levels) {
  int l; env_file *keep = env_out; IFF_Chunk *c = IFF_createRawChunk(R_TEXT, 1); ((IFF_RawChunk *)c)->chunkData[0] = 'x';
  for (l = 0; l < levels; l++) {
    const u8 *q; env_out = env_new_out(400 + 100 * l); IFF_print(c, (unsigned)l, NULL);
    pm_p = env_out->data; pm_e = pm_p + env_out->len; pm_ok = 1; pm_sp[pm_n] = pm_ws(); pm_lit("'TEXT'"); pm_tok("="); pm_tok("{"); pm_tok("chunkSize"); pm_tok("="); pm_tok("1"); pm_tok(";"); pm_tok("text"); pm_tok("="); pm_tok("'");
    q = pm_p; pm_ws(); vf_assert(pm_ok && pm_p < pm_e && *pm_p == 'x', "a text chunk is not shown as text"); pm_gap[pm_n++] = (int)(pm_p - q);
  }
  IFF_free(c, NULL); env_out = keep;
}
