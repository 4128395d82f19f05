#include <stdint.h>
#ifndef VF_ENV_IMPL
#error "compile with -DVF_ENV_IMPL"
#endif
#include "env.h"
#ifdef VF_NATIVE
#include <unistd.h>
#include <fcntl.h>
#endif

/* ------------------------------------------------------------------ heap */
int env_alloc_fail = -1, env_alloc_count, env_alloc_fail_all, env_alloc_failed;
static int alloc_denied(void) {
  int k = env_alloc_count++;
  if (env_alloc_fail >= 0 && (k == env_alloc_fail || (env_alloc_fail_all && k > env_alloc_fail))) { env_alloc_failed = 1; return 1; }
  return 0;
}
void *env_malloc(size_t n) { if (alloc_denied()) return NULL; return vf_malloc(n, 1); }
void *env_calloc(size_t n, size_t m) {
  if (m && n > ((size_t)-1) / m) return NULL;
  if (alloc_denied()) return NULL;
  void *p = vf_malloc(n * m, 1); if (p) memset(p, 0, n * m); return p;
}
void env_free(void *p) { if (p) vf_free(p); }
void *env_realloc(void *p, size_t n) {
  if (!p) return env_malloc(n);
  if (n == 0) { vf_free(p); return NULL; }
  if (alloc_denied()) return NULL;
  size_t old = vf_block_size(p); void *q = vf_malloc(n, 1); if (!q) return NULL;
  memcpy(q, p, old < n ? old : n); vf_free(p); return q;
}
char *env_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = env_malloc(n); if (p) memcpy(p, s, n); return p; }
void *h_alloc(size_t n) { return vf_malloc(n, 0); }

/* ------------------------------------------------------------------ files */
env_file *env_in, *env_out, *env_err; int env_files_open, env_open_fail, env_fopen_w_count, env_write_ops, env_write_fail_op = -1, env_stderr_bytes;
#define MAXNAMED 48
static env_file *env_named[MAXNAMED]; static int env_nnamed;
static env_file *mkfile(void) {
  env_file *f = h_alloc(sizeof *f); memset(f, 0, sizeof *f); f->unget = -1; f->seekable = 1;
  f->read_fail_at = (size_t)-1; f->wlimit = (size_t)-1; return f;
}
env_file *env_new_in(const u8 *d, size_t n) { env_file *f = mkfile(); f->data = (u8 *)d; f->len = n; f->open = 1; return f; }
env_file *env_new_out(size_t cap) { env_file *f = mkfile(); f->data = h_alloc(cap ? cap : 1); f->cap = cap; f->open = 1; f->writing = 1; return f; }
env_file *env_add(const char *name, const u8 *d, size_t n) { env_file *f = mkfile(); f->name = name; f->data = (u8 *)d; f->len = n; env_named[env_nnamed++] = f; return f; }
env_file *env_add_out(const char *name, size_t cap) { env_file *f = mkfile(); f->name = name; f->data = h_alloc(cap ? cap : 1); f->cap = cap; f->writing = 1; env_named[env_nnamed++] = f; return f; }
env_file *env_lookup(const char *name) { int i; for (i = 0; i < env_nnamed; i++) if (!strcmp(env_named[i]->name, name)) return env_named[i]; return NULL; }
FILE *env_stdin(void) { return EF(env_in); }
FILE *env_stdout(void) { return EF(env_out); }
FILE *env_stderr(void) { return EF(env_err); }
static env_file *F(FILE *f) {
  env_file *e = (env_file *)f;
  if (!e) vf_fail("stream operation on a NULL stream");
  if (!e->open) vf_fail("stream operation on a closed stream");
  return e;
}
FILE *env_fopen(const char *name, const char *mode) {
  env_file *f = env_lookup(name); int upd = mode[1] == '+' || (mode[1] && mode[2] == '+'), wr = mode[0] != 'r' || upd;
  if (mode[0] != 'r' && mode[0] != 'w' && mode[0] != 'a') vf_fail("unexpected fopen mode");
  if (!f || f->writing != wr) return NULL; /* input files are read-only */
  if (mode[0] == 'r' && wr && !f->exists) return NULL;
  if (wr) env_fopen_w_count++;
  if (f->open) vf_fail("file opened twice");
  f->open = 1; f->everopen++; f->pos = 0; f->eof = f->err = 0; f->unget = -1; if (wr) { if (mode[0] == 'w' || !f->exists) f->len = 0; f->back = mode[0] == 'r' ? f->len : 0; f->total = 0; f->lost = 0; f->exists = 1; }
  env_files_open++; return EF(f);
}
static int flush(env_file *f) {
  if (f->writing && f->lost) { f->err = 1; return EOF; }
  return 0;
}
int env_fclose(FILE *fp) {
  env_file *f = F(fp); int r = flush(f);
  f->open = 0; f->closed++; if (f->name) env_files_open--;
  if (f->close_fail) r = EOF;
  return r;
}
int env_fflush(FILE *fp) { if (!fp) return flush(env_out); return flush(F(fp)); }
int env_feof(FILE *fp) { return F(fp)->eof; }
int env_ferror(FILE *fp) { return F(fp)->err; }
void env_clearerr(FILE *fp) { env_file *f = F(fp); f->eof = f->err = 0; }
int env_fgetc(FILE *fp) {
  env_file *f = F(fp);
  if (f->writing) { f->err = 1; return EOF; }
  if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
  if (f->has_bulk && f->pos == f->bulk_at && f->bulk_off < f->bulk_len) { f->bulk_off++; return vin_u8(); }
  if (f->pos >= f->read_fail_at) { f->err = 1; return EOF; }
  if (f->pos >= f->len) { f->eof = 1; return EOF; }
  return f->data[f->pos++];
}
int env_ungetc(int c, FILE *fp) { env_file *f = F(fp); if (c == EOF || f->unget >= 0) return EOF; f->unget = c & 0xff; f->eof = 0; return f->unget; }
size_t env_fread(void *p, size_t sz, size_t n, FILE *fp) {
  env_file *f = F(fp); size_t want, avail, done = 0; u8 *d = p;
  if (sz == 0 || n == 0) return 0;
  if (sz != 1 && n > ((size_t)-1) / sz) vf_fail("fread size overflows");
  want = sz * n;
  if (f->writing) { f->err = 1; return 0; }
  if (f->has_bulk && f->pos == f->bulk_at && f->bulk_off < f->bulk_len) {
    size_t rem = f->bulk_len - f->bulk_off;
    if (want <= rem) { vf_touch(p, want, 2); f->bulk_off += want; return n; }
    vf_touch(p, want > rem + f->len ? rem + f->len : want, 2);
    f->bulk_off = f->bulk_len; want -= rem; avail = f->len - f->pos;
    if (want <= avail) { f->pos += (size_t)vf_concretize(want); return n; }
    f->pos = f->len; f->eof = 1; return (rem + avail) / sz;
  }
  if (f->unget >= 0) { d[0] = f->unget; f->unget = -1; done = 1; if (want == 1) return n; }
  avail = f->len > f->pos ? f->len - f->pos : 0;
  if (f->read_fail_at < f->len) avail = f->read_fail_at > f->pos ? f->read_fail_at - f->pos : 0;
  if (want - done > avail) {
    /* short read: everything available is transferred */
    vf_touch(p, done + avail, 1);
    if (!vf_symsized(p)) { if (want <= 64) avail = (size_t)vf_concretize(avail); if (!vf_is_sym(avail)) memcpy(d + done, f->data + f->pos, avail); } else vf_touch(p, done + avail, 2);
    f->pos += avail; if (f->read_fail_at < f->len) f->err = 1; else f->eof = 1;
    return (done + avail) / sz;
  }
  want = (size_t)vf_concretize(want);
  memcpy(d + done, f->data + f->pos, want - done); f->pos += want - done;
  return n;
}
int env_fseek(FILE *fp, long off, int whence) {
  env_file *f = F(fp); long t;
  if (!f->seekable) return -1;
  if (f->writing) { if (f->has_bulk || f->wlimit != (size_t)-1) return -1; t = (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)(f->len - f->back) : (long)f->len) + off; if (t < 0 || (size_t)t > f->len) return -1; f->back = f->len - (size_t)t; return 0; }
  if (f->has_bulk) {
    if (whence != SEEK_CUR || off < 0) vf_fail("unsupported seek on bulk stream");
    if (f->pos == f->bulk_at && f->bulk_off < f->bulk_len) {
      size_t rem = f->bulk_len - f->bulk_off;
      if ((size_t)off <= rem) { f->bulk_off += off; f->eof = 0; return 0; }
      off -= rem; f->bulk_off = f->bulk_len;
    }
    f->pos += (size_t)vf_concretize(off); f->eof = 0; return 0;
  }
  t = (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)f->pos - (f->unget >= 0) : (long)f->len) + off;
  if (t < 0) return -1;
  f->unget = -1; f->eof = 0; if ((size_t)t > f->len) t = (long)f->len + 1 > t ? t : (long)f->len + 1; /* every position beyond the end behaves alike */
  f->pos = (size_t)t; return 0;
}
long env_ftell(FILE *fp) { env_file *f = F(fp); if (!f->seekable) return -1; if (f->has_bulk) vf_fail("unsupported tell on bulk stream"); return f->writing ? f->wlimit != (size_t)-1 ? (long)f->total : (long)(f->len - f->back) : (long)f->pos - (f->unget >= 0); }
void env_rewind(FILE *fp) { env_fseek(fp, 0, SEEK_SET); env_clearerr(fp); }
static size_t emit(env_file *f, const u8 *d, size_t n) { /* bytes accepted */
  size_t room;
  if (!f->writing) { f->err = 1; return 0; }
  if (env_write_ops++ == env_write_fail_op) { f->err = 1; return 0; }
  if (f->wlimit != (size_t)-1) {
    room = f->total < f->wlimit ? f->wlimit - f->total : 0;
    if (n > room) {
      f->total += room; /* the contents of a full device are of no interest */
      if (!f->wdefer) { f->err = 1; return room; }
      f->lost = 1; return n;
    }
  }
  f->total += n;
  if (f->has_bulk && n > 64) { vf_touch(d, n, 0); f->bulk_w += n; return n; }
  n = (size_t)vf_concretize(n);
  if (n > f->cap - (f->len - f->back)) { vf_fail("output larger than any valid encoding"); }
  memcpy(f->data + (f->len - f->back), d, n);
  if (n <= f->back) f->back -= n; else { f->len += n - f->back; f->back = 0; }
  return n;
}
int env_fputc(int c, FILE *fp) { u8 b = (u8)c; return emit(F(fp), &b, 1) == 1 ? (int)b : EOF; }
size_t env_fwrite(const void *p, size_t sz, size_t n, FILE *fp) {
  env_file *f = F(fp); if (sz == 0 || n == 0) return 0;
  if (sz != 1 && n > ((size_t)-1) / sz) vf_fail("fwrite size overflows");
  vf_touch(p, sz * n, 0);
  if (!(f->has_bulk && sz * n > 64)) vf_check_init(p, sz * n, "uninitialised memory is written to a stream");
  return emit(f, p, sz * n) / sz;
}
int env_fputs(const char *s, FILE *fp) { size_t n = strlen(s); if (n == 0) return 1; return emit(F(fp), (const u8 *)s, n) == n ? 1 : EOF; }
int env_puts(const char *s) { return env_fputs(s, EF(env_out)) == EOF || env_fputc('\n', EF(env_out)) == EOF ? EOF : 1; }
int env_putchar(int c) { return env_fputc(c, EF(env_out)); }
char *env_fgets(char *s, int n, FILE *f) { int i = 0, c; while (i < n - 1 && (c = env_fgetc(f)) != EOF) { s[i++] = c; if (c == '\n') break; } if (!i) return NULL; s[i] = 0; return s; }
void env_perror(const char *s) { (void)s; env_stderr_bytes++; }
int env_setvbuf(FILE *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return 0; }
void env_setbuf(FILE *f, char *b) { (void)f; (void)b; }
int env_remove(const char *n) { (void)n; return 0; }

/* ------------------------------------------------------------------ printf */
typedef struct { env_file *f; char *buf; size_t cap; int n; int sink; int fail; } outctx;
static void oc(outctx *o, u8 c) {
  o->n++; if (o->sink) return;
  if (o->f) { if (emit(o->f, &c, 1) != 1) o->fail = 1; return; }
  if ((size_t)o->n <= o->cap && o->cap) o->buf[o->n - 1] = (char)c;
}
static void opad(outctx *o, int n, char c) { while (n-- > 0) oc(o, (u8)c); }
typedef struct { va_list ap; } vabox;
static int fmt_core(outctx *o, const char *fmt, vabox *vb) {
  for (; *fmt; fmt++) {
    int zero = 0, left = 0, width = 0, prec = -1, lng = 0, alt = 0, plus = 0; char cv;
    if (*fmt != '%') { oc(o, (u8)*fmt); continue; }
    fmt++;
    for (;; fmt++) { if (*fmt == '0') zero = 1; else if (*fmt == '-') left = 1; else if (*fmt == '#') alt = 1; else if (*fmt == '+' || *fmt == ' ') plus = *fmt; else break; }
    if (*fmt == '*') { vf_va_check(&vb->ap, 4); width = va_arg(vb->ap, int); width = (int)vf_concretize((u32)width); if (width < 0) { left = 1; width = -width; } fmt++; } else while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
    if (*fmt == '.') { fmt++; prec = 0; if (*fmt == '*') { vf_va_check(&vb->ap, 4); prec = va_arg(vb->ap, int); prec = (int)vf_concretize((u32)prec); fmt++; } else while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + (*fmt++ - '0'); }
    for (;; fmt++) { if (*fmt == 'l' || *fmt == 'z' || *fmt == 't' || *fmt == 'j') lng++; else if (*fmt == 'h') lng--; else break; }
    cv = *fmt;
    switch (cv) {
    case '%': oc(o, '%'); break;
    case 'c': { int c; vf_va_check(&vb->ap, 4); c = va_arg(vb->ap, int); if (!left) opad(o, width - 1, ' '); oc(o, (u8)c); if (left) opad(o, width - 1, ' '); break; }
    case 's': { const char *s; int n = 0, i; vf_va_check(&vb->ap, 1); s = va_arg(vb->ap, const char *); if (!s) vf_fail("%s directive given a NULL string"); if (o->sink && prec < 0) { vf_touch(s, 1, 0); while (s[n]) n++; o->n += n; break; } while ((prec < 0 || n < prec) && s[n]) n++; if (!left) opad(o, width - n, ' '); for (i = 0; i < n; i++) oc(o, (u8)s[i]); if (left) opad(o, width - n, ' '); break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
      u64 v; int neg = 0, n = 0, i, nd; char tmp[24];
      if (lng > 0) { vf_va_check(&vb->ap, 8); if (cv == 'd' || cv == 'i') { long x = va_arg(vb->ap, long); neg = 0; if (o->sink) { o->n++; break; } x = (long)vf_concretize((u64)x); neg = x < 0; v = neg ? 0 - (u64)x : (u64)x; } else { v = va_arg(vb->ap, unsigned long); if (o->sink) { o->n++; break; } if (cv == 'u') v = vf_concretize(v); } }
      else { vf_va_check(&vb->ap, 4); if (cv == 'd' || cv == 'i') { int x = va_arg(vb->ap, int); if (o->sink) { o->n++; break; } if (lng == -1) x = (short)x; if (lng <= -2) x = (signed char)x; x = (int)vf_concretize((u32)x); neg = x < 0; v = neg ? 0 - (u64)(long long)x : (u64)x; } else { u32 x = va_arg(vb->ap, unsigned int); if (o->sink) { o->n++; break; } if (lng == -1) x = (u16)x; if (lng <= -2) x = (u8)x; if (cv == 'u') x = (u32)vf_concretize(x); v = x; } }
      if (cv == 'x' || cv == 'X' || cv == 'o') { /* symbolic digits, forks on the number of digits only */
        int sh = cv == 'o' ? 3 : 4; u32 msk = cv == 'o' ? 7 : 15; nd = 1; while (nd < 22 && nd * sh < 64 && (v >> (nd * sh)) != 0) nd++;
        for (i = 0; i < nd; i++) { u32 d = (u32)(v >> (i * sh)) & msk; tmp[i] = (char)(d + '0' + (d > 9) * ((cv == 'x' ? 'a' : 'A') - 10 - '0')); }
        n = nd;
      } else { if (v == 0) tmp[n++] = '0'; while (v) { tmp[n++] = (char)('0' + v % 10); v /= 10; } }
      { int body = n < prec ? prec : n, extra = (neg || (plus && (cv == 'd' || cv == 'i'))) + (alt && cv != 'd' ? 2 : 0); if (prec >= 0) zero = 0;
        if (!left && !zero) opad(o, width - body - extra, ' ');
        if (neg) oc(o, '-'); else if (plus && (cv == 'd' || cv == 'i')) oc(o, (u8)plus); if (alt && (cv == 'x' || cv == 'X')) { oc(o, '0'); oc(o, (u8)cv); }
        if (!left && zero) opad(o, width - body - extra, '0');
        opad(o, body - n, '0'); for (i = n; i-- > 0;) oc(o, (u8)tmp[i]); if (left) opad(o, width - body - extra, ' '); }
      break; }
    case 'p': vf_va_check(&vb->ap, 1); (void)va_arg(vb->ap, void *); oc(o, 'p'); break;
    default: vf_fail("unsupported format directive");
    }
  }
  return o->fail ? -1 : o->n;
}
int env_vfprintf(FILE *fp, const char *fmt, va_list ap) {
  outctx o; vabox b; int r; memset(&o, 0, sizeof o); o.f = F(fp); if (o.f == env_err) { o.sink = 1; o.f = NULL; }
  va_copy(b.ap, ap); r = fmt_core(&o, fmt, &b); va_end(b.ap); if (o.sink) env_stderr_bytes += o.n; return r;
}
int env_format_sink(const char *fmt, va_list ap) { outctx o; vabox b; int r; memset(&o, 0, sizeof o); o.sink = 1; va_copy(b.ap, ap); r = fmt_core(&o, fmt, &b); va_end(b.ap); return r; }
int env_vprintf(const char *fmt, va_list ap) { return env_vfprintf(EF(env_out), fmt, ap); }
int env_printf(const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = env_vfprintf(EF(env_out), fmt, ap); va_end(ap); return r; }
int env_fprintf(FILE *f, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = env_vfprintf(f, fmt, ap); va_end(ap); return r; }
int env_vsnprintf(char *s, size_t n, const char *fmt, va_list ap) { outctx o; vabox b; int r; memset(&o, 0, sizeof o); o.buf = s; o.cap = n ? n - 1 : 0; va_copy(b.ap, ap); r = fmt_core(&o, fmt, &b); va_end(b.ap); if (n) s[(size_t)r < n - 1 ? (size_t)r : n - 1] = 0; return r; }
int env_snprintf(char *s, size_t n, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = env_vsnprintf(s, n, fmt, ap); va_end(ap); return r; }
int env_sprintf(char *s, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = env_vsnprintf(s, 0x10000, fmt, ap); va_end(ap); return r; }

/* ------------------------------------------------------------------ misc libc */
void *env_bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  size_t lo = 0, hi = n;
  while (lo < hi) { size_t mid = (lo + hi) / 2; const void *p = (const char *)base + mid * sz; int c = cmp(key, p); if (c < 0) hi = mid; else if (c > 0) lo = mid + 1; else return (void *)p; }
  return NULL;
}
void env_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  size_t i, j, k; u8 *b = base;
  for (i = 1; i < n; i++) for (j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) for (k = 0; k < sz; k++) { u8 t = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; }
}
int env_isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int env_islower(int c) { return (c >= 'a') & (c <= 'z'); }
int env_isalpha(int c) { return env_isupper(c) | env_islower(c); }
int env_isdigit(int c) { return (c >= '0') & (c <= '9'); }
int env_isalnum(int c) { return env_isalpha(c) | env_isdigit(c); }
int env_isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int env_isgraph(int c) { return (c > 32) & (c < 127); }
int env_isprint(int c) { return (c >= 32) & (c < 127); }
int env_ispunct(int c) { return env_isgraph(c) & !env_isalnum(c); }
int env_iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int env_isxdigit(int c) { return env_isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int env_toupper(int c) { return env_islower(c) ? c - 32 : c; }
int env_tolower(int c) { return env_isupper(c) ? c + 32 : c; }
int env_exit_code, env_exited;
extern void h_on_exit(int code) __attribute__((weak)); void h_after(void);
void env_exit(int code) { env_exit_code = code; env_exited = 1; if (h_on_exit) h_on_exit(code); vf_stop(); }
void env_abort(void) { vf_fail("abort or failed assertion in the code under test"); }
int env_diag_calls;
void env_diag_callback(const char *fmt, va_list ap) { env_diag_calls++; env_format_sink(fmt, ap); }

int env_optind = 1, env_opterr = 1, env_optopt; char *env_optarg;
static int optpos;
#ifdef VF_WITH_GETOPT
static int getopt_core(int argc, char *const argv[], const char *opts, const struct option *lo, int *idx) {
  /* the tools' options precede their operands in the modelled invocations; permutation is not modelled */
  char *a; const char *p; char c;
  env_optarg = NULL;
  if (optpos == 0) {
    if (env_optind >= argc) return -1;
    a = argv[env_optind];
    if (a[0] != '-' || a[1] == 0) return -1;
    if (a[1] == '-') {
      env_optind++;
      if (a[2] == 0) return -1;
      if (lo) { int i; for (i = 0; lo[i].name; i++) { size_t n = strlen(lo[i].name); if (!strncmp(a + 2, lo[i].name, n) && (a[2 + n] == 0 || a[2 + n] == '=')) {
          if (idx) *idx = i;
          if (lo[i].has_arg == 1) { if (a[2 + n] == '=') env_optarg = a + 3 + n; else if (env_optind < argc) env_optarg = argv[env_optind++]; else return '?'; }
          else if (a[2 + n] == '=') return '?';
          if (lo[i].flag) { *lo[i].flag = lo[i].val; return 0; } return lo[i].val; } } }
      return '?';
    }
    optpos = 1;
  }
  a = argv[env_optind]; c = a[optpos++];
  for (p = opts; *p && (*p != c || c == ':'); p++) ;
  if (!*p) { if (!a[optpos]) { env_optind++; optpos = 0; } env_optopt = c; return '?'; }
  if (p[1] == ':') { if (a[optpos]) { env_optarg = a + optpos; env_optind++; optpos = 0; } else { env_optind++; optpos = 0; if (env_optind >= argc) return '?'; env_optarg = argv[env_optind++]; } }
  else if (!a[optpos]) { env_optind++; optpos = 0; }
  return c;
}
int env_getopt_long(int argc, char *const argv[], const char *opts, const struct option *lo, int *idx) { return getopt_core(argc, argv, opts, lo, idx); }
int env_getopt(int argc, char *const argv[], const char *opts) { return getopt_core(argc, argv, opts, NULL, NULL); }
#endif
void env_init(void) {
  env_in = env_new_in((const u8 *)"", 0); env_out = env_new_out(1024); env_err = env_new_out(0);
}

#ifndef VF_NATIVE
/* library functions the engine interprets from here */
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (u8)*a - (u8)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (u8)*a - (u8)*b : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
/* one value for all outcomes, so that a search for a symbolic character does not split the exploration */
char *strchr(const char *s, int c) { uintptr_t r = 0; size_t i = strlen(s) + 1; while (i-- > 0) r = s[i] == (char)c ? (uintptr_t)(s + i) : r; return (char *)r; }
char *strrchr(const char *s, int c) { uintptr_t r = 0; size_t i, n = strlen(s) + 1; for (i = 0; i < n; i++) r = s[i] == (char)c ? (uintptr_t)(s + i) : r; return (char *)r; }
void *memchr(const void *p, int c, size_t n) { const u8 *s = p; uintptr_t r = 0; if (vf_is_sym((u64)(u8)c) && !vf_is_sym(n)) { while (n-- > 0) r = s[n] == (u8)c ? (uintptr_t)(s + n) : r; return (void *)r; } for (; n; n--, s++) if (*s == (u8)c) return (void *)s; return NULL; }
int abs(int x) { return x < 0 ? -x : x; }
static int errno_cell; int *__errno_location(void) { return &errno_cell; }
void sym_main(void) { env_init(); harness(); h_after(); }
#else
/* ------------------------------------------------------------------ native replay */
static u8 *nin; static size_t nin_len, nin_pos;
static FILE *trace;
typedef struct node { void *p; size_t n; int lib; struct node *next; } node; static node *nodes; static int nlive;
typedef struct snap { void *p; size_t n; u8 *copy; struct snap *next; } snap; static snap *snaps;
u8 vin_u8(void) { return nin_pos < nin_len ? nin[nin_pos++] : 0; }
static void finish(int code) { fflush(trace); fflush(stdout); _exit(code); }
void vf_assume(int c) { if (!c) { fprintf(trace, "ASSUME-FAILED\n"); finish(77); } }
void vf_fail(const char *m) { fprintf(trace, "VF_FAIL %s\n", m); finish(42); }
void vf_assert(int c, const char *m) { if (!c) vf_fail(m); }
void vf_reach(const char *l) { fprintf(trace, "REACH %s\n", l); }
void vf_obs(u64 v) { fprintf(trace, "OBS %llu\n", v); }
u64 vf_concretize(u64 v) { return v; }
void vf_stop(void) { fprintf(trace, "STOP\n"); finish(0); }
void *vf_malloc(size_t n, int lib) {
  if (n > ((size_t)1 << 40)) return NULL;
  void *p = malloc(n); if (!p) return NULL; 
#ifndef VF_MSAN
  if (n <= (1 << 24)) memset(p, 0xA7, n);
#endif
 
  node *x = malloc(sizeof *x); x->p = p; x->n = n; x->lib = lib; x->next = nodes; nodes = x; nlive += lib; return p;
}
static node **find(void *p) { node **q = &nodes; while (*q && (*q)->p != p) q = &(*q)->next; return q; }
void vf_free(void *p) { node **q = find(p), *x = *q; if (!x) { free(p); vf_fail("free of memory that is not allocated"); } nlive -= x->lib; *q = x->next; free(x); free(p); }
size_t vf_block_size(void *p) { node *x = *find(p); if (!x) { vf_fail("realloc of a pointer that is not an allocated heap block"); } return x->n; }
int vf_symsized(void *p) { (void)p; return 0; }
int vf_is_sym(u64 v) { (void)v; return 0; }
int vf_is_live(void *p) { return *find(p) != NULL; }
int vf_live_blocks(void) { return nlive; }
void vf_snapshot(void) { node *x; snaps = NULL; for (x = nodes; x; x = x->next) if (x->lib && x->n <= (1 << 24)) { snap *s = malloc(sizeof *s); s->p = x->p; s->n = x->n; s->copy = malloc(x->n + 1); memcpy(s->copy, x->p, x->n); s->next = snaps; snaps = s; } }
int vf_snapshot_same(void) { snap *s; for (s = snaps; s; s = s->next) if (!*find(s->p) || memcmp(s->p, s->copy, s->n)) return 0; return 1; }
void vf_check_init(const void *p, size_t n, const char *m) { volatile u8 s = 0; size_t i; (void)m; for (i = 0; i < n; i++) if (((const u8 *)p)[i]) s++; }
void vf_touch(const void *p, size_t n, int write) { volatile u8 *q = (volatile u8 *)p; if (!n) return; u8 a = q[0], b = q[n - 1]; if (write) { q[0] = a; q[n - 1] = b; } }
void vf_va_check(void *ap, int kind) { (void)ap; (void)kind; }
int main(int argc, char **argv) {
  /* argv[1]: input bytes as hex, argv[2]: optional trace file */
  const char *h = argc > 1 ? argv[1] : ""; size_t n = strlen(h) / 2, i; trace = stdout;
  nin = malloc(n + 1); nin_len = n; for (i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); nin[i] = v; }
  if (argc > 2) { trace = fopen(argv[2], "w"); if (!trace) return 3; }
  env_init(); harness(); h_after(); fprintf(trace, "STOP\n"); finish(0);
}
#endif
