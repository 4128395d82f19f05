/* The error callback itself: C28.  Every message reaches exactly the callback that
 * is installed when it is reported, with its arguments intact. */
#include "ref.h"
static char text[400]; static size_t tlen; static int calls;
static void collect(const char *fmt, va_list ap) { int n = env_vsnprintf(text + tlen, sizeof text - tlen, fmt, ap); tlen += (size_t)n; calls++; }
static int has(const char *s, size_t n) { size_t i, k; for (i = 0; i + n <= tlen; i++) { for (k = 0; k < n && (u8)text[i + k] == (u8)s[k]; k++) ; if (k == n) return 1; } return 0; }
static void idbytes(u32 id, char *b) { b[0] = (char)(id >> 24); b[1] = (char)(id >> 16); b[2] = (char)(id >> 8); b[3] = (char)id; }
static u32 anid(void) { u32 c[4]; int i; for (i = 0; i < 4; i++) { c[i] = vin_u8(); vf_assume(c[i] > 0x60); vf_assume(c[i] < 0x64); } return MKID(c[0], c[1], c[2], c[3]); }
void harness(void) {
  int what = vf_choose(8), dflt = vf_choose(2); u32 id = anid(); char b[4]; IFF_Chunk *c = NULL; env_file *o; u8 buf[64]; IFF_Bool r = FALSE;
  idbytes(id, b); if (!dflt) { g_quiet = 1; IFF_errorCallback = &collect; }
  vf_assert(dflt || env_stderr_bytes == 0, "harness");
  switch (what) {
  case 0: IFF_error("%d|%s|%c%%%x|%lu\n", -12, "abc", 'z', 0xbeefu, 123456789ul); if (!dflt) vf_assert(tlen == 25 && !memcmp(text, "-12|abc|z%beef|123456789\n", 25) && calls == 1, "an error message is delivered with other arguments"); break;
  case 1: IFF_errorId(id); if (!dflt) { int i; vf_assert(tlen == 4, "an id is not reported as its four characters"); for (i = 0; i < 4; i++) vf_assert(text[i] == b[i], "an id is not reported as its four characters"); } break;
  case 2: IFF_readError(id, "someField"); if (!dflt) vf_assert(has(b, 4) && has("someField", 9), "an error message does not say which chunk and field it is about"); break;
  case 3: IFF_writeError(id, "someField"); if (!dflt) vf_assert(has(b, 4) && has("someField", 9), "an error message does not say which chunk and field it is about"); break;
  case 4: c = vf_choose(2) ? IFF_readFile("missing", NULL) : IFF_read("missing", NULL); vf_assert(c == NULL, "a file that does not exist was read"); break;
  case 5: c = IFF_createRawChunk(id, 0); o = env_new_out(100); g_quiet = 0; r = vf_choose(2) ? IFF_writeFile("no/such/place", c, NULL) : IFF_write("no/such/place", c, NULL); g_quiet = !dflt; vf_assert(!r, "a file that cannot be created was written"); (void)o; break;
  case 6: r_put32(buf, R_FORM); r_put32(buf + 4, 12); r_put32(buf + 8, MKID('T','E','S','T')); r_put32(buf + 12, id); r_put32(buf + 16, 1); c = IFF_readFd(EF(env_new_in(buf, (size_t)(vf_choose(21)))), NULL); vf_assert(c == NULL, "an incomplete file was read"); break;
  default: c = IFF_createRawChunk(id & 0x1fffffffu, 0); r = IFF_check(c, NULL); vf_assert(!r, "an invalid id conforms"); break;
  }
  if (dflt) { vf_assert(env_stderr_bytes > 0, "a failure is not explained on the standard error stream"); vf_assert(env_diag_calls == 0 && calls == 0, "harness"); vf_reach("default"); }
  else { vf_assert(calls > 0, "a failure is not explained through the installed callback"); vf_assert(env_stderr_bytes == 0, "the library wrote to the standard error stream although a callback is installed"); vf_reach("installed"); }
  vf_obs(tlen);
  /* switching takes effect at once */
  { int before = env_stderr_bytes, k = calls; if (dflt) { IFF_errorCallback = &collect; IFF_error("x"); vf_assert(calls == k + 1 && env_stderr_bytes == before, "a newly installed callback is not used"); } else { IFF_errorCallback = &IFF_errorCallbackStderr; IFF_error("x"); vf_assert(calls == k && env_stderr_bytes == before + 1, "the default callback does not write to the standard error stream"); g_quiet = 0; } }
}
