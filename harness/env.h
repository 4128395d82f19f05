/* Interface between harnesses and the modelled environment. */
#ifndef VF_ENV_H
#define VF_ENV_H
#include "envmap.h"
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
/* engine intrinsics (native versions in env.c) */
u8 vin_u8(void);                     /* next symbolic input byte */
void vf_assume(int c);
void vf_assert(int c, const char *msg);
void vf_fail(const char *msg);
void vf_reach(const char *label);    /* reachability witness */
void vf_obs(u64 v);                  /* observed value, compared with the native run */
u64 vf_concretize(u64 v);            /* fork over every feasible value */
void vf_stop(void);                  /* end of this path */
void *vf_malloc(size_t n, int lib); void vf_free(void *p); size_t vf_block_size(void *p); int vf_is_live(void *p); int vf_symsized(void *p); int vf_is_sym(u64 v);
int vf_live_blocks(void);            /* heap blocks owned by the code under test */
void vf_snapshot(void); int vf_snapshot_same(void);
void vf_check_init(const void *p, size_t n, const char *msg);
void vf_touch(const void *p, size_t n, int write);
void vf_va_check(void *ap, int kind);
static inline u32 vf_u16(void) { u32 a = vin_u8(); return a << 8 | vin_u8(); }
static inline u32 vf_u32(void) { u32 a = vin_u8(), b = vin_u8(), c = vin_u8(); return a << 24 | b << 16 | c << 8 | vin_u8(); }
static inline int vf_choose(int n) { u8 v = vin_u8(); vf_assume(v < n); return (int)vf_concretize(v); }

/* virtual files */
typedef struct env_file {
  u8 *data; size_t len, cap, pos;      /* contents (input) or accepted bytes (output) */
  int open, writing, eof, err, seekable, everopen, closed;
  int unget;                           /* pushed-back byte or -1 */
  size_t read_fail_at;                 /* reads at or beyond this position fail */
  size_t wlimit;                       /* bytes the device accepts */
  int wdefer;                          /* a full device is only noticed by flush/close */
  int close_fail, lost;
  int has_bulk; size_t bulk_at; size_t bulk_len, bulk_off; /* symbolic-length run of arbitrary bytes */
  size_t bulk_w;                       /* bytes written beyond cap bookkeeping (bulk output) */
  int exists; size_t back;              /* an old file of that name; distance of the write position from the end */
  size_t total;                        /* total bytes written (may be symbolic) */
  const char *name;
} env_file;
extern env_file *env_in, *env_out, *env_err;   /* standard streams */
env_file *env_new_in(const u8 *data, size_t len); /* readable virtual file, opened */
env_file *env_new_out(size_t cap);                /* writable virtual file, opened */
env_file *env_add(const char *name, const u8 *data, size_t len); /* named file for fopen("rb") */
env_file *env_add_out(const char *name, size_t cap);             /* named target for fopen("wb") */
env_file *env_lookup(const char *name);
#define EF(x) ((FILE *)(x))
extern int env_files_open, env_open_fail, env_fopen_w_count;
extern int env_write_ops, env_write_fail_op; /* the env_write_fail_op-th write fails once (-1 never) */
/* allocation faults: the env_alloc_fail-th library allocation from now on fails (-1 never) */
extern int env_alloc_fail, env_alloc_count, env_alloc_fail_all, env_alloc_failed;
/* diagnostics */
extern int env_stderr_bytes;
extern int env_diag_calls; void env_diag_callback(const char *fmt, va_list ap);
extern int env_exit_code, env_exited; 
void env_init(void);
void harness(void);
int env_format_sink(const char *fmt, va_list ap);
/* allocation for harness bookkeeping (never fails, not counted) */
void *h_alloc(size_t n);
#ifdef VF_NATIVE
extern int vf_native;
#endif
#endif
