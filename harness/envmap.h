/* Force-included in front of every source of svanderburg/libiff: the C library
 * calls that touch the outside world (files, heap, terminal) are redirected to
 * the model in env.c, both for symbolic execution and for native replay.  The
 * library code itself is untouched. */
#ifndef VF_ENVMAP_H
#define VF_ENVMAP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stddef.h>
#include <ctype.h>
#include <limits.h>
#include <stdint.h>
#include <errno.h>
#include <assert.h>
#ifndef VF_NO_GETOPT
#include <unistd.h>
#include <getopt.h>
#endif

FILE *env_stdin(void); FILE *env_stdout(void); FILE *env_stderr(void);
FILE *env_fopen(const char *name, const char *mode);
int env_fclose(FILE *f); int env_fflush(FILE *f);
int env_fgetc(FILE *f); int env_ungetc(int c, FILE *f); int env_fputc(int c, FILE *f);
size_t env_fread(void *p, size_t sz, size_t n, FILE *f);
size_t env_fwrite(const void *p, size_t sz, size_t n, FILE *f);
int env_fseek(FILE *f, long off, int whence); long env_ftell(FILE *f); void env_rewind(FILE *f);
int env_feof(FILE *f); int env_ferror(FILE *f); void env_clearerr(FILE *f);
int env_fputs(const char *s, FILE *f); int env_puts(const char *s); int env_putchar(int c);
char *env_fgets(char *s, int n, FILE *f);
int env_printf(const char *fmt, ...); int env_fprintf(FILE *f, const char *fmt, ...);
int env_vprintf(const char *fmt, va_list ap); int env_vfprintf(FILE *f, const char *fmt, va_list ap);
int env_snprintf(char *s, size_t n, const char *fmt, ...); int env_sprintf(char *s, const char *fmt, ...);
int env_vsnprintf(char *s, size_t n, const char *fmt, va_list ap);
void env_perror(const char *s); int env_setvbuf(FILE *f, char *b, int m, size_t n); void env_setbuf(FILE *f, char *b);
int env_remove(const char *n);
void *env_malloc(size_t n); void *env_calloc(size_t n, size_t m); void *env_realloc(void *p, size_t n); void env_free(void *p);
char *env_strdup(const char *s);
void env_exit(int code); void env_abort(void);
void *env_bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *));
void env_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *));
int env_isupper(int c), env_islower(int c), env_isalpha(int c), env_isdigit(int c), env_isalnum(int c), env_isspace(int c), env_ispunct(int c), env_isprint(int c), env_isgraph(int c), env_iscntrl(int c), env_isxdigit(int c), env_toupper(int c), env_tolower(int c);
#ifndef VF_ENV_IMPL
#undef stdin
#undef stdout
#undef stderr
#define stdin env_stdin()
#define stdout env_stdout()
#define stderr env_stderr()
#define fopen env_fopen
#define fclose env_fclose
#define fflush env_fflush
#undef fgetc
#undef getc
#undef fputc
#undef putc
#undef getchar
#undef putchar
#define fgetc env_fgetc
#define getc env_fgetc
#define getchar() env_fgetc(env_stdin())
#define getc_unlocked env_fgetc
#define fgetc_unlocked env_fgetc
#define ungetc env_ungetc
#define fputc env_fputc
#define putc env_fputc
#define putc_unlocked env_fputc
#define fputc_unlocked env_fputc
#define fread env_fread
#define fwrite env_fwrite
#define fread_unlocked env_fread
#define fwrite_unlocked env_fwrite
#define fseek env_fseek
#define fseeko env_fseek
#define ftell env_ftell
#define ftello env_ftell
#define rewind env_rewind
#undef feof
#undef ferror
#undef clearerr
#define feof env_feof
#define ferror env_ferror
#define clearerr env_clearerr
#define fputs env_fputs
#define puts env_puts
#define putchar env_putchar
#define fgets env_fgets
#define printf env_printf
#define fprintf env_fprintf
#define vprintf env_vprintf
#define vfprintf env_vfprintf
#define snprintf env_snprintf
#define sprintf env_sprintf
#define vsnprintf env_vsnprintf
#define perror env_perror
#define setvbuf env_setvbuf
#define setbuf env_setbuf
#define remove env_remove
#define unlink env_remove
#define malloc env_malloc
#define calloc env_calloc
#define realloc env_realloc
#define free env_free
#undef strdup
#define strdup env_strdup
#define exit env_exit
#define _exit env_exit
#define abort env_abort
#define bsearch env_bsearch
#define qsort env_qsort
#undef isupper
#undef islower
#undef isalpha
#undef isdigit
#undef isalnum
#undef isspace
#undef ispunct
#undef isprint
#undef isgraph
#undef iscntrl
#undef isxdigit
#undef toupper
#undef tolower
#define isupper env_isupper
#define islower env_islower
#define isalpha env_isalpha
#define isdigit env_isdigit
#define isalnum env_isalnum
#define isspace env_isspace
#define ispunct env_ispunct
#define isprint env_isprint
#define isgraph env_isgraph
#define iscntrl env_iscntrl
#define isxdigit env_isxdigit
#define toupper env_toupper
#define tolower env_tolower
#undef assert
#define assert(x) ((x) ? (void)0 : env_abort())
#ifdef VF_TOOL_MAIN
#define main tool_main
#define getopt_long env_getopt_long
#define getopt env_getopt
#define optind env_optind
#define optarg env_optarg
#define opterr env_opterr
#define optopt env_optopt
extern int env_optind, env_opterr, env_optopt; extern char *env_optarg;
int env_getopt(int argc, char *const argv[], const char *opts);
#ifndef VF_NO_GETOPT
int env_getopt_long(int argc, char *const argv[], const char *opts, const struct option *lo, int *idx);
#endif
int tool_main(int argc, char *argv[]);
#define HAVE_GETOPT_H 1
#define PACKAGE_NAME "libiff"
#define PACKAGE_VERSION "0"
#endif
#endif
#endif
