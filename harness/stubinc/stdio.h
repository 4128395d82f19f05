/* Declarations only: targets other than the host have no C library here. */
#ifndef VF_STDIO_H
#define VF_STDIO_H
#include <stddef.h>
#include <stdarg.h>
typedef struct vf_FILE FILE;
typedef long off_t; typedef long fpos_t;
#define EOF (-1)
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
#define BUFSIZ 8192
#define _IOFBF 0
#define _IOLBF 1
#define _IONBF 2
extern FILE *stdin, *stdout, *stderr;
#endif
