#ifndef VF_STDLIB_H
#define VF_STDLIB_H
#include <stddef.h>
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
#define RAND_MAX 2147483647
int abs(int);
#endif
