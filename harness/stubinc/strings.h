#ifndef VF_STRINGS_H
#define VF_STRINGS_H
#include <string.h>
int bcmp(const void *, const void *, size_t);
#endif
