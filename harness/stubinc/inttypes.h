#ifndef VF_INTTYPES_H
#define VF_INTTYPES_H
#include <stdint.h>
#define PRId32 "d"
#define PRIu32 "u"
#define PRIx32 "x"
#define PRIX32 "X"
#define PRId16 "d"
#define PRIu16 "u"
#define PRIu8 "u"
#endif
