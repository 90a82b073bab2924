#ifndef M32_INTTYPES
#define M32_INTTYPES
#include <stdint.h>
#define PRIX32 "lX"
#define PRIx32 "lx"
#define PRIu32 "lu"
#define PRId32 "ld"
#define PRIX64 "llX"
#define PRIx64 "llx"
#define PRIu64 "llu"
#endif
