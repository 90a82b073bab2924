#ifndef M32_DEFS
#define M32_DEFS
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#endif
