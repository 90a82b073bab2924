#ifndef M32_STDLIB
#define M32_STDLIB
#include "stddefs.h"
void *malloc(size_t);
void *calloc(size_t, size_t);
void *realloc(void *, size_t);
void free(void *);
void exit(int) __attribute__((noreturn));
void abort(void) __attribute__((noreturn));
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#endif
