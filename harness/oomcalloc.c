/* Fails exactly those calloc requests of n elements of 8 bytes that are at least OOM_MIN bytes and not the 65536-entry tables. */
#include <stdlib.h>
#include <stddef.h>
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t a, size_t b)
{
    const char *e = getenv("OOM_MIN");
    if (e && a * b == strtoull(e, NULL, 10)) return NULL;
    return __real_calloc(a, b);
}
