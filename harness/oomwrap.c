/* Linked into the CLI with -Wl,--wrap: the OOM_K-th memory request of at least OOM_MIN bytes made by SmokeRand's own code fails
 * (with OOM_REST all later ones, too). At exit the number of such requests is written to OOM_COUNT. */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static long k_ = -2, n_, min_, rest_;
static void rep(void)
{
    const char *f = getenv("OOM_COUNT");
    FILE *o = f ? fopen(f, "w") : NULL;
    if (o) { fprintf(o, "%ld %d\n", n_, k_ > 0 && n_ >= k_); fclose(o); }
}
static int fails(size_t sz)
{
    if (k_ == -2) {
        const char *e = getenv("OOM_K"), *m = getenv("OOM_MIN");
        k_ = e ? atol(e) : -1; min_ = m ? atol(m) : 1; rest_ = getenv("OOM_REST") != NULL;
        atexit(rep);
    }
    if ((long) sz < min_) return 0;
    long n = __atomic_add_fetch(&n_, 1, __ATOMIC_SEQ_CST);
    return n == k_ || (rest_ && k_ > 0 && n > k_);
}
void *__wrap_malloc(size_t s) { return fails(s) ? NULL : __real_malloc(s); }
void *__wrap_calloc(size_t a, size_t b) { return fails(a * b) ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t s) { return fails(s) ? NULL : __real_realloc(p, s); }
