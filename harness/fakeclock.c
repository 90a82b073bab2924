/* LD_PRELOAD clock: every call of time() sees the clock jump by VH_CLOCKJUMP seconds.
   The number of calls is appended to VH_CLOCKLOG when the process ends. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long calls;
time_t time(time_t *out)
{
    const char *j = getenv("VH_CLOCKJUMP");
    struct timeval tv;
    gettimeofday(&tv, NULL);
    time_t t = tv.tv_sec + (j ? atol(j) : 0) * __sync_fetch_and_add(&calls, 1);
    if (out) *out = t;
    return t;
}
__attribute__((destructor)) static void fin(void)
{
    const char *f = getenv("VH_CLOCKLOG");
    FILE *h = f ? fopen(f, "a") : NULL;
    if (h) { fprintf(h, "%ld\n", calls); fclose(h); }
}
