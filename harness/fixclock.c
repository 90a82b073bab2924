/* Linked into a program: time() returns VH_TIME when it is set; the n-th call of clock() returns n * VH_CLKSTEP
   microseconds when that is set. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>

time_t time(time_t *out)
{
    const char *v = getenv("VH_TIME");
    struct timeval tv;
    gettimeofday(&tv, NULL);
    time_t t = v ? (time_t) strtoull(v, NULL, 10) : tv.tv_sec;
    if (out) *out = t;
    return t;
}

clock_t clock(void)
{
    static long n;
    const char *v = getenv("VH_CLKSTEP");
    struct timespec ts;
    if (v) return (clock_t) (++n * strtol(v, NULL, 10));
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return (clock_t) (ts.tv_sec * 1000000L + ts.tv_nsec / 1000);
}
