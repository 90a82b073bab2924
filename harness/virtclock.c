/* LD_PRELOAD processor clock for the speed measurements: clock() advances by the virtual time the plugins of vh_slow.c
   have added since the previous call, or, if they added none, by the CPU time really used. VH_CLOCKLOG gets one line
   with the plugins' event counts when the process ends. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
static double added, virt;
static long last, ncreate, nfree, nmore, ncalls, nlive;
static long cpu_us(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000L + ts.tv_nsec / 1000;
}
void vh_clk_add(double ns) { added += ns; ncalls++; }
void vh_clk_event(int c)
{
    if (c == 'c') { ncreate++; nlive++; }
    if (c == 'f') { nfree++; nlive--; }
    if (c == 'x') nmore++;          /* use of a dead instance */
}
clock_t clock(void)
{
    long r = cpu_us();
    if (added > 0) virt += added * 1e-3; else virt += (double) (r - last);
    added = 0; last = r;
    return (clock_t) virt;
}
__attribute__((destructor)) static void fin(void)
{
    const char *f = getenv("VH_CLOCKLOG");
    FILE *h = f ? fopen(f, "a") : NULL;
    if (h) { fprintf(h, "create=%ld free=%ld dead=%ld live=%ld calls=%ld\n", ncreate, nfree, nmore, nlive, ncalls); fclose(h); }
}
