/* Generator plugin with a prescribed cost: every word costs VS_D virtual nanoseconds by calls and VS_DS in bulk sums
   (the virtual clock is the LD_PRELOAD library virtclock.c). */
#define _GNU_SOURCE
#include "smokerand/apidefs.h"
#include <dlfcn.h>
#include <stddef.h>

typedef struct { uint64_t magic, n; const CallerAPI *intf; } St;
static void (*add)(double);
static void (*event)(int);

static void *create(const GeneratorInfo *gi, const CallerAPI *intf)
{
    *(void **) &add = dlsym(RTLD_DEFAULT, "vh_clk_add");
    *(void **) &event = dlsym(RTLD_DEFAULT, "vh_clk_event");
    St *s = intf->malloc(sizeof(St));
    (void) gi;
    s->magic = 0x600DF00D; s->n = 1; s->intf = intf;
    if (event) event('c');
    return s;
}
static void gfree(void *state, const GeneratorInfo *gi, const CallerAPI *intf)
{
    St *s = state;
    (void) gi;
    if (event) event(s->magic == 0x600DF00D ? 'f' : 'x');
    s->magic = 0;
    intf->free(s);
}
static uint64_t get_bits(void *state)
{
    St *s = state;
    if (add) add(VS_D);
    if (event && s->magic != 0x600DF00D) event('x');
    s->n = s->n * 6364136223846793005ull + 1442695040888963407ull;
    return VS_NBITS == 32 ? s->n >> 32 : s->n ^ (s->n >> 32);
}
#ifndef VS_NOSUM
static uint64_t get_sum(void *state, size_t len)
{
    St *s = state;
    if (add) add((double) (VS_DS) * (double) len);
    for (volatile size_t i = 0; i < len / (VS_DS < 100 ? 64 : 2); i++) {}     /* real ticks, for the cpB figures */
    if (event && s->magic != 0x600DF00D) event('x');
    return s->n += len;
}
#endif

#ifdef __cplusplus
extern "C"
#endif
int gen_getinfo(GeneratorInfo *gi, const CallerAPI *intf);
int gen_getinfo(GeneratorInfo *gi, const CallerAPI *intf)
{
    (void) intf;
    gi->name = VS_NAME;
    gi->description = "fixed cost";
    gi->nbits = VS_NBITS;
    gi->create = create;
    gi->free = gfree;
    gi->get_bits = get_bits;
    gi->self_test = NULL;
#ifndef VS_NOSUM
    gi->get_sum = get_sum;
#else
    gi->get_sum = NULL;
#endif
    gi->parent = NULL;
    return 1;
}
