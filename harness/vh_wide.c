/* Generator plugin declared as 32-bit; from call VW_AT on (one word, or all words when VW_ALL is set) it returns VW_HI
   (hexadecimal) in the bits 32..63. */
#include "smokerand/apidefs.h"
#include <stdlib.h>
typedef struct { uint64_t x, n, at, hi; int all; } St;
static void *create(const GeneratorInfo *gi, const CallerAPI *intf)
{
    St *s = intf->malloc(sizeof(St));
    const char *a = getenv("VW_AT"), *h = getenv("VW_HI");
    (void) gi;
    s->x = intf->get_seed64(); s->n = 0;
    s->at = a ? strtoull(a, NULL, 10) : 0; s->hi = h ? strtoull(h, NULL, 16) : 0; s->all = getenv("VW_ALL") != NULL;
    return s;
}
static void gfree(void *s, const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; intf->free(s); }
static uint64_t get_bits(void *state)
{
    St *s = state;
    uint64_t z = (s->x += 0x9E3779B97F4A7C15ull), k = s->n++;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return (z >> 32) | ((s->all ? k >= s->at : k == s->at) ? s->hi << 32 : 0);
}
int gen_getinfo(GeneratorInfo *gi, const CallerAPI *intf);
int gen_getinfo(GeneratorInfo *gi, const CallerAPI *intf)
{
    (void) intf;
    gi->name = "wide"; gi->description = "wide words"; gi->nbits = 32; gi->create = create; gi->free = gfree;
    gi->get_bits = get_bits; gi->get_sum = NULL; gi->self_test = NULL; gi->parent = NULL;
    return 1;
}
