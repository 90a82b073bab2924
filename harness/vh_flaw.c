/* Generators with one gross flaw each, for end-to-end runs of the batteries. */
#include "smokerand/cinterface.h"
PRNG_CMODULE_PROLOG
typedef struct { uint64_t s, n; int kind; } FlawState;
static uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t word(FlawState *g)
{
    uint64_t n = g->n++;
    switch (g->kind) {
    case 'c': return 0;
    case 'o': return UINT64_MAX;
    case 'n': return (g->s + n) * 0x100000001ull;
    case 'a': return (n & 1) ? UINT64_MAX : 0;
    case 'b': return mix(g->s + 2 * n) & mix(g->s + 2 * n + 1);
    case 'p': return mix(g->s + n % 1000);
    case 'l': g->s = (g->s * 69069 + 12345) & 0xFFFFFFFF; return g->s << 32 | g->s;
    case 'k': return mix(g->s + n) & 0xFF00FF00FF00FF00ull;
    default:  return mix(mix(g->s) ^ (n * 0xD1342543DE82EF95ull));
    }
}
#ifdef FLAW32
static uint64_t get_bits_raw(FlawState *g) { return word(g) >> 32; }
#define NB 32
#else
static uint64_t get_bits_raw(FlawState *g) { return word(g); }
#define NB 64
#endif
static void *create(const CallerAPI *intf)
{
    FlawState *g = intf->malloc(sizeof *g);
    const char *p = intf->get_param();
    g->s = intf->get_seed64(); g->n = 0; g->kind = p ? p[0] : 'i';
    return g;
}
static int run_self_test(const CallerAPI *intf) { (void) intf; return 1; }
#if NB == 32
MAKE_UINT32_PRNG("flaw32", run_self_test)
#else
MAKE_UINT64_PRNG("flaw64", run_self_test)
#endif
