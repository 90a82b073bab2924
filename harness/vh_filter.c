/* Output filters driven through the public API over scripted parent generators.
 * Commands:  W file nbits            - the parent's words (8 bytes each)
 *            N id filters start      - instance `id` of the stack of filters (letters r i h l, applied in this order) reading from word `start`
 *            G id n                  - n outputs, hexadecimal, one line
 *            C id                    - number of parent words consumed, output size, names
 *            F id                    - destroys it */
#include "smokerand/core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct { size_t pos; int live; const GeneratorInfo *gi; const CallerAPI *intf; } Parent;
typedef struct { GeneratorInfo gi[6]; int n; void *state; Parent *parent; } Inst;
static uint64_t *w; static size_t nw; static unsigned nbits_; static size_t next_start; static Parent *last;
static Inst inst[256];
static CallerAPI api;
static long nalloc;
static void *xmalloc(size_t n) { nalloc++; return malloc(n); }
static void xfree(void *p) { if (p) nalloc--; free(p); }

static void *create(const GeneratorInfo *gi, const CallerAPI *intf)
{
    Parent *p = calloc(1, sizeof *p); p->pos = next_start; p->live = 1; p->gi = gi; p->intf = intf; last = p; return p;
}
static void destroy(void *state, const GeneratorInfo *gi, const CallerAPI *intf)
{
    Parent *p = state;
    if (!p->live || p->gi != gi || p->intf != intf) { printf("BADFREE\n"); fflush(stdout); exit(79); }
    p->live = 0;   /* kept: its counter is read afterwards */
}
static uint64_t get_bits(void *state)
{
    Parent *p = state;
    if (!p->live) { printf("BADUSE\n"); fflush(stdout); exit(79); }
    return w[p->pos++ % nw];
}
int main(void)
{
    static char line[4096]; char f[400], fl[64]; int id; unsigned long n;
    api = CallerAPI_init(); api.malloc = xmalloc; api.free = xfree;
    while (fgets(line, sizeof line, stdin)) {
        if (sscanf(line, "W %399s %u", f, &nbits_) == 2) {
            FILE *fp = fopen(f, "rb"); fseek(fp, 0, SEEK_END); nw = (size_t) ftell(fp) / 8; rewind(fp);
            w = realloc(w, nw * 8); if (fread(w, 8, nw, fp) != nw) exit(77); fclose(fp);
        } else if (sscanf(line, "N %d %63s %lu", &id, fl, &n) == 3) {
            Inst *o = &inst[id]; memset(o, 0, sizeof *o); next_start = n;
            o->gi[0] = (GeneratorInfo) {.name = "scripted", .description = "d", .nbits = nbits_, .create = create, .free = destroy, .get_bits = get_bits, .get_sum = NULL, .self_test = NULL, .parent = NULL};
            for (const char *q = fl; *q; q++) {
                const GeneratorInfo *g = &o->gi[o->n++];
                o->gi[o->n] = *q == 'r' ? define_reversed_generator(g) : *q == 'i' ? define_interleaved_generator(g) : *q == 'h' ? define_high32_generator(g) : define_low32_generator(g);
            }
            o->state = o->gi[o->n].create(&o->gi[o->n], &api); o->parent = last;
            if (!o->state) exit(77);
        } else if (sscanf(line, "G %d %lu", &id, &n) == 2) {
            Inst *o = &inst[id]; putchar('V');
            for (unsigned long i = 0; i < n; i++) printf(" %llx", (unsigned long long) o->gi[o->n].get_bits(o->state));
            putchar('\n');
        } else if (sscanf(line, "C %d", &id) == 1) {
            Inst *o = &inst[id]; printf("C %lu %u %s %s\n", (unsigned long) o->parent->pos, (unsigned) o->gi[o->n].nbits, o->gi[o->n].name, o->n ? o->gi[o->n].parent->name : "-");
        } else if (sscanf(line, "F %d", &id) == 1) {
            Inst *o = &inst[id]; o->gi[o->n].free(o->state, &o->gi[o->n], &api);
            if (o->parent->live) printf("STILL\n");
            free(o->parent); printf("F %ld\n", nalloc);
        } else exit(77);
        fflush(stdout);
    }
    return 0;
}
