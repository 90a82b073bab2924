/* Concurrent drawing of seeds through the library's thread-safe API.
 * vh_seeds SEED NTHREADS NDRAWS MODE    MODE 64 | 32 | mix | 1 (single-threaded API, NTHREADS ignored)
 * prints one line per thread: ord list-of-seeds (w:hex) */
#include "smokerand/core.h"
#include "smokerand/threads_intf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct { unsigned ord; unsigned long n; int mode; uint64_t *v; unsigned char *w; } Job;
static Job jobs[300];
static CallerAPI api;
static void draw(Job *j)
{
    uint64_t h = j->ord * 0x9E3779B97F4A7C15ull;
    for (unsigned long i = 0; i < j->n; i++) {
        h ^= h << 13; h ^= h >> 7; h ^= h << 17;
        int w32 = j->mode == 32 || (j->mode == 2 && (h >> 40 & 1));
        j->v[i] = w32 ? api.get_seed32() : api.get_seed64();
        j->w[i] = (unsigned char) w32;
    }
}
static ThreadRetVal THREADFUNC_SPEC body(void *u)
{
    (void) u;
    ThreadObj t = ThreadObj_current();
    if (t.ord < 1 || t.ord >= 300) { fprintf(stderr, "BADORD %u\n", t.ord); exit(79); }
    draw(&jobs[t.ord]);
    return 0;
}
int main(int argc, char **argv)
{
    if (argc < 5) return 77;
    const char *s = argv[1];
    unsigned nth = (unsigned) atoi(argv[2]);
    if (s[0] == '_' && strlen(s) > 5) { if (!set_entropy_base64_seed(s + 4)) return 3; } else set_entropy_textseed(s);
    int mode = !strcmp(argv[4], "64") ? 64 : !strcmp(argv[4], "32") ? 32 : 2;
    int single = argc > 5;
    if (single) nth = 1;
    api = single ? CallerAPI_init() : CallerAPI_init_mthr();
    for (unsigned i = 1; i <= nth; i++) {
        jobs[i].ord = i; jobs[i].n = strtoul(argv[3], NULL, 10); jobs[i].mode = mode;
        jobs[i].v = calloc(jobs[i].n + 1, 8); jobs[i].w = calloc(jobs[i].n + 1, 1);
    }
    if (single) draw(&jobs[1]);
    else {
        init_thread_dispatcher();
        ThreadObj *t = calloc(nth, sizeof *t);
        for (unsigned i = 0; i < nth; i++) t[i] = ThreadObj_create(body, NULL, i + 1);
        for (unsigned i = 0; i < nth; i++) ThreadObj_wait(&t[i]);
        free(t);
    }
    for (unsigned i = 1; i <= nth; i++) {
        printf("%u", i);
        for (unsigned long k = 0; k < jobs[i].n; k++) printf(" %s:%llx", jobs[i].w[k] ? "32" : "64", (unsigned long long) jobs[i].v[k]);
        printf("\n");
        free(jobs[i].v); free(jobs[i].w);
    }
    CallerAPI_free();
    return 0;
}
