/* A stand-alone host for generator plugins (uses nothing of the core library): instrumented allocator, prescribed seeds, command driven.
 *   argv[1] plugin.   Commands (one answer line each):
 *   I                 name|nbits|description?|get_sum?|self_test?
 *   K k               seeds become splitmix64(k, index)        L h h h ...   seeds are this list, then splitmix64(last, ..)
 *   P text            command line parameter (rest of the line)        M hh         fill byte of new memory blocks
 *   N id              creates instance id: "N ok seeds=.. blocks=.. bytes=.." or "N null"
 *   G id n            n outputs: OR of them, a hash, first, last      W id n   n outputs in hexadecimal     D id n file   to a file, 8 bytes each
 *   U id n            get_sum            F id   destroys the instance: "F live=<blocks allocated in all>"
 *   T                 self-test: "T result=.. live=.. lines=.."       H id n k  k threads are not involved: skips n outputs
 *   Q k n             k instances (ids 0..k-1 must exist) run n outputs in k threads at the same time; hashes */
#define _GNU_SOURCE
#include "smokerand/apidefs.h"
#include <dlfcn.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#ifdef VH_MSAN
#include <sanitizer/msan_interface.h>
#endif

#define MAXI 64
static uint64_t list[4096]; static size_t nlist, iseed; static uint64_t skey = 1; static size_t nseeds;
static char param[512]; static int fill = 0xCD; static long live, bytes, lines; static int verbose;
static void *inst[MAXI]; static int made[MAXI];
static GeneratorInfo gi;

static uint64_t sm(uint64_t k, uint64_t i)
{
    uint64_t z = k * 0xD1342543DE82EF95ull + (i + 1) * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
static uint64_t seed64(void) { uint64_t s = iseed < nlist ? list[iseed] : sm(skey, iseed); iseed++; nseeds++; return s; }
static uint32_t seed32(void) { return (uint32_t) (seed64() >> 32); }
static const char *get_param(void) { return param; }
typedef struct Hdr { size_t n; uint64_t magic; } Hdr;
#define MAGIC 0x5AFE0B10C0FFEE11ull
static void die(const char *m) { printf("BAD %s\n", m); fflush(stdout); _Exit(79); }
static void *xmalloc(size_t n)
{
#ifdef VH_ASAN
    unsigned char *p = malloc(n ? n : 1);
#ifndef VH_MSAN
    memset(p, fill, n);
#endif
    live++; bytes += (long) n; return p;
#else
    unsigned char *p = malloc(n + 96); Hdr *h = (Hdr *) (p + 48); h->n = n; h->magic = MAGIC;   /* 16-byte aligned like malloc; 32-byte alignment is not promised */
    memset(p + 64, fill, n); memset(p + 64 + n, 0xA5, 32); live++; bytes += (long) n; return p + 64;
#endif
}
static void xfree(void *q)
{
    if (!q) return;
#ifdef VH_ASAN
    free(q);
#else
    unsigned char *p = q; Hdr *h = (Hdr *) (p - 16);
    if (h->magic != MAGIC) die("freed block was not allocated or was freed before");
    for (int i = 0; i < 32; i++) if (p[h->n + (size_t) i] != 0xA5) die("memory after a block was overwritten");
    h->magic = 0; memset(p, 0xDB, h->n); free(p - 64);
#endif
    live--;
}
static int xprintf(const char *f, ...) { va_list a; va_start(a, f); int r; lines++; if (verbose) r = vfprintf(stderr, f, a); else { char b[4096]; r = vsnprintf(b, sizeof b, f, a); } va_end(a); return r; }
static int ram(RamInfo *r) { r->phys_total_nbytes = 8ll << 30; r->phys_avail_nbytes = 4ll << 30; return 1; }
static CallerAPI api = {seed32, seed64, get_param, xmalloc, xfree, xprintf, snprintf, strcmp, ram};

typedef struct { int id; unsigned long n; uint64_t or_, h, first, last; } Job;
static void *runjob(void *q)
{
    Job *j = q; j->or_ = 0; j->h = 0; j->first = j->last = 0;
    for (unsigned long i = 0; i < j->n; i++) {
        uint64_t u = gi.get_bits(inst[j->id]);
#ifdef VH_MSAN
        __msan_check_mem_is_initialized(&u, sizeof u);
#endif
        if (!i) j->first = u;
        j->last = u; j->or_ |= u; j->h = (j->h ^ u) * 0x9FB21C651E98DF25ull; j->h ^= j->h >> 28;
    }
    return NULL;
}
#define ID if (id < 0 || id >= MAXI || !made[id]) { printf("NOINST\n"); fflush(stdout); continue; }
int main(int argc, char **argv)
{
    static char line[1 << 17]; int id; unsigned long n; char f[500];
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    verbose = getenv("VH_VERBOSE") != NULL;
    void *lib = argc > 1 ? dlopen(argv[1], RTLD_NOW | RTLD_LOCAL) : NULL;
    if (!lib) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 77; }
    GetGenInfoFunc gg; void *p = dlsym(lib, "gen_getinfo"); memcpy(&gg, &p, sizeof p);
    if (!gg) { puts("NOSYM"); return 6; }
    { unsigned char *z = (unsigned char *) &gi; memset(z, 0, sizeof gi); }
    int ready = 0;
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        char c = line[0];
        if (c == 'P') { snprintf(param, sizeof param, "%s", strlen(line) > 2 ? line + 2 : ""); puts("P"); continue; }
        if (c == 'K') { skey = strtoull(line + 2, NULL, 10); nlist = iseed = 0; puts("K"); continue; }
        if (c == 'M') { fill = (int) strtol(line + 2, NULL, 16); puts("M"); continue; }
        if (c == 'L') { char *q = line + 1, *e; nlist = iseed = 0; for (;;) { uint64_t v = strtoull(q, &e, 16); if (e == q || nlist >= 4096) break; list[nlist++] = v; q = e; } puts("L"); continue; }
        if (!ready) { if (!gg(&gi, &api)) { puts("NOINFO"); fflush(stdout); return 5; } ready = 1; }
        if (c == 'I') printf("I %s|%u|%d|%d|%d|%d\n", gi.name ? gi.name : "(null)", gi.nbits, gi.description != NULL, gi.get_sum != NULL, gi.self_test != NULL, gi.parent != NULL);
        else if (sscanf(line, "N %d", &id) == 1) {
            if (id < 0 || id >= MAXI || made[id]) return 77;
            nseeds = 0; long l0 = live, b0 = bytes;
            inst[id] = gi.create(&gi, &api);
            if (inst[id]) { made[id] = 1; printf("N ok seeds=%zu blocks=%ld bytes=%ld\n", nseeds, live - l0, bytes - b0); }
            else printf("N null seeds=%zu blocks=%ld\n", nseeds, live - l0);
        } else if (sscanf(line, "G %d %lu", &id, &n) == 2) { ID
            Job j = {id, n, 0, 0, 0, 0}; runjob(&j);
            printf("G or=%llx hash=%llx first=%llx last=%llx\n", (unsigned long long) j.or_, (unsigned long long) j.h, (unsigned long long) j.first, (unsigned long long) j.last);
        } else if (sscanf(line, "W %d %lu", &id, &n) == 2) { ID
            putchar('W'); for (unsigned long i = 0; i < n; i++) printf(" %llx", (unsigned long long) gi.get_bits(inst[id])); putchar('\n');
        } else if (sscanf(line, "D %d %lu %499s", &id, &n, f) == 3) { ID
            FILE *o = fopen(f, "wb"); for (unsigned long i = 0; i < n; i++) { uint64_t u = gi.get_bits(inst[id]); fwrite(&u, 8, 1, o); } fclose(o); printf("D seeds=%zu\n", nseeds);
        } else if (sscanf(line, "U %d %lu", &id, &n) == 2) { ID
            if (!gi.get_sum) puts("U none"); else printf("U %llx\n", (unsigned long long) gi.get_sum(inst[id], n));
        } else if (sscanf(line, "F %d", &id) == 1) { ID
            gi.free(inst[id], &gi, &api); made[id] = 0; inst[id] = NULL; printf("F live=%ld\n", live);
        } else if (c == 'T') {
            lines = 0; if (!gi.self_test) puts("T none"); else { int r = gi.self_test(&api); printf("T result=%d live=%ld lines=%ld\n", r, live, lines); }
        } else if (sscanf(line, "Q %d %lu", &id, &n) == 2) {
            pthread_t t[MAXI]; Job j[MAXI];
            for (int i = 0; i < id; i++) { j[i].id = i; j[i].n = n; if (!made[i]) return 77; }
            for (int i = 0; i < id; i++) pthread_create(&t[i], NULL, runjob, &j[i]);
            for (int i = 0; i < id; i++) pthread_join(t[i], NULL);
            putchar('Q'); for (int i = 0; i < id; i++) printf(" %llx", (unsigned long long) j[i].h); putchar('\n');
        } else { fprintf(stderr, "bad command %s\n", line); return 77; }
        fflush(stdout);
    }
    return 0;
}
