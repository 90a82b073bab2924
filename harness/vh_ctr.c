/* Finds the block counter inside the state of a counter-mode plugin by observation, and shows the outputs around its overflow.
 *   argv: plugin parameter;  stdin: seeds in hexadecimal.
 * A word of the state is taken for a counter when it grows by a constant between blocks, and when increasing it in a young instance gives exactly
 * the outputs that another instance gives after running that far. Answers: "NONE", or
 *   CTR P=outputs per block d=increment words=..        B32 X w w w ...   (outputs from position X on)      B64 X(hex) w w ... */
#define _GNU_SOURCE
#include "smokerand/apidefs.h"
#include <dlfcn.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned __int128 u128;
static uint64_t list[4096]; static size_t nlist, iseed; static const char *param; static GeneratorInfo gi;
static struct { unsigned char *p; size_t n; } blk[64]; static int nblk;
static uint64_t seed64(void) { uint64_t s = list[iseed % nlist]; iseed++; return s; }
static uint32_t seed32(void) { return (uint32_t) (seed64() >> 32); }
static const char *get_param(void) { return param; }
static void *xmalloc(size_t n) { void *p = calloc(1, n + 64); if (nblk < 64) { blk[nblk].p = p; blk[nblk++].n = n; } return p; }
static void xfree(void *p) { (void) p; }
static int xprintf(const char *f, ...) { (void) f; return 0; }
static int ram(RamInfo *r) { r->phys_total_nbytes = 8ll << 30; r->phys_avail_nbytes = 4ll << 30; return 1; }
static CallerAPI api = {seed32, seed64, get_param, xmalloc, xfree, xprintf, snprintf, strcmp, ram};
static void *mk(void) { iseed = 0; nblk = 0; void *s = gi.create(&gi, &api); if (!s) { puts("NULL"); exit(0); } return s; }
static void skip(void *s, uint64_t n) { while (n--) gi.get_bits(s); }
static size_t total(void) { size_t t = 0; for (int i = 0; i < nblk; i++) t += blk[i].n / 4; return t; }
static uint32_t *word(size_t k) { for (int i = 0; i < nblk; i++) { if (k < blk[i].n / 4) return (uint32_t *) (void *) blk[i].p + k; k -= blk[i].n / 4; } abort(); }
static void bad(int s) { (void) s; puts("NONE"); fflush(stdout); _Exit(0); }
#define S 300
#define W0 4
int main(int argc, char **argv)
{
    static uint32_t snap[S + 1][4096]; static size_t L[4096]; size_t nl; uint64_t v;
    if (argc < 3) return 77;
    param = argv[2]; while (scanf("%llx", (unsigned long long *) &v) == 1 && nlist < 4096) list[nlist++] = v;
    void *lib = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL); if (!lib) { fprintf(stderr, "%s\n", dlerror()); return 77; }
    GetGenInfoFunc gg; void *p = dlsym(lib, "gen_getinfo"); memcpy(&gg, &p, sizeof p); if (!gg(&gi, &api)) { puts("NULL"); return 0; }
    signal(SIGSEGV, bad); signal(SIGBUS, bad); signal(SIGABRT, bad); signal(SIGFPE, bad);
    for (uint64_t P = 1; P <= 1024; P *= 2) {
        void *s = mk(); size_t nw = total(); if (nw > 4096) break;
        skip(s, W0 * P);
        for (int i = 0; i <= S; i++) { for (size_t k = 0; k < nw; k++) snap[i][k] = *word(k); skip(s, P); }
        uint32_t d = 0; nl = 0;
        for (size_t k = 0; k < nw; k++) {
            uint32_t e = snap[1][k] - snap[0][k]; int lin = e != 0 && e <= 4096 && snap[0][k] < (1u << 20);
            for (int i = 1; i < S && lin; i++) lin = snap[i + 1][k] - snap[i][k] == e;
            if (!lin) continue;
            if (d && e != d) { d = 0; nl = 0; break; }
            d = e; L[nl++] = k;
        }
        if (!nl) continue;
        int ok = 1;                                     /* does moving the words move the stream? */
        static const uint64_t tryM[] = {3, 1000, 70001};
        for (int t = 0; t < 3 && ok; t++) {
            uint64_t a[64], M = tryM[t];
            s = mk(); skip(s, (W0 + 1 + M) * P); for (int i = 0; i < 64; i++) a[i] = gi.get_bits(s);
            s = mk(); skip(s, W0 * P); for (size_t k = 0; k < nl; k++) *word(L[k]) += (uint32_t) (d * M);
            skip(s, P); for (int i = 0; i < 64; i++) if (a[i] != gi.get_bits(s)) { ok = 0; break; }
        }
        if (!ok) continue;
        printf("CTR P=%llu d=%u words=%zu\n", (unsigned long long) P, d, nl);
        uint32_t mx = 0; int wide = 1;
        for (size_t k = 0; k < nl; k++) {
            if (snap[0][L[k]] > mx) mx = snap[0][L[k]];
            if (L[k] + 1 >= nw) wide = 0; else for (int i = 0; i <= S; i++) if (snap[i][L[k] + 1]) wide = 0;
        }
        uint64_t M = (0xFFFFFFFFu - mx) / d - 2;
        s = mk(); skip(s, W0 * P); for (size_t k = 0; k < nl; k++) *word(L[k]) += (uint32_t) (d * M);
        skip(s, P); printf("B32 %llx", (unsigned long long) ((W0 + 1 + M) * P)); for (uint64_t i = 0; i < 8 * P + 16; i++) printf(" %llx", (unsigned long long) gi.get_bits(s));
        puts("");
        if (wide) {
            M = (0xFFFFFFFFFFFFFFFFull - mx) / d - 2; u128 X = ((u128) W0 + 1 + M) * P;
            s = mk(); skip(s, W0 * P); for (size_t k = 0; k < nl; k++) { uint64_t u; memcpy(&u, word(L[k]), 8); u += d * M; memcpy(word(L[k]), &u, 8); }
            skip(s, P); printf("B64 %llx%016llx", (unsigned long long) (X >> 64), (unsigned long long) X); for (uint64_t i = 0; i < 8 * P + 16; i++) printf(" %llx", (unsigned long long) gi.get_bits(s));
            puts("");
        }
        return 0;
    }
    puts("NONE"); return 0;
}
