#define _GNU_SOURCE
/* Engine-level driver. Runs the real statistical tests on scripted generators and reports what was observed:
 * result record, number of words drawn, outstanding heap blocks, and (optionally) every word drawn.
 *
 * stdin, one case per line: id engine nbits gen seed ram maxwords trace opts...
 * stdout per case: BEGIN id / RES id x p alpha penalty nwords outstanding name            */
#include "smokerand/core.h"
#include "smokerand/coretests.h"
#include "smokerand/extratests.h"
#include "smokerand/hwtests.h"
#include "smokerand/lineardep.h"
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

/* ---- heap accounting (link with -Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc,--wrap=aligned_alloc) ---- */
static long outstanding = 0;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *); void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
static long failat = 0;
static int fail_now(void) { return failat > 0 && --failat == 0; }
void *__wrap_malloc(size_t n) { if (fail_now()) return NULL; void *p = __real_malloc(n); if (p) outstanding++; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (fail_now()) return NULL; void *p = __real_calloc(a, b); if (p) outstanding++; return p; }
void __wrap_free(void *p) { if (p) outstanding--; __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { void *q = __real_realloc(p, n); if (!p && q) outstanding++; return q; }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (fail_now()) return NULL; void *p = __real_aligned_alloc(a, n); if (p) outstanding++; return p; }

typedef struct {
    char kind[24];
    uint64_t s, par, idx, nwords, maxwords, mask;
    unsigned nbits;
    uint64_t *buf; size_t buflen;
    uint64_t idx16; uint16_t h16[2048];
    FILE *tr;
} G;

static uint64_t mix(uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    z = (z ^ (z >> 32)) * 0xd6e8feb86659fd93ull;
    return z ^ (z >> 32);
}
static uint64_t rnd(G *g) { return mix(mix(g->s) + (++g->idx) * 0x9E3779B97F4A7C15ull); }

static FILE *proto; /* protocol channel; the real stdout belongs to the code under test */
static uint64_t produce(G *g)
{
    const char *k = g->kind;
    switch (k[0]) {
    case 'i': return rnd(g);                                             /* ideal */
    case 'c': return g->s;                                               /* const */
    case 'n': return g->idx++ * g->par + g->s;                           /* n-counter */
    case 'm': return rnd(g) & g->par;                                    /* masked (low entropy) */
    case 'o': return rnd(g) | g->par;                                    /* or-ed (stuck ones) */
    case 'p': { uint64_t r = mix(mix(g->s) + (g->idx % g->par + 1) * 0x9E3779B97F4A7C15ull); g->idx++; return r; } /* periodic */
    case 'a': return (g->idx++ & 1) ? UINT64_MAX : 0;                    /* alternating */
    case 'b': { uint64_t r = rnd(g); return r & rnd(g); }                /* biased to zero */
    case 'B': { uint64_t r = rnd(g); return r | rnd(g); }                /* biased to one */
    case 'x': {                                                          /* boundary values */
        uint64_t r = rnd(g), sh = (r >> 8) % g->nbits, v = 1ull << sh;
        switch (r & 7) { case 0: return v; case 1: return v - 1; case 2: return v + 1; case 3: return 0; case 4: return UINT64_MAX;
            case 5: return ~v; case 6: return UINT64_MAX << sh; default: return rnd(g); } }
    case 'l': g->s = g->s * 6364136223846793005ull + (g->par | 1); return (g->nbits == 32) ? g->s & 0xFFFFFFFF : g->s; /* LCG, weak low bits */
    case 'f': return g->buf[g->idx++ % g->buflen];                       /* file */
    case 't': return (rnd(g) % g->par == 0) ? rnd(g) : g->s;             /* rarely different */
    case 'z': return rnd(g) << g->par;                                   /* low bits always zero */
    case 'y': return (mix(g->s) + ++g->idx) << g->par;                   /* all different, low bits zero */
    case 'd': { uint64_t i = g->idx++; return (mix(g->s) + (i % g->par)) << 40; } /* every value once per `par` draws */
    case 's': return (rnd(g) % 3) ? rnd(g) & 0xFFFF : 0;                 /* many zeros */
    case 'e': {                                                          /* words close to a threshold */
        uint64_t r = rnd(g), off = g->nbits == 32 ? 5 + (r >> 8) % 250 : 5000 + (r >> 8) % (1 << 22);
        return (r & 3) == 0 ? rnd(g) : (r & 4) ? g->par + off : g->par - off; }
    case 'g': {                                                          /* 16-bit words with structure at one distance */
        uint64_t r = 0;
        for (unsigned j = 0; j < g->nbits; j += 16) {
            uint64_t n = g->idx16++, v = rnd(g) >> 20 & 0xFFFF;
#define EV(d) (mix(mix(g->s ^ 77) + (n - (d)) * 0x9E3779B97F4A7C15ull) % 1250 == 0)
#define H(d) g->h16[(n - (d)) & 2047]
            if (n > 2048) {
                if (g->par == 1 && H(500) == 0) v = H(423);                /* a repeat after a zero */
                if (g->par == 2 && EV(300)) v = 0;
                if (g->par == 2 && EV(600)) v = H(600);                    /* gaps with a zero inside */
                if (g->par == 3 && mix(n + g->s) % 330 == 0) v = H(1237);  /* excess of one gap length */
            }
            g->h16[n & 2047] = (uint16_t) v;
            r |= v << j;
        }
        return r; }
    default: fprintf(stderr, "bad generator\n"); exit(77);
    }
}

static uint64_t g_bits(void *st)
{
    G *g = st;
    uint64_t u = produce(g) & g->mask;
    if (++g->nwords > g->maxwords) { fprintf(proto, "TOOMANY\n"); fflush(proto); fflush(stdout); if (g->tr) fclose(g->tr); _exit(88); }
    if (g->tr) {
        if (g->nbits == 32) { uint32_t v = (uint32_t) u; fwrite(&v, 4, 1, g->tr); }
        else fwrite(&u, 8, 1, g->tr);
    }
    return u;
}

/* Random-looking sequence of period 2^par: for engines that draw billions of words */
static uint64_t g_bits_fast(void *st)
{
    G *g = st;
    uint64_t z = (g->s + (g->nwords & ((1ull << g->par) - 1))) * 0x9E3779B97F4A7C15ull;
    if (++g->nwords > g->maxwords) { fprintf(proto, "TOOMANY\n"); fflush(proto); fflush(stdout); _exit(88); }
    z = (z ^ (z >> 32)) * 0xd6e8feb86659fd93ull;
    z ^= z >> 29;
    if (g->kind[0] == 'Q') z |= (z >> 1) | (z << 3);                      /* strongly biased to ones */
    return z & g->mask;
}

static G *cur_g;
static void *h_create(const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; (void) intf; return cur_g; }
static void h_free(void *st, const GeneratorInfo *gi, const CallerAPI *intf) { (void) st; (void) gi; (void) intf; }

static char scratch[8192];
static unsigned long printed;
static FILE *textlog;
static char capture[1 << 20]; static size_t caplen; static int want_log; /* text printed by the running case (VH_LOG) */
static int h_printf(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(scratch, sizeof scratch, fmt, ap);
    va_end(ap);
    printed += (unsigned long) n;
    if (textlog) fputs(scratch, textlog);
    if (caplen + (size_t) n < sizeof capture - 1) { memcpy(capture + caplen, scratch, (size_t) n); caplen += (size_t) n; }
    return n;
}
static long long ram_bytes;
static int h_ram(RamInfo *info) { info->phys_total_nbytes = ram_bytes; info->phys_avail_nbytes = ram_bytes; return ram_bytes > 0; }
static uint64_t h_seed64(void) { return 0x123456789ABCDEFull; }
static uint32_t h_seed32(void) { return 0x1234567u; }
static const char *h_param(void) { return ""; }

static unsigned long long U(char **o, int i) { return strtoull(o[i], NULL, 0); }
static long I(char **o, int i) { return strtol(o[i], NULL, 0); }

int main(int argc, char **argv)
{
    static char line[8192];
    proto = fdopen(dup(1), "w");
    if (!freopen(getenv("VH_STDOUT") ? getenv("VH_STDOUT") : "/dev/null", "w", stdout)) exit(77);
    want_log = getenv("VH_LOG") != NULL;
    if (getenv("VH_TEXT")) textlog = fopen(getenv("VH_TEXT"), "w");
    (void) argc; (void) argv;
    CallerAPI intf = CallerAPI_init();
    intf.printf = h_printf; intf.get_ram_info = h_ram; intf.get_seed64 = h_seed64; intf.get_seed32 = h_seed32; intf.get_param = h_param;
    while (fgets(line, sizeof line, stdin)) {
        char *tok[40]; int nt = 0;
        for (char *p = strtok(line, " \n"); p && nt < 40; p = strtok(NULL, " \n")) tok[nt++] = p;
        if (nt < 8) continue;
        const char *id = tok[0], *eng = tok[1];
        G g; memset(&g, 0, sizeof g);
        g.nbits = (unsigned) atoi(tok[2]);
        g.mask = g.nbits == 64 ? UINT64_MAX : 0xFFFFFFFFull;
        char *colon = strchr(tok[3], ':');
        if (colon) *colon = 0;
        snprintf(g.kind, sizeof g.kind, "%s", tok[3]);
        if (colon && g.kind[0] == 'f') {
            FILE *f = fopen(colon + 1, "rb");
            if (!f) { fprintf(stderr, "no file\n"); exit(77); }
            fseek(f, 0, SEEK_END); long sz = ftell(f); fseek(f, 0, SEEK_SET);
            g.buflen = (size_t) sz / 8; g.buf = __real_malloc((size_t) sz + 8);
            if (fread(g.buf, 8, g.buflen, f) != g.buflen) exit(77);
            fclose(f);
        } else if (colon) g.par = strtoull(colon + 1, NULL, 0);
        g.s = strtoull(tok[4], NULL, 0);
        ram_bytes = strtoll(tok[5], NULL, 0);
        g.maxwords = strtoull(tok[6], NULL, 0);
        char tb[1 << 16];
        if (strcmp(tok[7], "-")) { g.tr = fopen(tok[7], "wb"); setvbuf(g.tr, tb, _IOFBF, sizeof tb); }
        char **o = tok + 8;
        int no = nt - 8;
        GeneratorInfo gi; memset(&gi, 0, sizeof gi);
        gi.name = "scripted"; gi.nbits = g.nbits; gi.get_bits = (g.kind[0] == 'N' || g.kind[0] == 'Q') ? g_bits_fast : g_bits;
        GeneratorState st = {.gi = &gi, .state = &g, .intf = &intf};
        TestResults r;
        fprintf(proto, "BEGIN %s\n", id); fflush(proto); cur_g = &g; caplen = 0;
        if (textlog) { fprintf(textlog, "@@ %s\n", id); }
        if (getenv("VH_FAILAT")) failat = atol(getenv("VH_FAILAT"));
        long before = outstanding;
        if (!strcmp(eng, "monobit") && no >= 1) { MonobitFreqOptions p = {U(o, 0)}; r = monobit_freq_test(&st, &p); }
        else if (!strcmp(eng, "nbitwords") && no >= 3) { NBitWordsFreqOptions p = {(unsigned) U(o, 0), (unsigned) U(o, 1), U(o, 2)}; r = nbit_words_freq_test(&st, &p); }
        else if (!strcmp(eng, "bytefreq")) r = byte_freq_test(&st);
        else if (!strcmp(eng, "word16")) r = word16_freq_test(&st);
        else if (!strcmp(eng, "bspace") && no >= 4) { BSpaceNDOptions p = {.nbits_per_dim = U(o, 0), .ndims = U(o, 1), .nsamples = U(o, 2), .get_lower = I(o, 3)}; r = bspace_nd_test(&st, &p); }
        else if (!strcmp(eng, "bspacedec") && no >= 1) r = bspace4_8d_decimated_test(&st, U(o, 0));
        else if (!strcmp(eng, "collover") && no >= 5) { CollOverNDOptions p = {.nbits_per_dim = U(o, 0), .ndims = U(o, 1), .nsamples = U(o, 2), .n = U(o, 3), .get_lower = I(o, 4)}; r = collisionover_test(&st, &p); }
        else if (!strcmp(eng, "gap") && no >= 2) { GapOptions p = {.shl = U(o, 0), .ngaps = U(o, 1)}; r = gap_test(&st, &p); }
        else if (!strcmp(eng, "gap16") && no >= 1) r = gap16_count0_test(&st, U(o, 0));
        else if (!strcmp(eng, "sumcoll") && no >= 1) { SumCollectorOptions p = {U(o, 0)}; r = sumcollector_test(&st, &p); }
        else if (!strcmp(eng, "mod3") && no >= 1) { Mod3Options p = {U(o, 0)}; r = mod3_test(&st, &p); }
        else if (!strcmp(eng, "hamming_ot") && no >= 2) { HammingOtOptions p = {.nbytes = U(o, 0), .mode = (HammingOtMode) U(o, 1)}; r = hamming_ot_test(&st, &p); }
        else if (!strcmp(eng, "hamming_ot_long") && no >= 2) { HammingOtLongOptions p = {.nvalues = U(o, 0), .wordsize = (HammingOtWordSize) U(o, 1)}; r = hamming_ot_long_test(&st, &p); }
        else if (!strcmp(eng, "hamming_distr") && no >= 2) { HammingDistrOptions p = {.nvalues = U(o, 0), .nlevels = (int) I(o, 1)}; r = hamming_distr_test(&st, &p); }
        else if (!strcmp(eng, "linearcomp") && no >= 2) { LinearCompOptions p = {.nbits = U(o, 0), .bitpos = (int) I(o, 1)}; r = linearcomp_test(&st, &p); }
        else if (!strcmp(eng, "matrixrank") && no >= 2) { MatrixRankOptions p = {.n = U(o, 0), .max_nbits = U(o, 1)}; r = matrixrank_test(&st, &p); }
        else if (!strcmp(eng, "birthday") && no >= 2) { BirthdayOptions p = {.n = U(o, 0), .e = U(o, 1)}; r = birthday_test(&st, &p); }
        else if (!strcmp(eng, "ising") && no >= 3) { Ising2DOptions p = {.algorithm = U(o, 0) ? ISING_METROPOLIS : ISING_WOLFF, .sample_len = U(o, 1), .nsamples = U(o, 2)}; r = ising2d_test(&st, &p); }
        else if (!strcmp(eng, "usphere") && no >= 2) { UnitSphereOptions p = {.ndims = U(o, 0), .npoints = U(o, 1)}; r = unit_sphere_volume_test(&st, &p); }
        else if (!strcmp(eng, "bat_birthday") || !strcmp(eng, "bat_freq")) {
            gi.create = h_create; gi.free = h_free;
            memset(&r, 0, sizeof r); r.name = eng;
            r.x = (double) (eng[4] == 'b' ? battery_birthday(&gi, &intf) : battery_blockfreq(&gi, &intf));
        }
        else { fprintf(stderr, "bad case %s %s\n", id, eng); exit(77); }
        failat = 0;
        long leak = outstanding - before;
        if (g.tr) fclose(g.tr);
        if (want_log) { capture[caplen] = 0; for (char *q = strtok(capture, "\n\r"); q; q = strtok(NULL, "\n\r")) fprintf(proto, "LOG %s\n", q); }
        fprintf(proto, "RES %s %a %a %a %a %llu %ld %s\n", id, r.x, r.p, r.alpha, r.penalty, (unsigned long long) g.nwords, leak, r.name ? r.name : "(null)");
        fflush(proto); fflush(stdout);
        if (g.buf) __real_free(g.buf);
    }
    return 0;
}
