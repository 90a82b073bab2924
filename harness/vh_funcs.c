/* Value-level driver: one request per line, one answer per line (flushed), real code underneath. */
#include "smokerand/core.h"
#include "smokerand/specfuncs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef unsigned long ul;

static uint64_t sm(uint64_t *s)
{
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static int cmp64(const void *a, const void *b)
{
    uint64_t x = *(const uint64_t *) a, y = *(const uint64_t *) b;
    return (x > y) - (x < y);
}
static int cmp32(const void *a, const void *b)
{
    uint32_t x = *(const uint32_t *) a, y = *(const uint32_t *) b;
    return (x > y) - (x < y);
}

/* Array shapes for sorting workloads. */
/* arrays on which a quicksort that takes the middle / first / last element or the median of the three always gets an extreme pivot */
static const uint64_t *killer(const char *shape, size_t n)
{
    static uint64_t *a; static size_t an; static char what[32];
    if (a && an == n && !strcmp(what, shape)) return a;
    free(a); a = calloc(n, 8); an = n; strcpy(what, shape);
    size_t *ix = malloc(n * sizeof *ix); for (size_t i = 0; i < n; i++) ix[i] = i;
    int max = !strcmp(shape, "killmax");
    if (!strcmp(shape, "killmed3")) {       /* Musser's sequence */
        size_t k = n / 2;
        for (size_t i = 1; i <= k; i++) { if (i & 1) { a[i - 1] = i; if (i < k) a[i] = k + i; } a[k + i - 1] = 2 * i; }
        if (n & 1) a[n - 1] = n;
    } else if (max) {
        for (size_t e = n; e-- > 0; ) { size_t m = e / 2, t = ix[m]; a[t] = e; ix[m] = ix[e]; ix[e] = t; }
    } else {
        for (size_t b = 0; b < n; b++) { size_t m = (b + n - 1) / 2, t = ix[m]; a[t] = b; ix[m] = ix[b]; ix[b] = t; }
    }
    free(ix);
    return a;
}

static uint64_t shaped(const char *shape, size_t i, size_t n, uint64_t *s)
{
    if (!strncmp(shape, "kill", 4)) return killer(shape, n)[i];
    if (!strcmp(shape, "random")) return sm(s);
    if (!strcmp(shape, "sorted")) return (uint64_t) i * 0x1000193ull;
    if (!strcmp(shape, "reverse")) return (uint64_t) (n - i) * 0x100000001B3ull;
    if (!strcmp(shape, "equal")) return 0xDEADBEEFCAFEBABEull;
    if (!strcmp(shape, "two")) return (sm(s) & 1) ? UINT64_MAX : 0;
    if (!strcmp(shape, "few")) return (sm(s) % 5) * 0x0101010101010101ull;
    if (!strcmp(shape, "highbits")) return sm(s) & 0xFFFF000000000000ull;
    if (!strcmp(shape, "lowbits")) return sm(s) & 0xFFFFull;
    if (!strcmp(shape, "mid1")) return sm(s) & 0x00000000FFFF0000ull;
    if (!strcmp(shape, "mid2")) return sm(s) & 0x0000FFFF00000000ull;
    if (!strcmp(shape, "organ")) return (i < n / 2) ? i : n - i;
    if (!strcmp(shape, "saw")) return (i % 17) * 0x10001ull;
    if (!strcmp(shape, "extremes")) { uint64_t r = sm(s) % 4; return r == 0 ? 0 : r == 1 ? UINT64_MAX : r == 2 ? 1ull << 63 : (1ull << 63) - 1; }
    if (!strcmp(shape, "nearsorted")) return (sm(s) % 50 == 0) ? sm(s) : i * 0x10000000001ull;
    if (!strcmp(shape, "onebit")) return 1ull << (sm(s) & 63);
    fprintf(stderr, "bad shape\n"); exit(77);
}

static void do_sort(const char *kind, const char *shape, size_t n, uint64_t seed)
{
    /* Exact-size heap blocks: out-of-range accesses are visible to the sanitizer; guard words catch it otherwise */
    uint64_t s = seed;
    int bad = 0;
    size_t pos = 0;
    if (!strcmp(kind, "radix32")) {
        uint32_t *x = malloc(n * 4), *y = malloc(n * 4);
        for (size_t i = 0; i < n; i++) { uint64_t v = shaped(shape, i, n, &s); x[i] = (uint32_t) (v ^ (v >> 32)); y[i] = x[i]; }
        radixsort32(x, n);
        qsort(y, n, 4, cmp32);
        for (size_t i = 0; i < n; i++) if (x[i] != y[i]) { bad = 1; pos = i; break; }
        free(x); free(y);
    } else {
        uint64_t *x = malloc(n * 8), *y = malloc(n * 8);
        for (size_t i = 0; i < n; i++) { x[i] = shaped(shape, i, n, &s); y[i] = x[i]; }
        if (!strcmp(kind, "radix64")) radixsort64(x, n);
        else if (!strcmp(kind, "quick64")) quicksort64(x, n);
        else if (!strcmp(kind, "fast_low")) { RamInfo r = {1 << 20, 1 << 20}; fastsort64(&r, x, n); }
        else if (!strcmp(kind, "fast_high")) { RamInfo r = {1ll << 40, 1ll << 40}; fastsort64(&r, x, n); }
        else if (!strcmp(kind, "fast_unk")) { RamInfo r = {RAM_SIZE_UNKNOWN, RAM_SIZE_UNKNOWN}; fastsort64(&r, x, n); }
        else { fprintf(stderr, "bad sort\n"); exit(77); }
        qsort(y, n, 8, cmp64);
        for (size_t i = 0; i < n; i++) if (x[i] != y[i]) { bad = 1; pos = i; break; }
        free(x); free(y);
    }
    printf("%s %zu\n", bad ? "BAD" : "SORTED", pos);
}

int main(void)
{
    static char line[4096];
    while (fgets(line, sizeof line, stdin)) {
        char name[64], a1[64] = "0", a2[64] = "0", a3[64] = "0", a4[64] = "0";
        int n = sscanf(line, "%63s %63s %63s %63s %63s", name, a1, a2, a3, a4);
        if (n < 1) continue;
        double x = strtod(a1, NULL), y = strtod(a2, NULL), z = strtod(a3, NULL);
        ul ky = strtoul(a2, NULL, 10);
        double r = 0;
        if (!strcmp(name, "sort")) { do_sort(a1, a2, strtoul(a3, NULL, 10), strtoull(a4, NULL, 10)); fflush(stdout); continue; }
        else if (!strcmp(name, "expm1")) r = sr_expm1(x);
        else if (!strcmp(name, "log2")) r = sr_log2(x);
        else if (!strcmp(name, "lgamma")) r = sr_lgamma(x);
        else if (!strcmp(name, "round")) r = sr_round(x);
        else if (!strcmp(name, "betainc")) { double c; r = sr_betainc(x, y, z, &c); printf("%a %a\n", r, c); fflush(stdout); continue; }
        else if (!strcmp(name, "ks")) r = sr_ks_pvalue(x);
        else if (!strcmp(name, "gammainc")) r = sr_gammainc(x, y);
        else if (!strcmp(name, "binpdf")) r = sr_binomial_pdf(strtoul(a1, NULL, 10), ky, z);
        else if (!strcmp(name, "binpdfall")) {
            ul nn = strtoul(a1, NULL, 10);
            double *pdf = malloc((nn + 1) * sizeof(double));
            sr_binomial_pdf_all(pdf, nn, y);
            for (ul i = 0; i <= nn; i++) printf("%a ", pdf[i]);
            printf("\n"); free(pdf); fflush(stdout); continue;
        }
        else if (!strcmp(name, "bincdf")) r = sr_binomial_cdf(strtoul(a1, NULL, 10), ky, z);
        else if (!strcmp(name, "binpvalue")) r = sr_binomial_pvalue(x, y, z);
        else if (!strcmp(name, "poiscdf")) r = sr_poisson_cdf(x, y);
        else if (!strcmp(name, "poispvalue")) r = sr_poisson_pvalue(x, y);
        else if (!strcmp(name, "normcdf")) r = sr_stdnorm_cdf(x);
        else if (!strcmp(name, "normpvalue")) r = sr_stdnorm_pvalue(x);
        else if (!strcmp(name, "norminv")) r = sr_stdnorm_inv(x);
        else if (!strcmp(name, "halfnorm")) r = sr_halfnormal_pvalue(x);
        else if (!strcmp(name, "tcdf")) r = sr_t_cdf(x, ky);
        else if (!strcmp(name, "tpvalue")) r = sr_t_pvalue(x, ky);
        else if (!strcmp(name, "chi2cdf")) r = sr_chi2_cdf(x, ky);
        else if (!strcmp(name, "chi2pvalue")) r = sr_chi2_pvalue(x, ky);
        else if (!strcmp(name, "chi2norm")) r = sr_chi2_to_stdnorm_approx(x, ky);
        else if (!strcmp(name, "lcTcdf")) r = sr_linearcomp_Tcdf(x);
        else if (!strcmp(name, "lcTccdf")) r = sr_linearcomp_Tccdf(x);
        /* verdict helpers that are part of the public interface */
        else if (!strcmp(name, "pcat")) { printf("%d %s\n", (int) get_pvalue_category(x), interpret_pvalue(x)); fflush(stdout); continue; }
        else if (!strcmp(name, "hms")) { TimeHMS t = nseconds_to_hms(strtoull(a1, NULL, 10)); printf("%u %u %u\n", t.h, (unsigned) t.m, (unsigned) t.s); fflush(stdout); continue; }
        else { fprintf(stderr, "unknown function %s\n", name); exit(77); }
        printf("%a\n", r);
        fflush(stdout);
    }
    return 0;
}
