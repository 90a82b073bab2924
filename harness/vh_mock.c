/* Link-level stand-ins for the statistical engines of the real command line program / library: they compute nothing,
 * but record which engine was started, with which options, on which thread and generator instance, draw a few words
 * and return a result that is a function of those words. Everything else (batteries, parser, scheduler, report) is real.
 *
 * VH_LOG    event log (one write() per line)      VH_DRAW   number of words drawn by a stand-in (default 4)
 * VH_PMODE  words | ok | fail | mix (p-value returned)      VH_DELAY  seed:maxus random delays
 */
#define _GNU_SOURCE
#include "smokerand/core.h"
#include "smokerand/coretests.h"
#include "smokerand/extratests.h"
#include "smokerand/hwtests.h"
#include "smokerand/lineardep.h"
#include "smokerand/threads_intf.h"
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static int logfd = -2;
void vh_log(const char *fmt, ...)
{
    if (logfd == -2) { const char *f = getenv("VH_LOG"); logfd = f ? open(f, O_WRONLY | O_CREAT | O_APPEND, 0600) : -1; }
    if (logfd < 0) return;
    char b[16384]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    if (n > (int) sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (write(logfd, b, (size_t) n) != n) _exit(78);
}
__attribute__((constructor)) static void init_log(void) { vh_log("S start"); }

static uint64_t dstate, dmax; static int dinit;
static void delay_init(void)
{
    const char *d = getenv("VH_DELAY");
    if (d) { unsigned long long a = 0, b = 0; sscanf(d, "%llu:%llu", &a, &b); dstate = a * 2654435769u + 12345; dmax = b; }
    dinit = 1;
}
__attribute__((constructor)) static void init_delay(void) { delay_init(); }
void vh_delay(int site)
{
    if (!dmax) return;
    uint64_t z = __atomic_add_fetch(&dstate, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED) + (uint64_t) site * 77777777;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
    if (z & 1) return;
    struct timespec ts = {0, (long) ((z >> 8) % dmax) * 1000};
    nanosleep(&ts, NULL);
}

#ifdef VH_WRAP_PTHREAD
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { vh_delay(1); return __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); vh_delay(2); return r; }
typedef struct { void *(*f)(void *); void *a; } Tramp;
static void *tramp(void *p) { Tramp t = *(Tramp *) p; free(p); vh_delay(3); void *r = t.f(t.a); vh_delay(4); return r; }
int __real_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a)
{
    Tramp *p = malloc(sizeof *p); p->f = f; p->a = a;
    vh_delay(5); int r = __real_pthread_create(t, at, tramp, p); vh_delay(6);
    return r;
}
#endif

#ifdef VH_WRAP_API   /* allocations made through the interface handed to plugins */
static CallerAPI real_api;
static void *api_malloc(size_t n)
{
    static int k; const char *f = getenv("VH_API_FAIL");
    if (f && atoi(f) == __atomic_add_fetch(&k, 1, __ATOMIC_SEQ_CST)) { vh_log("M fail"); return NULL; }
    void *p = real_api.malloc(n); vh_log("A %p %zu", p, n); return p;
}
static void api_free(void *p) { vh_log("R %p", p); real_api.free(p); }
CallerAPI __real_CallerAPI_init(void);
CallerAPI __real_CallerAPI_init_mthr(void);
CallerAPI __wrap_CallerAPI_init(void) { CallerAPI r = real_api = __real_CallerAPI_init(); r.malloc = api_malloc; r.free = api_free; return r; }
CallerAPI __wrap_CallerAPI_init_mthr(void) { CallerAPI r = real_api = __real_CallerAPI_init_mthr(); r.malloc = api_malloc; r.free = api_free; return r; }
#endif

#ifndef VH_NO_MOCK   /* VH_NO_MOCK: real engines, only the schedule perturbation above */
static uint64_t mixh(uint64_t h, uint64_t v)
{
    h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; return h ^ (h >> 29);
}

static TestResults mock(GeneratorState *obj, const char *eng, const char *opts)
{
    unsigned nd = getenv("VH_DRAW") ? (unsigned) atoi(getenv("VH_DRAW")) : 4;
    char w[8192]; size_t pos = 0; uint64_t h = 12345;
    w[0] = 0;
    vh_delay(7);
    vh_log("B %s opts=%s state=%p tid=%ld", eng, opts, obj->state, (long) syscall(SYS_gettid));
    for (unsigned i = 0; i < nd; i++) {
        uint64_t u = obj->gi->get_bits(obj->state);
        h = mixh(h, u);
        if (i < 16) pos += (size_t) snprintf(w + pos, sizeof w - pos, "%llx,", (unsigned long long) u);
        if (dmax && i % 4 == 2) vh_delay(8);
    }
    vh_delay(9);
    obj->intf->printf("  mock engine %s %s\n", eng, opts);
    TestResults r = TestResults_create(eng);
    const char *pm = getenv("VH_PMODE");
    double u = (double) (h >> 11) * 0x1p-53;
    r.x = (double) ((h >> 34) % 1000000);
    r.penalty = 1.0;
    if (!pm || !strcmp(pm, "words")) r.p = 0.01 + 0.98 * u;
    else if (!strcmp(pm, "ok")) r.p = 0.5;
    else if (!strcmp(pm, "fail")) r.p = 1e-20;
    else { double q[] = {0.5, 0.3, 1e-20, 1e-5, 0.7, 1.0, 0.9995, 0.0}; r.p = q[h & 7]; }
    r.alpha = 1.0 - r.p;
    vh_log("T %s opts=%s state=%p gi=%s nbits=%u ndraw=%u words=%s tid=%ld p=%.17g x=%.17g ord=%u", eng, opts, obj->state, obj->gi->name, obj->gi->nbits, nd, w,
        (long) syscall(SYS_gettid), r.p, r.x, ThreadObj_current().ord);
    return r;
}
#define M(eng, ...) char b[256]; snprintf(b, sizeof b, __VA_ARGS__); return mock(obj, eng, b)
#define ULL(x) ((unsigned long long) (x))
static const char *hmode(HammingOtMode m)
{
    return m == HAMMING_OT_VALUES ? "values" : m == HAMMING_OT_BYTES ? "bytes" : m == HAMMING_OT_BYTES_LOW1 ? "bytes_low1" : m == HAMMING_OT_BYTES_LOW8 ? "bytes_low8" : "?";
}
static const char *bpos(int b, char *q)
{
    if (b == LINEARCOMP_BITPOS_HIGH) return "high";
    if (b == LINEARCOMP_BITPOS_MID) return "mid";
    if (b == LINEARCOMP_BITPOS_LOW) return "low";
    snprintf(q, 32, "%d", b); return q;
}
TestResults monobit_freq_test(GeneratorState *obj, const MonobitFreqOptions *o) { M("monobit", "%llu", o->nvalues); }
TestResults nbit_words_freq_test(GeneratorState *obj, const NBitWordsFreqOptions *o) { M("nbitwords", "%u,%u,%llu", o->bits_per_word, o->average_freq, ULL(o->nblocks)); }
TestResults bspace_nd_test(GeneratorState *obj, const BSpaceNDOptions *o) { M("bspace", "%u,%u,%lu,%d", o->nbits_per_dim, o->ndims, o->nsamples, o->get_lower); }
TestResults bspace4_8d_decimated_test(GeneratorState *obj, unsigned long s) { M("bspacedec", "%lu", s); }
TestResults collisionover_test(GeneratorState *obj, const CollOverNDOptions *o) { M("collover", "%u,%u,%lu,%lu,%d", o->nbits_per_dim, o->ndims, o->nsamples, o->n, o->get_lower); }
TestResults gap_test(GeneratorState *obj, const GapOptions *o) { M("gap", "%u,%llu", o->shl, o->ngaps); }
TestResults gap16_count0_test(GeneratorState *obj, unsigned long long n) { M("gap16", "%llu", n); }
TestResults sumcollector_test(GeneratorState *obj, const SumCollectorOptions *o) { M("sumcoll", "%llu", o->nvalues); }
TestResults mod3_test(GeneratorState *obj, const Mod3Options *o) { M("mod3", "%llu", o->nvalues); }
TestResults hamming_ot_test(GeneratorState *obj, const HammingOtOptions *o) { M("hamming_ot", "%llu,%s", o->nbytes, hmode(o->mode)); }
TestResults hamming_ot_long_test(GeneratorState *obj, const HammingOtLongOptions *o) { M("hamming_ot_long", "%llu,%d", o->nvalues, (int) o->wordsize); }
TestResults hamming_distr_test(GeneratorState *obj, const HammingDistrOptions *o) { M("hamming_distr", "%llu,%d", o->nvalues, o->nlevels); }
TestResults linearcomp_test(GeneratorState *obj, const LinearCompOptions *o) { char q[32]; M("linearcomp", "%llu,%s", ULL(o->nbits), bpos(o->bitpos, q)); }
TestResults matrixrank_test(GeneratorState *obj, const MatrixRankOptions *o) { M("matrixrank", "%llu,%u", ULL(o->n), o->max_nbits); }
#ifndef VH_REAL_EXTRA
TestResults birthday_test(GeneratorState *obj, const BirthdayOptions *o) { M("birthday", "%llu,%u", o->n, o->e); }
#endif
TestResults ising2d_test(GeneratorState *obj, const Ising2DOptions *o) { M("ising", "%s,%lu,%u", o->algorithm == ISING_WOLFF ? "wolff" : o->algorithm == ISING_METROPOLIS ? "metropolis" : "?", o->sample_len, o->nsamples); }
TestResults unit_sphere_volume_test(GeneratorState *obj, const UnitSphereOptions *o) { M("usphere", "%u,%llu", o->ndims, o->npoints); }
#endif
