/* Spy generator plugin: its stream is a function of the seeds it was given; every create / seed / free event and every
 * misuse (use before creation, after destruction, from two threads, double free) is logged.
 * VH_SPY_NBITS 32|64    VH_SPY_SEEDS e.g. "64,64,32" (seed requests at creation)   VH_SPY_FAIL k: the k-th creation fails
 * VH_SPY_WIDE 1: 32-bit generator that returns 33-bit words   VH_SPY_GINFO 0: gen_getinfo fails   VH_SPY_SELF 0|1|none  VH_SPY_DESC text|none
 * VH_SPY_CYCLE n: words repeat   VH_SPY_CONST hex: constant output
 * VH_SPY_WORDS file: the stream is that file (native words of the output size), repeated   VH_SPY_PRINT 1: prints a line at creation
 * VH_SPY_DELAY every:maxus   sleeps in get_bits (about every n-th call, for a time that varies from run to run) */
#define _GNU_SOURCE
#include "smokerand/apidefs.h"
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static int fd = -2;
static void lg(const char *fmt, ...)
{
    if (fd == -2) { const char *f = getenv("VH_LOG"); fd = f ? open(f, O_WRONLY | O_CREAT | O_APPEND, 0600) : -1; }
    if (fd < 0) return;
    char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    b[n++] = '\n';
    if (write(fd, b, (size_t) n) != n) _exit(78);
}
__attribute__((constructor)) static void ld(void) { lg("L load"); }
__attribute__((destructor)) static void ul(void) { lg("U unload"); }

typedef struct { uint64_t s, i; int live; long tid; unsigned long nget, bad; void *mem; const GeneratorInfo *gi; } Slot;
static Slot slots[8192];
static int nslots;
static unsigned nbits_;
static uint64_t cst, cyc; static int use_cst, wide;
static unsigned dl_every, dl_max;
static uint64_t *wds; static size_t nwds;

static uint64_t mixh(uint64_t h, uint64_t v)
{
    h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; return h ^ (h >> 29);
}
static long tid(void) { return (long) syscall(SYS_gettid); }
static int valid(const void *p) { return (const Slot *) p >= slots && (const Slot *) p < slots + nslots && ((const char *) p - (const char *) slots) % (long) sizeof(Slot) == 0; }

static uint64_t get_bits(void *state)
{
    Slot *o = state;
    if (!valid(o)) { lg("BAD use-of-unknown-instance"); _exit(79); }
    if (!o->live && !o->bad++) lg("BAD use-after-destruction %d", (int) (o - slots));
    long t = tid();
    if (o->nget++ == 0) o->tid = t;
    else if (o->tid != t && !o->bad++) lg("BAD instance %d used by two threads", (int) (o - slots));
    if (dl_every && o->nget % dl_every == 1) {
        struct timespec now; clock_gettime(CLOCK_MONOTONIC, &now);
        uint64_t z = mixh((uint64_t) now.tv_nsec, (uint64_t) t);
        if (z & 1) { struct timespec ts = {0, (long) ((z >> 8) % dl_max) * 1000}; nanosleep(&ts, NULL); }
    }
    uint64_t u = use_cst ? cst : mixh(o->s, cyc ? o->i++ % cyc : o->i++) + 0x1234567 * o->s;
    u = mixh(u, 77);
    if (use_cst) u = cst;
    if (nwds) return wds[(cyc ? o->i : o->i - 1) % nwds];
    if (nbits_ == 32) u = wide ? (u >> 31) | (1ull << 32) : u >> 32;
    return u;
}
static uint64_t get_light(void *state) { Slot *o = state; if (!o->live) o->bad++; return cst; }   /* VH_SPY_LIGHT: for modes that draw billions of words */
static uint64_t get_sum(void *state, size_t len) { uint64_t s = 0; for (size_t i = 0; i < len; i++) s += get_bits(state); return s; }

static void *create(const GeneratorInfo *gi, const CallerAPI *intf)
{
    static int ncreate;
    int me = __atomic_fetch_add(&nslots, 1, __ATOMIC_SEQ_CST), k = __atomic_add_fetch(&ncreate, 1, __ATOMIC_SEQ_CST);
    const char *f = getenv("VH_SPY_FAIL"), *sp = getenv("VH_SPY_SEEDS");
    if (me >= 8192) _exit(79);
    if (f && atoi(f) == k) { lg("X %d create-fails", me); return NULL; }
    Slot *o = &slots[me];
    char b[2048]; size_t pos = 0; b[0] = 0;
    o->s = 1;
    char tmp[256]; snprintf(tmp, sizeof tmp, "%s", sp ? sp : "64");
    char *save;
    for (char *t = strtok_r(tmp, ",", &save); t; t = strtok_r(NULL, ",", &save)) {
        uint64_t s = !strcmp(t, "32") ? intf->get_seed32() : intf->get_seed64();
        o->s = mixh(o->s, s);
        pos += (size_t) snprintf(b + pos, sizeof b - pos, "%s:%llx,", t, (unsigned long long) s);
        if (pos > sizeof b - 64) break;
    }
    if (!*b) o->s = 99;
    const char *p = intf->get_param();
    for (const char *q = p; *q; q++) o->s = mixh(o->s, (unsigned char) *q);
    if (getenv("VH_SPY_PRINT")) intf->printf("spy plugin says hello\n");
    o->i = 0; o->mem = intf->malloc(64); memset(o->mem, 0xAB, 64); o->gi = gi; o->live = 1;
    lg("C %d slot=%p tid=%ld seeds=%s param=%s parent=%d", me, (void *) o, tid(), b, p, gi->parent != NULL);
    return o;
}
static void destroy(void *state, const GeneratorInfo *gi, const CallerAPI *intf)
{
    Slot *o = state;
    if (!valid(o)) { lg("BAD free-of-unknown-instance"); _exit(79); }
    if (!o->live) lg("BAD double-destruction %d", (int) (o - slots));
    if (o->gi != gi) lg("BAD destroyed-with-another-descriptor %d", (int) (o - slots));
    if (o->live) intf->free(o->mem);
    if (o->bad) lg("BAD instance %d was misused", (int) (o - slots));
    o->live = 0;
    lg("F %d nget=%lu tid=%ld", (int) (o - slots), o->nget, tid());
}
static int self_test(const CallerAPI *intf) { intf->printf("spy self test\n"); lg("Q selftest"); return atoi(getenv("VH_SPY_SELF") ? getenv("VH_SPY_SELF") : "1"); }

int gen_getinfo(GeneratorInfo *gi, const CallerAPI *intf)
{
    (void) intf;
    const char *e = getenv("VH_SPY_NBITS");
    nbits_ = e ? (unsigned) atoi(e) : 64;
    if ((e = getenv("VH_SPY_CONST"))) { cst = strtoull(e, NULL, 16); use_cst = 1; }
    if ((e = getenv("VH_SPY_CYCLE"))) cyc = strtoull(e, NULL, 10);
    if ((e = getenv("VH_SPY_DELAY"))) sscanf(e, "%u:%u", &dl_every, &dl_max);
    if ((e = getenv("VH_SPY_WORDS"))) {
        FILE *f = fopen(e, "rb"); uint64_t w = 0; size_t cap = 0;
        while (f && fread(&w, nbits_ / 8, 1, f) == 1) {
            if (nwds == cap) wds = realloc(wds, (cap = cap * 2 + 1024) * 8);
            wds[nwds++] = w;
        }
        if (f) fclose(f);
    }
    wide = getenv("VH_SPY_WIDE") != NULL;
    gi->name = getenv("VH_SPY_NAME") ? getenv("VH_SPY_NAME") : "SpyGen";
    gi->description = getenv("VH_SPY_DESC") ? (strcmp(getenv("VH_SPY_DESC"), "none") ? getenv("VH_SPY_DESC") : NULL) : "Spy description";
    gi->nbits = nbits_;
    gi->create = create; gi->free = destroy; gi->get_bits = get_bits; gi->get_sum = get_sum; gi->parent = NULL;
    if (getenv("VH_SPY_LIGHT")) gi->get_bits = get_light;
    e = getenv("VH_SPY_SELF");
    gi->self_test = (e && !strcmp(e, "none")) ? NULL : self_test;
    return getenv("VH_SPY_GINFO") ? atoi(getenv("VH_SPY_GINFO")) : 1;
}
