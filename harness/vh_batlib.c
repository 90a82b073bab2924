/* A custom battery as a shared library (loaded by the real CLI through s=FILE): tests with prescribed results.
 * VH_RES: file with one test per line: name|p|alpha|x|penalty   (hexadecimal floats)      VH_BATNAME: battery name
 * VH_SEEDDRAW: every test draws up to that many seeds (64 and 32 bit ones) and logs them as `D idx= ord= tid= seeds=`
 * VH_DUMP prefix, VH_DUMPN n: every test draws n (+ 7 times its index) words and appends them (8 bytes each) to prefix.<thread ordinal>
 * VH_RESDELAY: max delay per test in us. Every execution is written to VH_LOG. */
#define _GNU_SOURCE
#include "smokerand/core.h"
#include "smokerand/threads_intf.h"
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef struct { char name[256]; double p, alpha, x, penalty; int idx; } Item;
static Item *items; static int nitems;

static TestResults run_item(GeneratorState *obj, const void *udata)
{
    const Item *it = udata;
    const char *d = getenv("VH_RESDELAY"), *f = getenv("VH_LOG");
    uint64_t u = getenv("VH_DUMP") ? 0 : obj->gi->get_bits(obj->state);
    if (d) { struct timespec ts = {0, (long) ((u ^ (u >> 20)) % (unsigned) atoi(d)) * 1000}; nanosleep(&ts, NULL); }
    if (!getenv("VH_DUMP")) u ^= obj->gi->get_bits(obj->state);
    const char *sd = getenv("VH_SEEDDRAW");
    if (sd && f) {
        unsigned n = (unsigned) atoi(sd), cap = 40 + 24 * n; char *b = malloc(cap + 100);
        uint64_t h = (uint64_t) it->idx * 0x9E3779B97F4A7C15ull + n; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        n = (unsigned) (h % (n + 1));
        int pos = snprintf(b, cap, "D item idx=%d ord=%u tid=%ld seeds=", it->idx, ThreadObj_current().ord, (long) syscall(SYS_gettid));
        for (unsigned i = 0; i < n; i++) {
            int w32 = (h >> (i % 60)) & 1;
            uint64_t s = w32 ? obj->intf->get_seed32() : obj->intf->get_seed64();
            pos += snprintf(b + pos, 40, "%s:%llx,", w32 ? "32" : "64", (unsigned long long) s);
        }
        b[pos++] = '\n';
        int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (write(fd, b, (size_t) pos) != pos) _exit(78);
        close(fd); free(b);
    }
    const char *dp = getenv("VH_DUMP"), *dn = getenv("VH_DUMPN");
    if (dp && dn) {
        char b[600]; snprintf(b, sizeof b, "%s.%u", dp, ThreadObj_current().ord);
        size_t n = (size_t) atoi(dn) + 7u * (size_t) it->idx;
        FILE *o = fopen(b, "ab");
        for (size_t i = 0; i < n; i++) { uint64_t w = obj->gi->get_bits(obj->state); if (fwrite(&w, 8, 1, o) != 1) _exit(78); fflush(o); }
        fclose(o);
    }
    if (f) {
        char b[600]; int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0600);
        int n = snprintf(b, sizeof b, "T item idx=%d state=%p tid=%ld ord=%u gi=%s nbits=%u\n", it->idx, obj->state, (long) syscall(SYS_gettid),
            ThreadObj_current().ord, obj->gi->name, obj->gi->nbits);
        if (write(fd, b, (size_t) n) != n) _exit(78);
        close(fd);
    }
    TestResults r = TestResults_create("engine-internal-name");
    r.p = it->p; r.alpha = it->alpha; r.x = it->x; r.penalty = it->penalty;
    r.id = 7777; r.thread_id = 0;
    return r;
}

BatteryExitCode battery_func(const GeneratorInfo *gen, const CallerAPI *intf, const BatteryOptions *opts)
{
    FILE *f = fopen(getenv("VH_RES"), "r");
    char line[1024];
    if (!f) return BATTERY_ERROR;
    items = calloc(5000, sizeof *items); nitems = 0;
    while (fgets(line, sizeof line, f)) {
        Item *it = &items[nitems];
        char *save, *t = strtok_r(line, "|\n", &save);
        snprintf(it->name, sizeof it->name, "%s", t);
        it->p = strtod(strtok_r(NULL, "|\n", &save), NULL); it->alpha = strtod(strtok_r(NULL, "|\n", &save), NULL);
        it->x = strtod(strtok_r(NULL, "|\n", &save), NULL); it->penalty = strtod(strtok_r(NULL, "|\n", &save), NULL);
        it->idx = nitems++;
    }
    fclose(f);
    TestDescription *tests = calloc((size_t) nitems + 1, sizeof *tests);
    for (int i = 0; i < nitems; i++) { tests[i].name = items[i].name; tests[i].run = run_item; tests[i].udata = &items[i]; }
    TestsBattery bat; memset(&bat, 0, sizeof bat);
    bat.name = getenv("VH_BATNAME") ? getenv("VH_BATNAME") : "synthetic";
    bat.tests = tests;
    BatteryExitCode r = TestsBattery_run(&bat, gen, intf, opts);
    free(tests); free(items);
    return r;
}
