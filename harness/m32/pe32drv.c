/* Drives the PE32 loader. Requests on stdin, one per line (see c29.py):
     open FILE | close | mem SYMBOL LEN (hex bytes at the symbol) | addr SYMBOL | call SYMBOL | gen NBITS N (runs a generator plugin)
   Answers: one line each; the loader's own output is muted. */
#include "smokerand/apidefs.h"
#include "smokerand/pe32loader.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef NATIVE   /* the same generator run with the plugin built for this machine */
#include <dlfcn.h>
#define dlopen_pe32dos(n, f) dlopen(n, RTLD_NOW)
#define dlsym_pe32dos dlsym
#define dlclose_pe32dos dlclose
#define dlerror_pe32dos dlerror
static int m32_live, m32_badfree, m32_mute, m32_open;
#else
extern int m32_live, m32_badfree, m32_mute, m32_open;
#endif
static uint64_t seed = 0x0123456789ABCDEFull;
static uint64_t seed64(void) { seed = (seed << 13 | seed >> 51) + 0x9E3779B97F4A7C15ull; return seed; }
static uint32_t seed32(void) { return (uint32_t) (seed64() >> 32); }
static char param[256];
static const char *get_param(void) { return param; }
static int mute_printf(const char *f, ...) { (void) f; return 0; }
static int ram(RamInfo *r) { (void) r; return 0; }

static int line(char *b, int n)
{
    int k = 0, c;
    while ((c = fgetc(stdin)) != EOF && c != '\n') if (k + 1 < n) b[k++] = (char) c;
    b[k] = 0;
    return c != EOF || k;
}
static unsigned num(const char *s) { unsigned v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (unsigned) (*s++ - '0'); return v; }

int main(void)
{
    static char b[4096];
    void *h = NULL;
    while (line(b, sizeof b)) {
        char *arg = strchr(b, ' '), *arg2 = NULL;
        if (arg) { *arg++ = 0; arg2 = strchr(arg, ' '); if (arg2) *arg2++ = 0; }
        m32_mute = 1;
        if (!strcmp(b, "open")) {
            h = dlopen_pe32dos(arg, 0);
            m32_mute = 0;
            if (h) printf("OK open=%d\n", m32_open);
            else {
                const char *e = dlerror_pe32dos();
                printf("ERR open=%d %s", m32_open, e);
                if (!e[0] || e[strlen(e) - 1] != '\n') printf("\n");
            }
        } else if (!strcmp(b, "close")) {
            dlclose_pe32dos(h);
            h = NULL;
            m32_mute = 0;
            printf("CLOSED live=%d bad=%d\n", m32_live, m32_badfree);
        } else if (!strcmp(b, "gen")) {
            CallerAPI api = {seed32, seed64, get_param, malloc, free, mute_printf, snprintf, strcmp, ram};
            int (*info)(GeneratorInfo *, const CallerAPI *);
            GeneratorInfo gi;
            unsigned n = num(arg);
            void *p = dlsym_pe32dos(h, "gen_getinfo");
            seed = 0x0123456789ABCDEFull;
            strncpy(param, arg2 ? arg2 : "", 255);
            memset(&gi, 0, sizeof gi);
            memcpy(&info, &p, sizeof p);
            if (!p || !info(&gi, &api)) { m32_mute = 0; printf("NOGEN\n"); continue; }
            void *s = gi.create(&gi, &api);
            m32_mute = 0;
            if (!s) { printf("NOSTATE\n"); continue; }
            printf("GEN %u", gi.nbits);
            while (n--) { uint64_t u = gi.get_bits(s); printf(" %x:%x", (unsigned) (u >> 32), (unsigned) u); }
            printf(" self=%d", gi.self_test ? gi.self_test(&api) : -1);
            gi.free(s, &gi, &api);
            printf("\n");
        } else {
            void *p = dlsym_pe32dos(h, arg);
            m32_mute = 0;
            if (!p) { printf("NULL %s\n", dlerror_pe32dos()); continue; }
            if (!strcmp(b, "addr")) printf("%x\n", (unsigned) (size_t) p);
            else if (!strcmp(b, "call")) { int (*f)(void); memcpy(&f, &p, sizeof f); printf("%x\n", (unsigned) f()); }
            else {
                const unsigned char *q = p;
                for (unsigned n = num(arg2); n--; q++) printf("%02x", *q);
                printf("\n");
            }
        }
    }
    return 0;
}
