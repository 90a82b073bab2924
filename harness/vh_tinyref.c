/* Reference streams of the generators built into sr_tiny, written from their published recurrences with 64-bit
   arithmetic: vh_tinyref NAME SEED COUNT writes COUNT little-endian 32-bit words to stdout. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint64_t mz, mw;
static uint32_t mwcx(void)
{
    mz = 61578 * (mz % 65536) + mz / 65536;
    mw = 63885 * (mw % 65536) + mw / 65536;
    return (uint32_t) ((((mz << 16) + (mz >> 16)) & 0xFFFFFFFFu) ^ mw);
}

int main(int argc, char **argv)
{
    if (argc < 4) return 2;
    const char *g = argv[1];
    const uint32_t seed = (uint32_t) strtoull(argv[2], NULL, 10);
    const size_t n = strtoull(argv[3], NULL, 10);
    uint32_t *out = malloc((n + 55) * 4);
    mz = (seed % 65536) | 65536;
    mw = (seed / 65536) | 65536;
    if (!strcmp(g, "alfib")) {
        uint32_t *x = out;
        for (size_t i = 0; i < 55; i++) x[i] = mwcx();
        for (size_t i = 55; i < n + 55; i++) x[i] = x[i - 55] + x[i - 24];
        out += 55;
    } else if (!strcmp(g, "lcg32")) {
        uint64_t x = seed;
        for (size_t i = 0; i < n; i++) { x = (69069 * x + 12345) % 4294967296ull; out[i] = (uint32_t) x; }
    } else if (!strcmp(g, "lcg64")) {
        uint64_t x = seed;
        for (size_t i = 0; i < n; i++) { x = 6906969069ull * x + 12345; out[i] = (uint32_t) (x >> 32); }
    } else if (!strcmp(g, "mwc1616")) {
        for (size_t i = 0; i < n; i++) {
            mz = 36969 * (mz % 65536) + mz / 65536;
            mw = 18000 * (mw % 65536) + mw / 65536;
            out[i] = (uint32_t) (mz * 65536 + mw);
        }
    } else if (!strcmp(g, "mwc1616x")) {
        for (size_t i = 0; i < n; i++) out[i] = mwcx();
    } else if (!strcmp(g, "xorshift32")) {
        uint32_t y = seed | 1;
        for (size_t i = 0; i < n; i++) { y ^= y << 13; y ^= y >> 17; y ^= y << 5; out[i] = y; }
    } else if (!strcmp(g, "xorwow")) {
        uint32_t s[5] = {123456789, 362436069, 521288629, 88675123, ~seed}, d = seed;
        for (size_t i = 0; i < n; i++) {
            uint32_t t = s[0] ^ (s[0] >> 2);
            memmove(s, s + 1, 16);
            s[4] = s[3] ^ (s[3] << 4) ^ t ^ (t << 1);
            d += 362437;
            out[i] = s[4] + d;
        }
    } else return 3;
    fwrite(out, 4, n, stdout);
    return 0;
}
