/* Value-level driver for seeding primitives and wide-arithmetic helpers: one request per line, one answer per line. */
#include <inttypes.h>
#include <math.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#ifdef VH_PORTABLE   /* the paths taken by compilers without 128-bit integers and GNU builtins */
#undef __GNUC__
#undef __SIZEOF_INT128__
#endif
#include "smokerand/core.h"
#include "smokerand/int128defs.h"
#include "smokerand/base64.h"
#include "smokerand/blake2s.h"
#include "smokerand/entropy.h"

static uint8_t *unhex(const char *s, size_t *n)
{
    if (!strcmp(s, "-")) { *n = 0; return malloc(1); }
    size_t l = strlen(s) / 2; uint8_t *b = malloc(l ? l : 1);
    for (size_t i = 0; i < l; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); b[i] = (uint8_t) v; }
    *n = l; return b;
}
static void *exact(const void *p, size_t n) { void *q = malloc(n ? n : 1); memcpy(q, p, n); return q; }
static uint64_t X(const char *s) { return strtoull(s, NULL, 16); }

int main(void)
{
    static char line[1 << 20];
    static char *t[200000];
    while (fgets(line, sizeof line, stdin)) {
        int n = 0;
        for (char *p = strtok(line, " \n"); p && n < 200000; p = strtok(NULL, " \n")) t[n++] = p;
        if (!n) continue;
        const char *o = t[0];
        if (!strcmp(o, "b64e")) {
            uint32_t *w = malloc((n - 1) * 4 + 1);
            for (int i = 1; i < n; i++) w[i - 1] = (uint32_t) X(t[i]);
            char *s = sr_u32_bigendian_to_base64(w, (size_t) (n - 1));
            printf("%s\n", s); free(s); free(w);
        } else if (!strcmp(o, "b64d")) {
            size_t l; uint8_t *b = unhex(t[1], &l);
            char *s = malloc(l + 1); memcpy(s, b, l); s[l] = 0; free(b);
            size_t len = 0; uint32_t *w = sr_base64_to_u32_bigendian(s, &len);
            if (!w) printf("NULL");
            else for (size_t i = 0; i < len; i++) printf("%08x ", (unsigned) w[i]);
            printf("\n"); free(w); free(s);
        } else if (!strcmp(o, "b2")) {          /* outlen key msg chunk... (chunks cycle; 0-length chunks allowed) */
            size_t ol = strtoul(t[1], NULL, 10), kl, ml, pos = 0; uint8_t *k = unhex(t[2], &kl), *m = unhex(t[3], &ml);
            blake2s_state st; memset(&st, 0xA5, sizeof st);
            if (blake2s_init(&st, ol, kl ? k : NULL, kl)) printf("FAIL\n");
            else {
                int ci = 4;
                while (pos < ml) {
                    size_t c = (n > 4) ? strtoul(t[ci], NULL, 10) : ml;
                    if (++ci >= n) ci = 4;
                    if (c > ml - pos) c = ml - pos;
                    void *e = exact(m + pos, c); blake2s_update(&st, e, c); free(e); pos += c;
                }
                uint8_t *out = malloc(ol), *o2 = malloc(ol);
                blake2s_final(&st, out);
                int rc = blake2s(o2, ol, kl ? k : NULL, kl, m, ml);
                for (size_t i = 0; i < ol; i++) printf("%02x", out[i]);
                printf(" %s", rc == 0 && !memcmp(out, o2, ol) ? "same" : "differs");
                if (ol == 32 && !kl) { blake2s_256(o2, m, ml); printf(" %s", memcmp(out, o2, 32) ? "differs" : "same"); }
                if (ol == 16 && !kl) { blake2s_128(o2, m, ml); printf(" %s", memcmp(out, o2, 16) ? "differs" : "same"); }
                printf("\n"); free(out); free(o2);
            }
            free(k); free(m);
        } else if (!strcmp(o, "b2ctr")) { /* total length so far (multiple of 64), digest size, message: long-message behaviour */
            size_t ml; uint8_t *m = unhex(t[3], &ml), out[32]; uint64_t c = X(t[1]);
            blake2s_state st; blake2s_init(&st, strtoul(t[2], NULL, 10), NULL, 0);
            st.t[0] = (uint32_t) c; st.t[1] = (uint32_t) (c >> 32);
            for (size_t i = 0; i < ml; i += 7) blake2s_update(&st, m + i, (ml - i < 7) ? ml - i : 7);
            blake2s_final(&st, out);
            for (size_t i = 0; i < strtoul(t[2], NULL, 10); i++) printf("%02x", out[i]);
            printf("\n"); free(m);
        } else if (!strcmp(o, "b2one")) { /* one-shot with parameters that may be invalid */
            size_t kl, ml; uint8_t *k = unhex(t[2], &kl), *m = unhex(t[3], &ml), out[64]; memset(out, 0, 64);
            int rc = blake2s(out, strtoul(t[1], NULL, 10), kl ? k : NULL, kl, m, ml);
            int touched = 0; for (int i = 0; i < 64; i++) touched |= out[i];
            printf("%s %s\n", rc == BLAKE2S_SUCCESS ? "OK" : "FAIL", touched ? "touched" : "clean"); free(k); free(m);
        } else if (!strcmp(o, "cc")) {          /* key(8 words) nonce ctr skip ops */
            uint32_t key[8]; for (int i = 0; i < 8; i++) key[i] = (uint32_t) X(t[1 + i]);
            ChaCha20State st; memset(&st, 0x5A, sizeof st);
            ChaCha20State_init(&st, key, X(t[9]));
            uint64_t ctr = X(t[10]); unsigned long skip = strtoul(t[11], NULL, 10);
            if (ctr) { st.x[12] = (uint32_t) ctr; st.x[13] = (uint32_t) (ctr >> 32); }
            for (unsigned long i = 0; i < skip; i++) ChaCha20State_next32(&st);
            for (const char *p = t[12]; *p; p++)
                if (*p == '3') printf("%08" PRIx32 " ", ChaCha20State_next32(&st)); else printf("%016" PRIx64 " ", ChaCha20State_next64(&st));
            printf("\n");
        } else if (!strcmp(o, "entself")) printf("%d %d\n", entfuncs_test(), blake2s_selftest());
        /* ---- wide arithmetic ---- */
        else if (!strcmp(o, "mul")) { uint64_t h = 1, l = unsigned_mul128(X(t[1]), X(t[2]), &h); printf("%016" PRIx64 "%016" PRIx64 "\n", h, l); }
        else if (!strcmp(o, "muladd")) { uint64_t h = 1, l = unsigned_muladd128(X(t[1]), X(t[2]), X(t[3]), &h); printf("%016" PRIx64 "%016" PRIx64 "\n", h, l); }
        else if (!strcmp(o, "muladd99")) { uint64_t h = 1, l = umuladd_64x64p64_c99(X(t[1]), X(t[2]), X(t[3]), &h); printf("%016" PRIx64 "%016" PRIx64 "\n", h, l); }
        else if (!strcmp(o, "add")) { uint64_t h = X(t[1]), l = X(t[2]); unsigned_add128(&h, &l, X(t[3])); printf("%016" PRIx64 "%016" PRIx64 "\n", h, l); }
        else if (!strcmp(o, "add99")) { uint64_t h = X(t[1]), l = X(t[2]); uadd_128p64_c99(&h, &l, X(t[3])); printf("%016" PRIx64 "%016" PRIx64 "\n", h, l); }
        else if (!strcmp(o, "mul128")) { uint64_t h = X(t[3]), l = X(t[4]); umuladd_128x128p64w(X(t[1]), X(t[2]), &h, &l, X(t[5])); printf("%016" PRIx64 "%016" PRIx64 "\n", h, l); }
        else if (!strcmp(o, "mul12899")) {
            uint64_t ah = X(t[1]), al = X(t[2]), h = X(t[3]), l = X(t[4]);
            uint32_t a[4] = {(uint32_t) al, (uint32_t) (al >> 32), (uint32_t) ah, (uint32_t) (ah >> 32)}, x[4] = {(uint32_t) l, (uint32_t) (l >> 32), (uint32_t) h, (uint32_t) (h >> 32)};
            umuladd_128x128p64_c99(a, x, X(t[5])); printf("%08" PRIx32 "%08" PRIx32 "%08" PRIx32 "%08" PRIx32 "\n", x[3], x[2], x[1], x[0]);
        } else if (!strcmp(o, "lcg64")) { Lcg128State s; Lcg128State_init(&s, X(t[1]), X(t[2])); uint64_t r = 0; for (long i = atol(t[5]); i > 0; i--) r = Lcg128State_a64_iter(&s, X(t[3]), X(t[4]));
            printf("%016" PRIx64 "%016" PRIx64 " %d\n", s.x_high, s.x_low, r == s.x_high); }
        else if (!strcmp(o, "lcg128")) { Lcg128State s; Lcg128State_init(&s, X(t[1]), X(t[2])); uint64_t r = 0; for (long i = atol(t[6]); i > 0; i--) r = Lcg128State_a128_iter(&s, X(t[3]), X(t[4]), X(t[5]));
            printf("%016" PRIx64 "%016" PRIx64 " %d\n", s.x_high, s.x_low, r == s.x_high); }
        else if (!strcmp(o, "bits")) {          /* all single-word helpers of one word and rotation */
            uint64_t x = X(t[1]); int r = atoi(t[2]);
            printf("%02x %02x %04x %08" PRIx32 " %08" PRIx32 " %016" PRIx64 " %016" PRIx64 " %x %02x %08" PRIx32 " %016" PRIx64 " %u %u %u\n",
                rotl8((uint8_t) x, r & 7), rotr8((uint8_t) x, r & 7), rotl16((uint16_t) x, r & 15), rotl32((uint32_t) x, r & 31), rotr32((uint32_t) x, r & 31), rotl64(x, r & 63), rotr64(x, r & 63),
                reverse_bits4((uint8_t) (x & 15)), reverse_bits8((uint8_t) x), reverse_bits32((uint32_t) x), reverse_bits64(x),
                countl_zero_u64(x), (unsigned) get_uint64_hamming_weight(x), (unsigned) get_byte_hamming_weight((uint8_t) x));
        } else if (!strcmp(o, "pcg")) { uint64_t s = X(t[1]); for (long i = atol(t[2]); i > 0; i--) printf("%016" PRIx64 " ", pcg_bits64(&s)); printf("%016" PRIx64 "\n", s); }
        else { fprintf(stderr, "unknown request %s\n", o); exit(77); }
    }
    return 0;
}
