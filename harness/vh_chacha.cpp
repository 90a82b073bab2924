// Drives the C++ ChaCha20 engine (apps/chacha.h). Requests on stdin, one per line:
//   run K0..K7 NONCE SKIP N        N words after SKIP words of one engine (hexadecimal)
//   copy K0..K7 NONCE A B          A words, copy, B words of both in turn: prints the B words, or DIFF when the copies disagree
//   two K0..K7 NONCE K0..K7 NONCE N   two engines drawn alternately
//   std K0..K7 NONCE N             through std::uniform_int_distribution over the whole range
//   ctr K0..K7 NONCE LO HI N       engine whose block counter was set to HI:LO (only in the build with VH_CTR)
#include <algorithm>
#include <random>
#include <iostream>
#include <sstream>
#include <string>
#include "chacha.h"

struct Req { std::array<uint32_t, 8> key; uint64_t nonce; };
static Req rd(std::istream &s)
{
    Req r;
    s >> std::hex;
    for (auto &k : r.key) s >> k;
    s >> r.nonce;
    return r;
}
#ifdef VH_CTR
struct Ctr : ChaCha20 {
    Ctr(const std::array<uint32_t, 8> &k, uint64_t n, uint32_t lo, uint32_t hi) : ChaCha20(k, n) { x[12] = lo; x[13] = hi; }
};
#endif
int main()
{
    std::string line, op;
    static_assert(ChaCha20::min() == 0 && ChaCha20::max() == 0xFFFFFFFFu, "range");
    while (std::getline(std::cin, line)) {
        std::istringstream s(line);
        s >> op;
        Req r = rd(s);
        unsigned long a, b;
        if (op == "run") {
            s >> std::dec >> a >> b;
            ChaCha20 *e = new ChaCha20(r.key, r.nonce);
            while (a--) (*e)();
            while (b--) std::printf("%08x ", (unsigned) (*e)());
            delete e;
        } else if (op == "copy") {
            s >> std::dec >> a >> b;
            ChaCha20 e(r.key, r.nonce);
            while (a--) e();
            ChaCha20 c(e), d(r.key, ~r.nonce);
            d();
            d = e;
            while (b--) {
                unsigned u = e(), v = c(), w = d();
                if (u == v && u == w) std::printf("%08x ", u); else std::printf("DIFF ");
            }
        } else if (op == "two") {
            Req q = rd(s);
            s >> std::dec >> b;
            ChaCha20 e(r.key, r.nonce), f(q.key, q.nonce);
            while (b--) { unsigned u = e(), v = f(); std::printf("%08x %08x ", u, v); }
        } else if (op == "std") {
            s >> std::dec >> b;
            ChaCha20 e(r.key, r.nonce);
            std::uniform_int_distribution<uint32_t> g(0, UINT32_MAX);
            while (b--) std::printf("%08x ", (unsigned) g(e));
        }
#ifdef VH_CTR
        else if (op == "ctr") {
            uint32_t lo, hi;
            s >> lo >> hi >> std::dec >> b;
            Ctr e(r.key, r.nonce, lo, hi);
            while (b--) std::printf("%08x ", (unsigned) e());
        }
#endif
        std::printf("\n");
    }
    return 0;
}
