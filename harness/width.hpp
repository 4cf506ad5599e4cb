// Rebases the positions the library stores (through the hook flbwt_verif_after_sort) so that
// ordinary inputs exercise the 40, 48, 56 and 64 bit suffix-array paths of the real code.
#ifndef VERIF_WIDTH_HPP
#define VERIF_WIDTH_HPP
#include "api.hpp"
#ifdef FLBWT_VERIF_HOOKS
extern void (*flbwt_verif_after_sort)(flbwt::Container *container);
#endif
// A concurrent harness defines W_CONCURRENT: targets and results are then per thread.
#ifdef W_CONCURRENT
#define W_STATIC static __thread
#else
#define W_STATIC static
#endif
W_STATIC uint64_t w_target;   // wanted largest stored position, 0: leave everything alone
W_STATIC uint64_t w_natural;  // largest stored position without rebasing
W_STATIC uint64_t w_used;     // largest stored position of the last call
W_STATIC uint64_t w_calls;
static inline int w_bits(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }
static inline int w_width(uint64_t v)
{ // the width a correct selection uses for largest value v
    int b = w_bits(v);
    return b < 32 ? 32 : b < 40 ? 40 : b < 48 ? 48 : b < 56 ? 56 : 64;
}
static void w_hook(flbwt::Container *c)
{
    w_calls++;
    w_natural = c->sa_max_value;
    if (w_target > c->sa_max_value)
    {
        uint64_t bias = w_target - c->sa_max_value;
        c->bwp_base = (uint8_t *)((uintptr_t)c->bwp_base - bias);
        c->bwp_width = (uint8_t)w_bits((uint64_t)(c->max_ptr - c->min_ptr) + 2 + bias);
        c->sa_max_value += bias;
    }
    w_used = c->sa_max_value;
}
static inline void w_install()
{
#ifdef FLBWT_VERIF_HOOKS
    flbwt_verif_after_sort = w_hook;
#endif
}
// targets of a "wt=" parameter: exponent k and offset d give 2^k + d
static inline uint64_t w_parse(const Spec &s)
{
    uint64_t k = s.num("wk", 0), d = s.num("wd", 1000); // d is stored as 1000 + offset
    return k ? (1ULL << k) + d - 1000 : 0;
}
#endif
