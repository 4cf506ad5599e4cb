// Thin wrappers around the library's public API used by several harnesses.
#ifndef VERIF_API_HPP
#define VERIF_API_HPP
#include "common.hpp"
#include "flbwt.hpp"

struct Outcome
{
    bool threw;
    const char *what; // static text only
    flbwt::BWT_result *r;
};
static inline void release(flbwt::BWT_result *r)
{
    if (!r) return;
    delete[] r->BWT;
    free(r);
}
static inline Outcome call_string(uint8_t *T, uint64_t n, bool free_T)
{
    Outcome o = {false, "", NULL};
    try { o.r = flbwt::bwt_string(T, n, free_T); }
    catch (const std::exception &) { o.threw = true; o.what = "std::exception"; }
    catch (...) { o.threw = true; o.what = "something that is not a std::exception"; }
    return o;
}
static inline uint8_t *malloc_copy(const Bytes &t)
{
    uint8_t *T = (uint8_t *)malloc(t.size() + 1);
    memcpy(T, t.data(), t.size());
    T[t.size()] = 0;
    return T;
}
// Full oracle for one result. Small inputs: comparison with sorted suffixes; all: inversion.
static inline void check_result(const char *prefix, const Bytes &t, const Outcome &o)
{
    char key[64];
    if (o.threw)
    {
        snprintf(key, sizeof key, "%s-exception", prefix);
        violation(key, "transform of a valid input threw %s (n=%zu)", o.what, t.size());
    }
    if (!o.r || !o.r->BWT)
    {
        snprintf(key, sizeof key, "%s-null", prefix);
        violation(key, "transform of a valid input returned no result (n=%zu)", t.size());
    }
    snprintf(key, sizeof key, "%s-mismatch", prefix);
    if (t.size() <= 300)
    {
        Bytes ref;
        uint64_t last = ref_bwt(t, ref);
        if (last != o.r->last)
            violation(key, "terminator row is %llu, should be %llu (n=%zu)", (unsigned long long)o.r->last, (unsigned long long)last, t.size());
        for (size_t i = 0; i <= t.size(); i++)
            if (i != last && ref[i] != o.r->BWT[i])
                violation(key, "row %zu is %u, should be %u (n=%zu)", i, o.r->BWT[i], ref[i], t.size());
    }
    const char *e = verify_bwt(t.data(), t.size(), o.r->BWT, o.r->last);
    if (e) violation(key, "%s (n=%zu, terminator row %llu)", e, t.size(), (unsigned long long)o.r->last);
}
#endif
