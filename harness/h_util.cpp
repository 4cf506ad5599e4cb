// C20: split-integer and bit-length primitives.
#include "common.hpp"
#include "utility.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"

static std::vector<int64_t> values(unsigned bits, Rng &r, uint64_t extra)
{
    std::vector<int64_t> v;
    int64_t lo = -(int64_t)(1ULL << (bits - 1)), hi = (int64_t)(1ULL << (bits - 1)) - 1;
    for (unsigned k = 0; k < bits; k++)
        for (int64_t d = -3; d <= 3; d++)
        {
            int64_t x = (int64_t)(1ULL << k) + d;
            if (x <= hi) v.push_back(x);
            if (-x >= lo) v.push_back(-x);
        }
    for (int64_t d = 0; d < 4; d++) { v.push_back(lo + d); v.push_back(hi - d); }
    // every part (low 32, middle 16, rest) at its own extremes
    static const uint64_t low[] = {0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}, mid[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff};
    static const uint64_t high[] = {0, 1, 2, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff};
    for (uint64_t l : low)
        for (uint64_t m : mid)
            for (uint64_t h : high)
            {
                uint64_t x = bits > 48 ? h << 48 | m << 32 | l : bits > 40 ? m << 32 | l : h << 32 | l;
                v.push_back((int64_t)(x << (64 - bits)) >> (64 - bits));
            }
    for (uint64_t i = 0; i < extra; i++)
    {
        int64_t x = (int64_t)(r.next() << (64 - bits)) >> (64 - bits);
        if (r.chance(1, 2)) x >>= r.below(bits); // every magnitude
        v.push_back(x);
        v.push_back(~x);
    }
    return v;
}
struct A40
{
    std::vector<uint32_t> L; std::vector<int8_t> U;
    explicit A40(size_t n) : L(n), U(n) {}
    void set(int64_t i, int64_t v) { flbwt::set_40bit_value(L.data(), U.data(), i, v); }
    int64_t get(int64_t i) { return flbwt::get_40bit_value(L.data(), U.data(), i); }
    enum { bits = 40 };
};
struct A48
{
    std::vector<uint32_t> L; std::vector<int16_t> U;
    explicit A48(size_t n) : L(n), U(n) {}
    void set(int64_t i, int64_t v) { flbwt::set_48bit_value(L.data(), U.data(), i, v); }
    int64_t get(int64_t i) { return flbwt::get_48bit_value(L.data(), U.data(), i); }
    enum { bits = 48 };
};
struct A56
{
    std::vector<uint32_t> L; std::vector<uint16_t> M; std::vector<int8_t> U;
    explicit A56(size_t n) : L(n), M(n), U(n) {}
    void set(int64_t i, int64_t v) { flbwt::set_56bit_value(L.data(), M.data(), U.data(), i, v); }
    int64_t get(int64_t i) { return flbwt::get_56bit_value(L.data(), M.data(), U.data(), i); }
    enum { bits = 56 };
};
template <class A>
static void split(Rng &r, uint64_t extra, const char *name)
{
    std::vector<int64_t> v = values(A::bits, r, extra);
    for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[r.below(k)]);
    size_t n = 257;
    A a(n);
    std::vector<int64_t> ref(n, 0);
    for (size_t i = 0; i < n; i++) { a.set((int64_t)i, 0); }
    for (size_t k = 0; k < v.size(); k++)
    {
        int64_t i = (int64_t)(r.chance(1, 8) ? (r.chance(1, 2) ? 0 : n - 1) : r.below(n));
        a.set(i, v[k]);
        ref[(size_t)i] = v[k];
        int64_t g = a.get(i);
        if (g != v[k]) violation("split-value", "%d bits: wrote %lld at %lld, read %lld", (int)A::bits, (long long)v[k], (long long)i, (long long)g);
        for (int64_t j = i - 2; j <= i + 2; j++)
            if (j >= 0 && j < (int64_t)n && a.get(j) != ref[(size_t)j])
                violation("split-neighbour", "%d bits: writing element %lld changed element %lld to %lld, should be %lld", (int)A::bits, (long long)i, (long long)j, (long long)a.get(j), (long long)ref[(size_t)j]);
        if (k % 256 == 0)
            for (size_t j = 0; j < n; j++)
                if (a.get((int64_t)j) != ref[j]) violation("split-neighbour", "%d bits: element %zu is %lld, should be %lld", (int)A::bits, j, (long long)a.get((int64_t)j), (long long)ref[j]);
        // through pointers that were moved, as the suffix-array builders use them (index 0 and negative)
        evaluated(hash_bytes((const uint8_t *)&v[k], 8, A::bits), true);
    }
    char nm[48];
    snprintf(nm, sizeof nm, "%s_values", name);
    ctr(nm) += v.size();
}
// far indices: sparse arrays of more than 2^32 elements
template <class LT, class UT, class S, class G>
static void far(Rng &r, unsigned bits, S set, G get, const char *name)
{
    uint64_t n = (1ULL << 32) + (1 << 20);
    LT *L = (LT *)mmap(NULL, n * sizeof(LT), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    UT *U = (UT *)mmap(NULL, n * sizeof(UT), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (L == MAP_FAILED || U == MAP_FAILED) harness_error("mmap of a sparse array failed");
    const uint64_t at[] = {0, 1, (1ULL << 31) - 1, 1ULL << 31, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1, n - 1};
    int64_t want[8];
    for (int i = 0; i < 8; i++)
    {
        want[i] = (int64_t)(r.next() << (64 - bits)) >> (64 - bits);
        set(L, U, (int64_t)at[i], want[i]);
    }
    for (int i = 0; i < 8; i++)
        if (get(L, U, (int64_t)at[i]) != want[i])
            violation("split-far", "%u bits: element %llu reads %lld, wrote %lld", bits, (unsigned long long)at[i], (long long)get(L, U, (int64_t)at[i]), (long long)want[i]);
    munmap(L, n * sizeof(LT));
    munmap(U, n * sizeof(UT));
    ctr(name)++;
}
// the same for the three streams of a 56 bit array
static void far56(Rng &r)
{
    uint64_t n = (1ULL << 32) + (1 << 20);
    uint8_t *t = (uint8_t *)mmap(NULL, n * 7, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t == MAP_FAILED) harness_error("mmap of a sparse array failed");
    uint32_t *L = (uint32_t *)t;
    uint16_t *M = (uint16_t *)(t + 4 * n);
    int8_t *U = (int8_t *)(t + 6 * n);
    const uint64_t at[] = {0, 1, (1ULL << 31) - 1, 1ULL << 31, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1, n - 1};
    int64_t want[8];
    for (int i = 0; i < 8; i++) flbwt::set_56bit_value(L, M, U, (int64_t)at[i], want[i] = (int64_t)(r.next() << 8) >> 8);
    for (int i = 0; i < 8; i++)
        if (flbwt::get_56bit_value(L, M, U, (int64_t)at[i]) != want[i])
            violation("split-far", "56 bits: element %llu reads %lld, wrote %lld", (unsigned long long)at[i], (long long)flbwt::get_56bit_value(L, M, U, (int64_t)at[i]), (long long)want[i]);
    munmap(t, n * 7);
    ctr("far_arrays_of_three_streams")++;
}
static unsigned slow_bits(uint64_t v) { unsigned b = 0; while (v) { b++; v >>= 1; } return b; }
static void util(const char *spec)
{
    Spec s(spec);
    Rng r(s.num("seed", 1));
    uint64_t extra = s.num("extra", 20000);
    split<A40>(r, extra, "40bit");
    split<A48>(r, extra, "48bit");
    split<A56>(r, extra, "56bit");
    if (s.num("far", 0))
    {
        far<uint32_t, int8_t>(r, 40, [](uint32_t *l, int8_t *u, int64_t i, int64_t v) { flbwt::set_40bit_value(l, u, i, v); },
                              [](uint32_t *l, int8_t *u, int64_t i) { return flbwt::get_40bit_value(l, u, i); }, "far_arrays");
        far<uint32_t, int16_t>(r, 48, [](uint32_t *l, int16_t *u, int64_t i, int64_t v) { flbwt::set_48bit_value(l, u, i, v); },
                               [](uint32_t *l, int16_t *u, int64_t i) { return flbwt::get_48bit_value(l, u, i); }, "far_arrays");
        far56(r);
    }
    for (unsigned k = 0; k < 64; k++)
        for (int64_t d = -300; d <= 300; d++)
        {
            uint64_t v = (1ULL << k) + (uint64_t)d;
            if (!v) continue;
            if (flbwt::position_of_msb(v) != slow_bits(v)) violation("bit-length", "bit length of %llu is %u, reported %u", (unsigned long long)v, slow_bits(v), flbwt::position_of_msb(v));
            ctr("bit_lengths")++;
            evaluated(hash_bytes((const uint8_t *)&v, 8, 99), true);
        }
    for (uint64_t i = 0; i < extra * 4; i++)
    {
        uint64_t v = r.next() >> r.below(64);
        if (!v) continue;
        if (flbwt::position_of_msb(v) != slow_bits(v)) violation("bit-length", "bit length of %llu is %u, reported %u", (unsigned long long)v, slow_bits(v), flbwt::position_of_msb(v));
        ctr("bit_lengths")++;
        evaluated(hash_bytes((const uint8_t *)&v, 8, 99), true);
    }
    sample("%s -> all values read back, all bit lengths equal the shift-count reference", spec);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    if (!strcmp(g_mode, "util")) drive(util);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
