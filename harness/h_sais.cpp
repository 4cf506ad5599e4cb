// C19: the five suffix-array builders on integer sequences, checked in linear time.
//   sais: s,<kind>.. specs; long: analytic check of very long periodic sequences.
#include "common.hpp"
#include "packed_array.hpp"
#include "sais32bit.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "sais64bit.hpp"

static unsigned bits_of(uint64_t v) { unsigned b = 0; while (v) { b++; v >>= 1; } return b ? b : 1; }
// exactly n elements of uninitialised or garbage memory
template <class T> struct Buf
{
    T *p;
    Buf(uint64_t n, Rng *r) : p((T *)malloc(n * sizeof(T)))
    {
        if (!p) harness_error("out of memory");
#if !MSAN // there, uninitialised memory is the garbage
        if (r) for (uint64_t i = 0; i < n; i++) p[i] = (T)r->next();
#endif
    }
    ~Buf() { free(p); }
private:
    Buf(const Buf &);
};
// the suffix array a builder produced, as plain integers
static void run_builder(int width, const uint8_t *T, uint64_t fs, uint64_t n, uint64_t k, unsigned cs, Rng &r, int64_t *out)
{
    if (width == 32)
    {
        Buf<int32_t> S(n + fs, &r);
        flbwt::sais_32bit(T, S.p, fs, n, k, (uint8_t)cs);
        for (uint64_t i = 0; i < n; i++) out[i] = S.p[i];
    }
    else if (width == 40)
    {
        Buf<uint32_t> L(n + fs, &r); Buf<int8_t> U(n + fs, &r);
        flbwt::sais_40bit(T, NULL, NULL, L.p, U.p, fs, n, k, (uint8_t)cs);
        for (uint64_t i = 0; i < n; i++) out[i] = (int64_t)((uint64_t)(int64_t)U.p[i] << 32 | L.p[i]);
    }
    else if (width == 48)
    {
        Buf<uint32_t> L(n + fs, &r); Buf<int16_t> U(n + fs, &r);
        flbwt::sais_48bit(T, NULL, NULL, L.p, U.p, fs, n, k, (uint8_t)cs);
        for (uint64_t i = 0; i < n; i++) out[i] = (int64_t)((uint64_t)(int64_t)U.p[i] << 32 | L.p[i]);
    }
    else if (width == 56)
    {
        Buf<uint32_t> L(n + fs, &r); Buf<uint16_t> M(n + fs, &r); Buf<int8_t> U(n + fs, &r);
        flbwt::sais_56bit(T, NULL, NULL, NULL, L.p, M.p, U.p, fs, n, k, (uint8_t)cs);
        for (uint64_t i = 0; i < n; i++) out[i] = (int64_t)((uint64_t)(int64_t)U.p[i] << 48 | (uint64_t)M.p[i] << 32 | L.p[i]);
    }
    else
    {
        Buf<int64_t> S(n + fs, &r);
        flbwt::sais_64bit(T, S.p, fs, n, k, (uint8_t)cs);
        for (uint64_t i = 0; i < n; i++) out[i] = S.p[i];
    }
}
static void sais(const char *spec)
{
    Spec s(spec);
    // the sequence: bytes of an ordinary generator, packed `grp` at a time into one symbol, times `mul`
    char sub[SPEC_MAX];
    const char *in = strchr(spec, ';');
    if (!in) harness_error("bad spec %s", spec);
    snprintf(sub, sizeof sub, "%s", in + 1);
    Bytes t;
    if (!gen_spec(sub, t)) harness_error("bad spec %s", spec);
    uint64_t grp = s.num("grp", 1), mul = s.num("mul", 1), lowest = s.num("low", 0), seed = s.num("seed", 1);
    Rng r(seed);
    std::vector<uint64_t> q;
    for (size_t i = 0; i + grp <= t.size(); i += grp)
    {
        uint64_t v = 0;
        for (uint64_t j = 0; j < grp; j++) v = v << 8 | t[i + j];
        q.push_back(v);
    }
    if (s.num("rankmap", 0))
    { // compress the alphabet so that large symbols do not need a large table
        std::vector<uint64_t> u(q);
        std::sort(u.begin(), u.end());
        u.erase(std::unique(u.begin(), u.end()), u.end());
        for (size_t i = 0; i < q.size(); i++) q[i] = (uint64_t)(std::lower_bound(u.begin(), u.end(), q[i]) - u.begin());
    }
    uint64_t mx = 0;
    for (size_t i = 0; i < q.size(); i++) { q[i] = q[i] * mul + lowest + 1; if (q[i] > mx) mx = q[i]; }
    q.push_back(lowest);
    if (lowest > mx) mx = lowest;
    uint64_t n = q.size(), k = mx + 1;
    unsigned cs0 = bits_of(mx);
    std::vector<int64_t> sa(n), rank(n + 1);
    static const int W[] = {32, 40, 48, 56, 64};
    for (int wi = 0; wi < 5; wi++)
    {
        int width = W[wi];
        unsigned cs = cs0;
        // element widths wider than needed are as good
        if (r.chance(1, 2)) cs = (unsigned)r.range(cs0, (uint64_t)width - 1);
        // the builders read elements 1..n of a packed array (element 0 belongs to the head)
        flbwt::PackedArray P(n + 1, (uint8_t)cs);
        P.set_value(0, (cs == 64 ? ~0ULL : (1ULL << cs) - 1) & r.next());
        for (uint64_t i = 0; i < n; i++) P.set_value(i + 1, q[i]);
        // free entries behind the array, which the builder may use: around the alphabet size and its double
        uint64_t fs = 0;
        if (k < 4000000 && r.chance(1, 2))
            switch (r.below(6))
            {
            case 0: fs = k - 1; break;
            case 1: fs = k; break;
            case 2: fs = 2 * k - 1; break;
            case 3: fs = 2 * k; break;
            case 4: fs = 2 * k + r.below(3 * n + 5); break;
            default: fs = r.below(k + n);
            }
        COUNT("arrays_with_free_space", fs > 0);
        COUNT("arrays_with_space_for_one_table", fs >= k && fs < 2 * k);
        COUNT("arrays_with_space_for_two_tables", fs >= 2 * k);
        run_builder(width, (const uint8_t *)P.get_raw_arr_pointer(), fs, n, k, cs, r, sa.data());
        for (uint64_t i = 0; i < n; i++) rank[i] = -1;
        for (uint64_t i = 0; i < n; i++)
        {
            if (sa[i] < 0 || (uint64_t)sa[i] >= n) violation("range", "%d bit: entry %llu is %lld (n=%llu)", width, (unsigned long long)i, (long long)sa[i], (unsigned long long)n);
            if (rank[sa[i]] >= 0) violation("permutation", "%d bit: suffix %lld is listed twice (n=%llu)", width, (long long)sa[i], (unsigned long long)n);
            rank[sa[i]] = (int64_t)i;
        }
        rank[n] = -1;
        for (uint64_t i = 1; i < n; i++)
        {
            uint64_t a = (uint64_t)sa[i - 1], b = (uint64_t)sa[i];
            if (q[a] > q[b] || (q[a] == q[b] && rank[a + 1] > rank[b + 1]))
                violation("order", "%d bit: suffixes %llu and %llu at entries %llu, %llu are in the wrong order (n=%llu k=%llu element width %u, free space %llu)", width, (unsigned long long)a, (unsigned long long)b, (unsigned long long)i - 1, (unsigned long long)i, (unsigned long long)n, (unsigned long long)k, cs, (unsigned long long)fs);
        }
        for (uint64_t i = 0; i < n; i++)
            if (P.get_value(i + 1) != q[i]) violation("input-modified", "%d bit: the sequence was changed", width);
        char nm[32];
        snprintf(nm, sizeof nm, "arrays_checked_%dbit", width);
        ctr(nm)++;
        ctr_max("max_element_width", cs);
        COUNT("alphabets_larger_than_the_sequence", k > n);
        COUNT("alphabets_over_65536", k > 65536);
    }
    // recursion depth needed, by repeated naming of S*-substrings (statistics only)
    {
        unsigned depth = 0;
        std::vector<uint64_t> c(q);
        while (c.size() > 1 && c.size() <= 20000 && depth < 64)
        {
            size_t m = c.size();
            std::vector<uint8_t> st(m, 1);
            for (size_t i = m - 1; i-- > 0;) st[i] = c[i] < c[i + 1] || (c[i] == c[i + 1] && st[i + 1]);
            std::vector<size_t> ps;
            for (size_t i = 1; i < m; i++) if (st[i] && !st[i - 1]) ps.push_back(i);
            if (ps.size() < 2) break;
            std::vector<std::vector<uint64_t> > sub(ps.size());
            for (size_t i = 0; i < ps.size(); i++)
            {
                size_t e = i + 1 < ps.size() ? ps[i + 1] : ps[i];
                for (size_t j = ps[i]; j <= e; j++) sub[i].push_back(c[j] * 2 + (j == e));
            }
            std::vector<std::vector<uint64_t> > so(sub);
            std::sort(so.begin(), so.end());
            so.erase(std::unique(so.begin(), so.end()), so.end());
            if (so.size() == ps.size()) break;
            depth++;
            std::vector<uint64_t> nx(ps.size());
            for (size_t i = 0; i < ps.size(); i++) nx[i] = (uint64_t)(std::lower_bound(so.begin(), so.end(), sub[i]) - so.begin()) + 1;
            nx.back() = 0;
            c.swap(nx);
        }
        ctr_max("max_recursion_depth_needed", depth);
        COUNT("sequences_that_need_recursion", depth > 0);
        COUNT("sequences_that_need_three_levels", depth > 2);
    }
    ctr_max("max_n", n);
    ctr_max("max_alphabet", k);
    uint64_t id = 0;
    for (uint64_t i = 0; i < n; i++) id = (id ^ q[i]) * 1099511628211ULL + (id >> 31);
    evaluated(id, n > 3);
    if (st_eval % 499 == 5) sample("%s -> n=%llu k=%llu: five builders agree with the linear-time check", spec, (unsigned long long)n, (unsigned long long)k);
}
// (1 2)^h 0 or 2^m 0 with the suffix array known in closed form; only one builder per spec
static void lng(const char *spec)
{
    Spec s(spec);
    uint64_t n = s.num("n", 1001), per = s.num("per", 2);
    int width = (int)s.num("width", 40);
    if (!(n & 1)) n++;
    flbwt::PackedArray *P = new flbwt::PackedArray(n + 1, 2);
    P->set_value(0, 3);
    if (n > 4096)
    { // fill by whole words once the first ones are known: the pattern repeats every two symbols
        for (uint64_t i = 0; i < 2048; i++) P->set_value(i + 1, per == 1 ? 2 : 1 + i % 2);
        uint64_t *w = P->get_raw_arr_pointer(), words = (n + 1) * 2 / 64 + 1;
        for (uint64_t i = 2; i < words; i++) w[i] = w[1];
        for (uint64_t i = n - 40; i < n; i++) P->set_value(i + 1, per == 1 ? 2 : 1 + i % 2);
    }
    else for (uint64_t i = 0; i < n; i++) P->set_value(i + 1, per == 1 ? 2 : 1 + i % 2);
    P->set_value(n, 0);
    uint64_t h = (n - 1) / 2;
    auto want = [&](uint64_t i) -> int64_t {
        if (i == 0) return (int64_t)(n - 1);
        if (per == 1) return (int64_t)(n - 1 - i);
        return i <= h ? (int64_t)(n - 1 - 2 * i) : (int64_t)(n - 2 * (i - h));
    };
    const uint8_t *T = (const uint8_t *)P->get_raw_arr_pointer();
#define BAD(i, v) violation("long", "%d bit: entry %llu is %lld, should be %lld (n=%llu)", width, (unsigned long long)(i), (long long)(v), (long long)want(i), (unsigned long long)n)
    if (width == 40)
    {
        Buf<uint32_t> L(n, NULL); Buf<int8_t> U(n, NULL);
        flbwt::sais_40bit(T, NULL, NULL, L.p, U.p, 0, n, 3, 2);
        for (uint64_t i = 0; i < n; i++) { int64_t v = (int64_t)((uint64_t)(int64_t)U.p[i] << 32 | L.p[i]); if (v != want(i)) BAD(i, v); }
    }
    else if (width == 48)
    {
        Buf<uint32_t> L(n, NULL); Buf<int16_t> U(n, NULL);
        flbwt::sais_48bit(T, NULL, NULL, L.p, U.p, 0, n, 3, 2);
        for (uint64_t i = 0; i < n; i++) { int64_t v = (int64_t)((uint64_t)(int64_t)U.p[i] << 32 | L.p[i]); if (v != want(i)) BAD(i, v); }
    }
    else if (width == 56)
    {
        Buf<uint32_t> L(n, NULL); Buf<uint16_t> M(n, NULL); Buf<int8_t> U(n, NULL);
        flbwt::sais_56bit(T, NULL, NULL, NULL, L.p, M.p, U.p, 0, n, 3, 2);
        for (uint64_t i = 0; i < n; i++) { int64_t v = (int64_t)((uint64_t)(int64_t)U.p[i] << 48 | (uint64_t)M.p[i] << 32 | L.p[i]); if (v != want(i)) BAD(i, v); }
    }
    else if (width == 64)
    {
        Buf<int64_t> S(n, NULL);
        flbwt::sais_64bit(T, S.p, 0, n, 3, 2);
        for (uint64_t i = 0; i < n; i++) if (S.p[i] != want(i)) BAD(i, S.p[i]);
    }
    else
    {
        Buf<int32_t> S(n, NULL);
        flbwt::sais_32bit(T, S.p, 0, n, 3, 2);
        for (uint64_t i = 0; i < n; i++) if (S.p[i] != want(i)) BAD(i, S.p[i]);
    }
    delete P;
    COUNT("sequences_over_2^31", n >> 31);
    COUNT("sequences_over_2^32", n >> 32);
    ctr_max("max_n", n);
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), true);
    sample("%s -> n=%llu equals the closed form", spec, (unsigned long long)n);
}
static void random_sais(void (*run)(const char *))
{
    static char spec[SPEC_MAX], sub[SPEC_MAX];
    Rng r(g_seed * 1000003 + g_part);
    for (uint64_t i = 0; i < g_cases; i++)
    {
        random_spec(r, g_max ? g_max : 1000, sub);
        if (r.chance(1, 40)) snprintf(sub, sizeof sub, "hex,d=%02x", (unsigned)r.below(256));
        unsigned grp = r.chance(1, 2) ? 1 : (unsigned)r.range(1, 6);
        unsigned long long mul = grp == 1 && r.chance(1, 3) ? r.range(1, 500) : 1;
        snprintf(spec, sizeof spec, "s,grp=%u,mul=%llu,low=%u,rankmap=%d,seed=%u;%s", grp, mul, r.chance(1, 4) ? (unsigned)r.below(9) : 0u, grp > 2 ? 1 : (int)r.below(2), (unsigned)r.below(1u << 30), sub);
        set_case(spec);
        run(spec);
    }
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    if (!strcmp(g_mode, "sais")) { if (g_one || g_specs) drive(sais); else random_sais(sais); }
    else if (!strcmp(g_mode, "long")) drive(lng);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
