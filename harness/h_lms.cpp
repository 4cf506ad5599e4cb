// Decomposition and naming stages (C14, C15) against the textbook definitions.
#include "api.hpp"

static void cleanup(flbwt::Container *c, uint8_t **s, flbwt::PackedArray *t1)
{
    if (s) free(s);
    delete t1;
    delete c;
}
// number of distinct S*-substrings when the end marker counts as byte 0 (zero=true) or as a
// symbol of its own; both readings of "distinct" are accepted for the last substring
static int sym(const Bytes &t, uint64_t i, bool zero) { return i < t.size() ? t[i] : zero ? 0 : -1; }
static int cmp_sub(const Bytes &t, const Lms &l, uint64_t a, uint64_t b, bool zero)
{
    uint64_t n = t.size(), la = l.length(a, n), lb = l.length(b, n), pa = l.pos[a], pb = l.pos[b];
    for (uint64_t i = 0; i < la && i < lb; i++)
    {
        int x = sym(t, pa + i, zero), y = sym(t, pb + i, zero);
        if (x != y) return x < y ? -1 : 1;
    }
    return la == lb ? 0 : la > lb ? -1 : 1; // the longer one first
}
static void ranks(const Bytes &t, const Lms &l, bool zero, std::vector<uint64_t> &name, uint64_t &u)
{
    std::vector<uint32_t> o(l.num);
    for (uint64_t i = 0; i < l.num; i++) o[i] = (uint32_t)i;
    std::sort(o.begin(), o.end(), [&](uint32_t a, uint32_t b) { return cmp_sub(t, l, a, b, zero) < 0; });
    name.assign(l.num, 0);
    u = 0;
    for (uint64_t i = 0; i < l.num; i++)
    {
        if (i == 0 || cmp_sub(t, l, o[i - 1], o[i], zero)) u++;
        name[o[i]] = u;
    }
}
static void c14(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    uint64_t n = t.size();
    Lms l(t);
    uint8_t *T = malloc_copy(t);
    flbwt::Container *c = NULL;
    try { c = flbwt::extract_LMS_strings(T, n); }
    catch (...) { violation("decomposition-exception", "decomposition of a valid input threw (n=%llu)", (unsigned long long)n); }
    if (c->num_of_substrings != l.num)
        violation("count", "%llu S*-substrings reported, there are %llu (n=%llu)", (unsigned long long)c->num_of_substrings, (unsigned long long)l.num, (unsigned long long)n);
    if (c->head_string_end != l.head_end(n))
        violation("head", "head ends at %llu, should be %llu (n=%llu)", (unsigned long long)c->head_string_end, (unsigned long long)l.head_end(n), (unsigned long long)n);
    uint64_t M[256], L[256], C[256];
    memset(M, 0, sizeof M); memset(L, 0, sizeof L); memset(C, 0, sizeof C);
    for (uint64_t i = 0; i < n; i++) { M[t[i]]++; L[t[i]] += !l.stype[i]; }
    for (uint64_t i = 0; i < l.num; i++) C[t[l.pos[i]]]++;
    for (int b = 0; b < 256; b++)
    {
        if (c->M[b + 1] != M[b]) violation("positions", "byte %d: %llu positions reported, there are %llu", b, (unsigned long long)c->M[b + 1], (unsigned long long)M[b]);
        if (c->NL[b + 1] != L[b]) violation("l-positions", "byte %d: %llu L positions reported, there are %llu", b, (unsigned long long)c->NL[b + 1], (unsigned long long)L[b]);
        if (c->C[b + 1] != C[b]) violation("s*-positions", "byte %d: %llu S* positions reported, there are %llu", b, (unsigned long long)c->C[b + 1], (unsigned long long)C[b]);
    }
    // distinct substrings: exact comparison for inputs of ordinary size, 64-bit hashes beyond
    uint64_t u0 = l.uniq, u1 = l.uniq;
    if (n <= 100000)
    {
        std::vector<uint64_t> nm;
        ranks(t, l, true, nm, u0);
        ranks(t, l, false, nm, u1);
        if (u0 != l.uniq) harness_error("the oracle disagrees with itself");
    }
    if (c->num_of_unique_substrings != u0 && c->num_of_unique_substrings != u1)
        violation("distinct", "%llu distinct S*-substrings reported, there are %llu (n=%llu)", (unsigned long long)c->num_of_unique_substrings, (unsigned long long)u0, (unsigned long long)n);
    COUNT("last_substring_equals_another_ending_in_byte_0", u0 != u1);
    ctr("s_star_positions_checked") += l.num;
    cleanup(c, NULL, NULL);
    free(T);
    note_features(t, l);
    evaluated(hash_bytes(t.data(), n), l.num > 0);
    if (st_eval % 997 == 5) sample("%s -> n=%llu S*=%llu distinct=%llu head=%llu all counts equal", spec, (unsigned long long)n, (unsigned long long)l.num, (unsigned long long)l.uniq, (unsigned long long)l.head_end(n));
}
static void c15(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    uint64_t n = t.size();
    Lms l(t);
    uint8_t *T = malloc_copy(t);
    flbwt::Container *c = NULL;
    uint8_t **s = NULL;
    flbwt::PackedArray *t1 = NULL;
    const char *stage = "decomposition";
    try
    {
        c = flbwt::extract_LMS_strings(T, n);
        stage = "naming";
        s = flbwt::sort_LMS_strings(T, c);
        stage = "shortening";
        t1 = flbwt::create_shortened_string(T, n, c);
    }
    catch (...) { violation("exception", "%s of a valid input threw (n=%llu)", stage, (unsigned long long)n); }
    uint64_t u = c->num_of_unique_substrings;
    if (t1->get_length() != l.num + 2)
        violation("shortened-length", "shortened string has %llu symbols, should have %llu", (unsigned long long)t1->get_length(), (unsigned long long)l.num + 2);
    // names in text order
    std::vector<uint64_t> a, b, got(l.num);
    for (uint64_t i = 0; i < l.num; i++) got[i] = t1->get_value(i + 1);
    uint64_t ua, ub;
    ranks(t, l, true, a, ua);
    ranks(t, l, false, b, ub);
    const std::vector<uint64_t> &ref = got == b && got != a ? b : a;
    uint64_t ur = &ref == &a ? ua : ub;
    for (uint64_t i = 0; i < l.num; i++)
        if (got[i] != ref[i])
            violation("name", "S*-substring %llu (at %llu, length %llu) is named %llu, should be %llu (n=%llu)", (unsigned long long)i, (unsigned long long)l.pos[i],
                      (unsigned long long)l.length(i, n), (unsigned long long)got[i], (unsigned long long)ref[i], (unsigned long long)n);
    if (u != ur) violation("distinct", "%llu distinct names, should be %llu", (unsigned long long)u, (unsigned long long)ur);
    if (t1->get_value(0) != u + 1) violation("head-name", "head is named %llu, should be %llu", (unsigned long long)t1->get_value(0), (unsigned long long)u + 1);
    if (t1->get_value(l.num + 1) != 0) violation("end-name", "end marker is named %llu", (unsigned long long)t1->get_value(l.num + 1));
    // the table that maps names to stored substrings
    std::vector<uint64_t> first(u + 1, (uint64_t)-1);
    for (uint64_t i = 0; i < l.num; i++) if (first[ref[i]] == (uint64_t)-1) first[ref[i]] = i;
    for (uint64_t k = 1; k <= u + 1; k++)
    {
        uint64_t at = k <= u ? l.pos[first[k]] : 0, len = k <= u ? l.length(first[k], n) : l.head_end(n) + 1;
        if (c->hashtable->get_name(s[k]) != k) violation("table-name", "entry %llu of the name table carries name %llu", (unsigned long long)k, (unsigned long long)c->hashtable->get_name(s[k]));
        if (c->hashtable->get_length(s[k]) != len) violation("table-length", "substring named %llu is stored with length %llu, should be %llu", (unsigned long long)k, (unsigned long long)c->hashtable->get_length(s[k]), (unsigned long long)len);
        const uint8_t *p = c->hashtable->get_first_character_pointer(s[k]);
        if (memcmp(p, T + at, len)) violation("table-bytes", "substring named %llu is stored with other bytes", (unsigned long long)k);
    }
    ctr("names_checked") += l.num;
    // order of the shortened suffixes and of the input's suffixes
    if (n <= 1500 && l.num)
    {
        std::vector<uint32_t> o(l.num);
        for (uint64_t i = 0; i < l.num; i++) o[i] = (uint32_t)i;
        std::sort(o.begin(), o.end(), [&](uint32_t x, uint32_t y) {
            if (x == y) return false;
            uint64_t la = n - l.pos[x], lb = n - l.pos[y], m = la < lb ? la : lb;
            int d = memcmp(T + l.pos[x], T + l.pos[y], m);
            return d ? d < 0 : la < lb;
        });
        for (uint64_t i = 1; i < l.num; i++)
        {
            uint64_t x = o[i - 1] + 1, y = o[i] + 1;
            while (t1->get_value(x) == t1->get_value(y)) { x++; y++; if (x > l.num + 1 || y > l.num + 1) break; }
            bool less = y <= l.num + 1 && x <= l.num + 1 && t1->get_value(x) < t1->get_value(y);
            if (!less) violation("suffix-order", "suffixes at %llu and %llu are ordered differently in the shortened string", (unsigned long long)l.pos[o[i - 1]], (unsigned long long)l.pos[o[i]]);
            ctr("suffix_pairs_compared")++;
        }
    }
    // prefix pairs actually met
    {
        uint64_t pp = 0;
        for (uint64_t k = 1; k < u; k++)
        {
            uint64_t i = first[k], j = first[k + 1], li = l.length(i, n), lj = l.length(j, n);
            if (lj < li && !memcmp(T + l.pos[i], T + l.pos[j], lj)) pp++;
        }
        ctr("adjacent_names_where_one_is_a_prefix") += pp;
    }
    cleanup(c, s, t1);
    free(T);
    note_features(t, l);
    evaluated(hash_bytes(t.data(), n), l.num > 1);
    if (st_eval % 997 == 5) sample("%s -> n=%llu S*=%llu names 1..%llu in order", spec, (unsigned long long)n, (unsigned long long)l.num, (unsigned long long)u);
}
static void exh(void (*run)(const char *))
{
    static char spec[SPEC_MAX];
    uint64_t idx = 0;
    for (int s = 2; s <= 4; s++)
        for (int a = 0; a < NALPHA; a++)
        {
            uint64_t tot = 1;
            for (int l = 1;; l++)
            {
                tot *= s;
                if (tot > (g_max ? g_max : 4000)) break;
                for (uint64_t i = 0; i < tot; i++)
                    if (idx++ % g_parts == g_part)
                    {
                        snprintf(spec, sizeof spec, "enum,a=%d,s=%d,l=%d,i=%llu", a, s, l, (unsigned long long)i);
                        set_case(spec);
                        run(spec);
                    }
            }
        }
}
// Inputs beyond 2^32 bytes, given as runs; zero bytes are never touched pages, the definitions are
// applied while scanning from right to left. spec: g,r=<byte>.<length>_<byte>.<length>...
#include <sys/mman.h>
struct Sparse
{
    uint8_t *t;
    uint64_t n, M[256], L[256], C[256];
    std::vector<uint64_t> pos; // S* positions in text order
    Sparse(const char *spec) : t(NULL), n(0)
    {
        const char *r = strstr(spec, "r=");
        if (!r) harness_error("bad spec %s", spec);
        std::vector<std::pair<int, uint64_t> > runs;
        for (const char *p = r + 2;;)
        {
            char *e;
            int b = (int)strtoul(p, &e, 10);
            if (*e != '.') harness_error("bad spec %s", spec);
            uint64_t l = strtoull(e + 1, &e, 10);
            runs.push_back(std::make_pair(b, l));
            n += l;
            if (*e != '_') break;
            p = e + 1;
        }
        t = (uint8_t *)mmap(NULL, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (t == MAP_FAILED) harness_error("mmap");
        uint64_t at = 0;
        for (size_t i = 0; i < runs.size(); i++) { if (runs[i].first) memset(t + at, runs[i].first, runs[i].second); at += runs[i].second; }
        memset(M, 0, sizeof M); memset(L, 0, sizeof L); memset(C, 0, sizeof C);
        bool right = false; // the end marker is smaller: the last byte is L
        M[t[n - 1]]++; L[t[n - 1]]++;
        for (uint64_t i = n - 1; i-- > 0;)
        {
            bool st = t[i] != t[i + 1] ? t[i] < t[i + 1] : right;
            M[t[i]]++;
            L[t[i]] += !st;
            if (!st && right) { pos.push_back(i + 1); C[t[i + 1]]++; }
            right = st;
        }
        std::reverse(pos.begin(), pos.end());
    }
    ~Sparse() { munmap(t, n + 1); }
    uint64_t length(uint64_t i) const { return (i + 1 < pos.size() ? pos[i + 1] : n) - pos[i] + 1; } // the last one ends with the NUL
    int cmp(uint64_t a, uint64_t b) const
    {
        uint64_t la = length(a), lb = length(b);
        int d = memcmp(t + pos[a], t + pos[b], la < lb ? la : lb);
        return d ? d : la == lb ? 0 : la > lb ? -1 : 1;
    }
};
static void huge(const char *spec)
{
    Sparse x(spec);
    bool naming = !strcmp(g_mode, "huge15");
    uint64_t num = x.pos.size(), head = num ? x.pos[0] : x.n;
    flbwt::Container *c = NULL;
    uint8_t **s = NULL;
    flbwt::PackedArray *t1 = NULL;
    try
    {
        c = flbwt::extract_LMS_strings(x.t, x.n);
        if (naming)
        {
            s = flbwt::sort_LMS_strings(x.t, c);
            t1 = flbwt::create_shortened_string(x.t, x.n, c);
        }
    }
    catch (...) { violation("exception", "an input of %llu bytes threw", (unsigned long long)x.n); }
    std::vector<uint64_t> o(num), name(num);
    for (uint64_t i = 0; i < num; i++) o[i] = i;
    std::sort(o.begin(), o.end(), [&](uint64_t a, uint64_t b) { return a != b && x.cmp(a, b) < 0; });
    uint64_t u = 0;
    for (uint64_t i = 0; i < num; i++) { if (i == 0 || x.cmp(o[i - 1], o[i])) u++; name[o[i]] = u; }
    if (c->num_of_substrings != num) violation("count", "%llu S*-substrings reported, there are %llu (n=%llu)", (unsigned long long)c->num_of_substrings, (unsigned long long)num, (unsigned long long)x.n);
    if (c->num_of_unique_substrings != u) violation("distinct", "%llu distinct S*-substrings reported, there are %llu (n=%llu)", (unsigned long long)c->num_of_unique_substrings, (unsigned long long)u, (unsigned long long)x.n);
    if (c->head_string_end != head) violation("head", "head ends at %llu, should be %llu", (unsigned long long)c->head_string_end, (unsigned long long)head);
    for (int b = 0; b < 256; b++)
    {
        if (c->M[b + 1] != x.M[b]) violation("positions", "byte %d: %llu positions reported, there are %llu", b, (unsigned long long)c->M[b + 1], (unsigned long long)x.M[b]);
        if (c->NL[b + 1] != x.L[b]) violation("l-positions", "byte %d: %llu L positions reported, there are %llu", b, (unsigned long long)c->NL[b + 1], (unsigned long long)x.L[b]);
        if (c->C[b + 1] != x.C[b]) violation("s*-positions", "byte %d: %llu S* positions reported, there are %llu", b, (unsigned long long)c->C[b + 1], (unsigned long long)x.C[b]);
    }
    if (naming)
    {
        if (t1->get_length() != num + 2) violation("shortened-length", "shortened string has %llu symbols, should have %llu", (unsigned long long)t1->get_length(), (unsigned long long)num + 2);
        if (t1->get_value(0) != u + 1 || t1->get_value(num + 1) != 0) violation("head-name", "head and end marker are named %llu and %llu", (unsigned long long)t1->get_value(0), (unsigned long long)t1->get_value(num + 1));
        for (uint64_t i = 0; i < num; i++)
            if (t1->get_value(i + 1) != name[i]) violation("name", "S*-substring %llu (at %llu, length %llu) is named %llu, should be %llu", (unsigned long long)i, (unsigned long long)x.pos[i], (unsigned long long)x.length(i), (unsigned long long)t1->get_value(i + 1), (unsigned long long)name[i]);
        for (uint64_t k = 1; k <= u + 1; k++)
        {
            uint64_t at = 0, len = head + 1;
            for (uint64_t i = 0; i < num; i++) if (name[i] == k) { at = x.pos[i]; len = x.length(i); }
            if (c->hashtable->get_name(s[k]) != k) violation("table-name", "entry %llu of the name table carries name %llu", (unsigned long long)k, (unsigned long long)c->hashtable->get_name(s[k]));
            if (c->hashtable->get_length(s[k]) != len) violation("table-length", "substring named %llu is stored with length %llu, should be %llu", (unsigned long long)k, (unsigned long long)c->hashtable->get_length(s[k]), (unsigned long long)len);
            if (memcmp(c->hashtable->get_first_character_pointer(s[k]), x.t + at, len)) violation("table-bytes", "substring named %llu is stored with other bytes", (unsigned long long)k);
        }
    }
    cleanup(c, s, t1);
    COUNT("inputs_over_2^32", x.n >> 32);
    COUNT("heads_over_2^32", head >> 32);
    for (uint64_t i = 0; i < num; i++) COUNT("substrings_over_2^32", x.length(i) >> 32);
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), true);
    sample("%s -> n=%llu S*=%llu distinct=%llu as defined", spec, (unsigned long long)x.n, (unsigned long long)num, (unsigned long long)u);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    if (!strcmp(g_mode, "c14")) drive(c14);
    else if (!strcmp(g_mode, "c15")) drive(c15);
    else if (!strcmp(g_mode, "exh14")) { if (g_one) drive(c14); else exh(c14); }
    else if (!strcmp(g_mode, "exh15")) { if (g_one) drive(c15); else exh(c15); }
    else if (!strncmp(g_mode, "huge", 4)) drive(huge);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
