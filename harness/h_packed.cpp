// C17: the packed array against a plain array. spec: p,w=..,len=..,ops=..,seed=..,pat=..
// "far" mode: very long arrays, touched sparsely around word boundaries and index limits.
#include "common.hpp"
#include "packed_array.hpp"
#include <map>

static uint64_t val(Rng &r, unsigned w)
{
    uint64_t m = w == 64 ? ~0ULL : (1ULL << w) - 1;
    switch (r.below(6))
    {
    case 0: return 0;
    case 1: return m;
    case 2: return 1ULL << r.below(w);
    case 3: return m & ~(1ULL << r.below(w));
    case 4: return m & 0xaaaaaaaaaaaaaaaaULL;
    default: return r.next() & m;
    }
}
// One array, or several of different widths and lengths that are used in turn ("k").
struct One
{
    unsigned w;
    uint64_t len, seq, written;
    flbwt::PackedArray *a;
    std::vector<uint64_t> ref;
    std::vector<uint8_t> set;
};
static void near(const char *spec)
{
    Spec s(spec);
    Rng r(s.num("seed", 1));
    unsigned w0 = (unsigned)s.num("w", 1), pat = (unsigned)s.num("pat", 0), K = (unsigned)s.num("k", 1);
    uint64_t len0 = s.num("len", 10), ops = s.num("ops", 100), split = 0, total = 0;
    std::vector<One> all(K);
    for (unsigned k = 0; k < K; k++)
    {
        One &o = all[k];
        o.w = k ? 1 + (unsigned)r.below(64) : w0;
        o.len = k ? 1 + r.below(2 * len0) : len0;
        o.seq = o.written = 0;
        o.a = new flbwt::PackedArray(o.len, (uint8_t)o.w);
        if (o.a->get_length() != o.len) violation("length", "length %llu reported, created with %llu", (unsigned long long)o.a->get_length(), (unsigned long long)o.len);
        if (o.a->get_integer_bits() != o.w) violation("width", "width %d reported, created with %u", o.a->get_integer_bits(), o.w);
        o.ref.assign(o.len, 0);
        o.set.assign(o.len, 0);
    }
    auto scan = [&](One &o) {
        for (uint64_t i = 0; i < o.len; i++)
            if (o.set[i])
            {
                uint64_t g = o.a->get_value(i);
                if (g != o.ref[i]) violation("value", "w=%u length=%llu: element %llu is %llx, last written %llx", o.w, (unsigned long long)o.len, (unsigned long long)i, (unsigned long long)g, (unsigned long long)o.ref[i]);
                ctr("reads")++;
            }
    };
    for (uint64_t op = 0; op < ops && len0; op++)
    {
        One &o = all[K > 1 ? r.below(K) : 0];
        uint64_t len = o.len;
        unsigned w = o.w;
        uint64_t i = pat == 0 ? r.below(len) : pat == 1 ? o.seq++ % len : pat == 2 ? len - 1 - o.seq++ % len : r.chance(1, 2) ? len - 1 : r.below(len < 8 ? len : 8);
        uint64_t v = val(r, w);
        o.a->set_value(i, v);
        o.ref[i] = v;
        o.written += !o.set[i];
        o.set[i] = 1;
        split += (i * w) % 64 + w > 64;
        // neighbours at once, everything now and then
        for (uint64_t j = i > 65 ? i - 65 : 0; j < len && j <= i + 65; j += (j + 2 > i && j < i + 2) ? 1 : 1 + r.below(9))
            if (o.set[j])
            {
                uint64_t g = o.a->get_value(j);
                if (g != o.ref[j]) violation("value", "w=%u length=%llu: after writing element %llu, element %llu is %llx, last written %llx", w, (unsigned long long)len, (unsigned long long)i, (unsigned long long)j, (unsigned long long)g, (unsigned long long)o.ref[j]);
                ctr("reads")++;
            }
        if (r.chance(1, 64)) for (One &x : all) scan(x);
    }
    for (One &o : all) scan(o);
    for (One &o : all)
    {
        if (o.a->get_length() != o.len || o.a->get_integer_bits() != o.w) violation("length", "length or width changed");
        COUNT("arrays_completely_written", o.written == o.len && o.len);
        COUNT("arrays_ending_exactly_at_a_word", o.len && (o.len * o.w) % 64 == 0);
        total += o.written;
        delete o.a;
    }
    ctr("writes") += ops;
    ctr("writes_across_a_word_boundary") += split;
    COUNT("several_arrays_in_turn", K > 1);
    char nm[32];
    snprintf(nm, sizeof nm, "width_%02u", w0);
    ctr(nm)++;
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), len0 > 1);
    if (st_eval % 211 == 5) sample("%s -> %llu elements written, all reads equal the last write", spec, (unsigned long long)total);
}
static void far(const char *spec)
{
    Spec s(spec);
    Rng r(s.num("seed", 1));
    unsigned w = (unsigned)s.num("w", 1);
    uint64_t len = s.num("len", 10), ops = s.num("ops", 3000);
    flbwt::PackedArray *a = new flbwt::PackedArray(len, (uint8_t)w);
    if (a->get_length() != len) violation("length", "length %llu reported, created with %llu", (unsigned long long)a->get_length(), (unsigned long long)len);
    std::map<uint64_t, uint64_t> ref;
    std::vector<uint64_t> C; // centres: where index or bit offset crosses a power of two
    for (int k = 8; k < 64; k++)
    {
        if ((1ULL << k) < len) C.push_back(1ULL << k);
        if ((1ULL << k) / w < len) C.push_back((1ULL << k) / w);
    }
    C.push_back(len - 1);
    C.push_back(0);
    for (uint64_t op = 0; op < ops; op++)
    {
        uint64_t c = r.chance(1, 8) ? r.below(len) : C[r.below(C.size())], i = c + r.below(9);
        i = i < 4 ? 0 : i - 4;
        if (i >= len) i = len - 1;
        uint64_t v = val(r, w);
        a->set_value(i, v);
        ref[i] = v;
        ctr("writes")++;
        COUNT("writes_beyond_index_2^31", i >> 31);
        COUNT("writes_beyond_index_2^32", i >> 32);
        COUNT("writes_beyond_bit_2^33", i * w >> 33);
    }
    for (std::map<uint64_t, uint64_t>::iterator it = ref.begin(); it != ref.end(); ++it)
    {
        uint64_t g = a->get_value(it->first);
        if (g != it->second) violation("value", "w=%u length=%llu: element %llu is %llx, last written %llx", w, (unsigned long long)len, (unsigned long long)it->first, (unsigned long long)g, (unsigned long long)it->second);
        ctr("reads")++;
    }
    delete a;
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), true);
    sample("%s -> %zu elements written, all reads equal the last write", spec, ref.size());
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    if (!strcmp(g_mode, "near")) drive(near);
    else if (!strcmp(g_mode, "far")) drive(far);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
