// C09: the same transform at every suffix-array integer width (hooked build). For each input,
// the stored positions are rebased so that the largest one lands at, just below and just above
// every width boundary, and at random other places.
#include "width.hpp"
// How often each builder really ran (weak: absent symbols are simply not counted).
extern "C" {
#define W2(name, mangled) \
    void __real_##mangled(const uint8_t *, uint32_t *, name *, uint32_t *, name *, uint64_t, uint64_t, uint64_t, uint8_t) __attribute__((weak)); \
    void __wrap_##mangled(const uint8_t *a, uint32_t *b, name *c, uint32_t *d, name *e, uint64_t f, uint64_t g, uint64_t h, uint8_t i) \
    { ctr("ran_" #mangled)++; __real_##mangled(a, b, c, d, e, f, g, h, i); }
W2(int8_t, _ZN5flbwt10sais_40bitEPKhPjPaS2_S3_mmmh)
W2(int16_t, _ZN5flbwt10sais_48bitEPKhPjPsS2_S3_mmmh)
void __real__ZN5flbwt10sais_56bitEPKhPjPtPaS2_S3_S4_mmmh(const uint8_t *, uint32_t *, uint16_t *, int8_t *, uint32_t *, uint16_t *, int8_t *, uint64_t, uint64_t, uint64_t, uint8_t) __attribute__((weak));
void __wrap__ZN5flbwt10sais_56bitEPKhPjPtPaS2_S3_S4_mmmh(const uint8_t *a, uint32_t *b, uint16_t *c, int8_t *d, uint32_t *e, uint16_t *f, int8_t *g, uint64_t h, uint64_t i, uint64_t j, uint8_t k)
{ ctr("ran_sais_56bit")++; __real__ZN5flbwt10sais_56bitEPKhPjPtPaS2_S3_S4_mmmh(a, b, c, d, e, f, g, h, i, j, k); }
void __real__ZN5flbwt10sais_64bitEPKhPlmmmh(const uint8_t *, int64_t *, uint64_t, uint64_t, uint64_t, uint8_t) __attribute__((weak));
void __wrap__ZN5flbwt10sais_64bitEPKhPlmmmh(const uint8_t *a, int64_t *b, uint64_t c, uint64_t d, uint64_t e, uint8_t f)
{ ctr("ran_sais_64bit")++; __real__ZN5flbwt10sais_64bitEPKhPlmmmh(a, b, c, d, e, f); }
void __real__ZN5flbwt10sais_32bitEPKhPimmmh(const uint8_t *, int32_t *, uint64_t, uint64_t, uint64_t, uint8_t) __attribute__((weak));
void __wrap__ZN5flbwt10sais_32bitEPKhPimmmh(const uint8_t *a, int32_t *b, uint64_t c, uint64_t d, uint64_t e, uint8_t f)
{ ctr("ran_sais_32bit")++; __real__ZN5flbwt10sais_32bitEPKhPimmmh(a, b, c, d, e, f); }
}

static void one(const Bytes &t, uint64_t target, bool freeing)
{
    w_target = target;
    w_used = 0;
    uint64_t calls0 = w_calls;
    uint8_t *T = malloc_copy(t);
    Outcome o = call_string(T, t.size(), freeing);
    if (w_calls == calls0 && !o.threw) harness_error("the hook was not called");
    char pre[32];
    snprintf(pre, sizeof pre, "width%d", w_width(w_used));
    check_result(pre, t, o);
    if (o.threw || !freeing) { if (!o.threw) free(T); }
    release(o.r);
    char nm[40];
    snprintf(nm, sizeof nm, "calls_with_%dbit_values", w_width(w_used));
    ctr(nm)++;
    ctr("hook_calls")++;
    int b = w_bits(w_used), near = 0;
    for (int d = -4; d <= 4; d++)
        for (int k = 31; k < 63; k += 8) if (w_used + (uint64_t)(int64_t)d == 1ULL << k) near = 1;
    COUNT("largest_value_within_4_of_a_width_boundary", near);
    ctr_max("max_bits_of_a_stored_value", b);
    evaluated(hash_bytes(t.data(), t.size(), target), w_used == target && target);
}
static void width(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    Spec s(spec);
    if (s.find("wk"))
    {
        one(t, w_parse(s), false);
        return;
    }
    Rng r(hash_bytes(t.data(), t.size()));
    static char sub[SPEC_MAX];
    one(t, 0, false);
    uint64_t nat = w_natural;
    for (int i = 0; i < 40; i++)
    {
        int k = i < 20 ? 31 + 8 * (i % 4) : (int)r.range((uint64_t)w_bits(nat) + 1, 62);
        int64_t d = i < 20 ? i / 4 - 2 : i < 30 ? (int64_t)r.below(80) - 40 : (int64_t)r.below(1ULL << (k > 40 ? 30 : k - 2));
        if (k > 62) continue;
        uint64_t target = (1ULL << k) + (uint64_t)d;
        if (target <= nat || target > (1ULL << 62)) continue;
        if (t.size() > 20000 && i % 5) continue;
        snprintf(sub, sizeof sub, "%s,wk=%d,wd=%llu", spec, k, (unsigned long long)(1000 + d));
        set_case(sub);
        one(t, target, i & 1);
    }
    Lms l(t);
    note_features(t, l);
    if (ctr("inputs")++ % 97 == 5) sample("%s -> n=%zu natural largest position %llu; same rows at every rebased width", spec, t.size(), (unsigned long long)nat);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    w_install();
    if (!strcmp(g_mode, "width")) drive(width);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
