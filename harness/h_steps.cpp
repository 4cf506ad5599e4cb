// C22: basic blocks executed by a transform (trace-pc instrumented build) against the bound.
#include "api.hpp"
static uint64_t steps;
static bool counting;
static uint64_t limit;
static uint64_t cur_n, total_bulk;
extern "C" void __sanitizer_cov_trace_pc()
{
    if (counting && ++steps > limit)
    {
        counting = false;
        violation("steps", "more than %llu basic blocks executed for n=%llu and still running", (unsigned long long)limit, (unsigned long long)cur_n);
    }
}
// memory routines of libc hide their loops: every 8 bytes they handle count as one block
static inline void bulk(size_t k)
{
    if (!counting) return;
    steps += k / 8;
    total_bulk += k;
    __sanitizer_cov_trace_pc();
}
extern "C" {
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
int __real_bcmp(const void *, const void *, size_t);
void *__real_memchr(const void *, int, size_t);
size_t __real_strlen(const char *);
void *__wrap_memcpy(void *a, const void *b, size_t k) { bulk(k); return __real_memcpy(a, b, k); }
void *__wrap_memmove(void *a, const void *b, size_t k) { bulk(k); return __real_memmove(a, b, k); }
void *__wrap_memset(void *a, int b, size_t k) { bulk(k); return __real_memset(a, b, k); }
// (a comparison ends at the first difference)
int __wrap_memcmp(const void *a, const void *b, size_t k)
{
    size_t at = 0;
    int d = 0;
    while (at < k && d == 0)
    {
        size_t part = k - at < 64 ? k - at : 64;
        d = __real_memcmp((const char *)a + at, (const char *)b + at, part);
        at += part;
    }
    bulk(at);
    return d;
}
int __wrap_bcmp(const void *a, const void *b, size_t k) { return __wrap_memcmp(a, b, k); }
void *__wrap_memchr(const void *a, int b, size_t k) { bulk(k); return __real_memchr(a, b, k); }
size_t __wrap_strlen(const char *a) { size_t k = __real_strlen(a); bulk(k); return k; }
}
static void st(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    if (t.size() > (4u << 20)) t.resize(4u << 20);
    cur_n = t.size();
    limit = 1000000 + 500 * cur_n;
    steps = 0;
    bool threw;
    // the calls of the other kinds only for inputs of moderate size
    unsigned kind = cur_n > 200000 && !strstr(spec, "any=1") ? 0 : (unsigned)(hash_bytes((const uint8_t *)spec, strlen(spec)) % 3);
    if (kind == 2)
    {
        char in[600], out[600];
        snprintf(in, sizeof in, "%s/steps-in", g_tmp);
        snprintf(out, sizeof out, "%s/steps-out", g_tmp);
        FILE *f = fopen(in, "wb");
        if (!f || fwrite(t.data(), 1, cur_n, f) != cur_n || fclose(f)) harness_error("cannot write %s", in);
        counting = true;
        threw = false;
        try { flbwt::bwt_file(in, out); } catch (...) { threw = true; }
        counting = false;
        unlink(in);
        unlink(out);
        ctr("file_transforms_counted")++;
    }
    else
    {
        uint8_t *T = malloc_copy(t);
        counting = true;
        Outcome o = call_string(T, cur_n, kind == 1);
        counting = false;
        threw = o.threw;
        release(o.r);
        if (kind == 0) free(T);
        if (kind == 1) ctr("freeing_transforms_counted")++;
    }
    if (!steps) harness_error("no instrumented code was executed");
    COUNT("calls_that_threw", threw);
    ctr("basic_blocks_counted") += steps;
    if (cur_n >= 100000) { ctr_max("max_blocks_per_byte_x100_of_inputs_over_100000_bytes", steps * 100 / cur_n); ctr("inputs_over_100000_bytes")++; }
    ctr_max("max_share_of_the_bound_in_percent", steps * 100 / limit);
    Lms l(t);
    note_features(t, l);
    evaluated(hash_bytes(t.data(), t.size()), cur_n > 2000);
    if (st_eval % 17 == 1) sample("%s -> n=%llu %llu blocks, bound %llu", spec, (unsigned long long)cur_n, (unsigned long long)steps, (unsigned long long)limit);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    if (!strcmp(g_mode, "steps")) drive(st);
    else harness_error("mode %s", g_mode);
    ctr("bytes_handled_by_memory_routines") += total_bulk;
    print_stats();
    return 0;
}
