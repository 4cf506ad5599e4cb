// In-memory interface.
//  c01 / exh : result against the oracle (random / exhaustive enumeration)
//  run       : execute only, verdict by the sanitizer the binary is built with (C03)
//  guard     : read-only + guard pages, both ownership modes, all locations (C06)
//  msan      : every determined output byte is initialised (C04, MSan and memcheck builds)
#include "width.hpp"

// hooked build: every input at a width of its own
static void choose_width(const Bytes &t)
{
#ifdef FLBWT_VERIF_HOOKS
    uint64_t h = hash_bytes(t.data(), t.size(), 99);
    w_target = (1ULL << (29 + h % 33)) + h / 64 % 1000;
#endif
    w_used = 0;
    (void)t;
}
static void count_width()
{
    if (!w_used) return;
    char nm[40];
    snprintf(nm, sizeof nm, "calls_with_%dbit_values", w_width(w_used));
    ctr(nm)++;
}
static void c01(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    choose_width(t);
    bool freeing = hash_bytes(t.data(), t.size()) & 1;
    uint8_t *T = malloc_copy(t);
    Outcome o = call_string(T, t.size(), freeing);
    check_result("bwt", t, o);
    release(o.r);
    if (!freeing) free(T);
    Lms l(t);
    note_features(t, l);
    count_width();
    COUNT("freeing_mode", freeing);
    evaluated(hash_bytes(t.data(), t.size()), l.num > 0);
    if (st_eval % 997 == 5) sample("%s -> n=%zu S*=%llu distinct=%llu row=ok", spec, t.size(), (unsigned long long)l.num, (unsigned long long)l.uniq);
}
static void exh()
{ // all strings over small alphabets up to a length given by --max
    static char spec[SPEC_MAX];
    uint64_t idx = 0;
    for (int s = 2; s <= 4; s++)
        for (int a = 0; a < NALPHA; a++)
        {
            uint64_t budget = g_max ? g_max : 4000, tot = 1;
            for (int l = 1; ; l++)
            {
                tot *= s;
                if (tot > budget) break;
                for (uint64_t i = 0; i < tot; i++)
                    if (idx++ % g_parts == g_part)
                    {
                        snprintf(spec, sizeof spec, "enum,a=%d,s=%d,l=%d,i=%llu", a, s, l, (unsigned long long)i);
                        set_case(spec);
                        c01(spec);
                    }
            }
        }
    for (int c = 0; c < 256; c++)
        if (idx++ % g_parts == g_part)
        {
            snprintf(spec, sizeof spec, "hex,d=%02x", c);
            set_case(spec);
            c01(spec);
        }
    for (int c = 0; c < 65536; c += 37)
        if (idx++ % g_parts == g_part)
        {
            snprintf(spec, sizeof spec, "hex,d=%04x", c);
            set_case(spec);
            c01(spec);
        }
}
static void run(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    choose_width(t);
    for (int mode = 0; mode < 2; mode++)
    {
        uint8_t *T = malloc_copy(t); // exactly n+1 bytes: the sanitizer sees any byte beyond
        Outcome o = call_string(T, t.size(), mode == 1);
        COUNT("calls_that_threw", o.threw);
        if (o.r)
        { // touch every byte the caller may use
            volatile uint8_t x = 0;
            for (size_t i = 0; i <= t.size(); i++) x = (uint8_t)(x + o.r->BWT[i]);
        }
        release(o.r);
        if (mode == 0 || o.threw) { if (mode == 0) free(T); }
        ctr("calls")++;
    }
    Lms l(t);
    note_features(t, l);
    count_width();
    evaluated(hash_bytes(t.data(), t.size()), l.num > 0);
    if (st_eval % 97 == 5) sample("%s -> n=%zu S*=%llu no report", spec, t.size(), (unsigned long long)l.num);
}
static void guard(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    choose_width(t);
    size_t n = t.size();
    uint8_t *T0 = malloc_copy(t);
    Outcome a = call_string(T0, n, false);
    if (memcmp(T0, t.data(), n) || T0[n]) violation("string-modified", "caller's string changed (n=%zu)", n);
    uint8_t *T1 = malloc_copy(t);
    Outcome b = call_string(T1, n, true);
    Outcome g[3];
    for (int k = 0; k < 3; k++)
    { // k=0: terminator is the last byte before a guard page; 1: string starts right after one; 2: writable
        Guarded G(t.data(), n, k < 2, k == 1);
        g[k] = call_string(G.T, n, false); // a fault here is the violation (reported by the driver)
        if (memcmp(G.T, t.data(), n) || G.T[n]) violation("string-modified", "caller's string changed (n=%zu)", n);
        ctr("guarded_calls")++;
    }
    Outcome *all[5] = {&a, &b, &g[0], &g[1], &g[2]};
    for (int k = 1; k < 5; k++)
    {
        if (all[k]->threw != a.threw || !all[k]->r != !a.r) violation("mode-differs", "one call mode throws or returns nothing, another does not (n=%zu, mode %d)", n, k);
        if (!a.r) continue;
        if (all[k]->r->last != a.r->last) violation("mode-differs", "terminator rows differ (n=%zu, mode %d)", n, k);
        for (size_t i = 0; i <= n; i++)
            if (i != a.r->last && a.r->BWT[i] != all[k]->r->BWT[i]) violation("mode-differs", "row %zu differs (n=%zu, mode %d)", i, n, k);
    }
    for (int k = 0; k < 5; k++) release(all[k]->r);
    free(T0);
    Lms l(t);
    note_features(t, l);
    count_width();
    evaluated(hash_bytes(t.data(), t.size()), l.num > 0);
    if (st_eval % 97 == 5) sample("%s -> n=%zu 5 calls agree, no fault", spec, n);
}
#if MSAN
static void msan(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    choose_width(t);
    size_t n = t.size();
    check_initialised(t.data(), n); // the harness's own data must not be the cause
    uint8_t *T = malloc_copy(t);
    Outcome o = call_string(T, n, false);
    COUNT("calls_that_threw", o.threw);
    if (o.r)
    {
        check_initialised(&o.r->last, sizeof o.r->last);
        check_initialised(&o.r->BWT, sizeof o.r->BWT);
        if (o.r->last <= n)
        {
            check_initialised(o.r->BWT, o.r->last);
            if (o.r->last < n) check_initialised(o.r->BWT + o.r->last + 1, n - o.r->last);
        }
        ctr("output_bytes_checked") += n;
    }
    release(o.r);
    free(T);
    Lms l(t);
    note_features(t, l);
    count_width();
    evaluated(hash_bytes(t.data(), t.size()), l.num > 0);
    if (st_eval % 97 == 5) sample("%s -> n=%zu every output byte initialised", spec, n);
}
#endif
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    w_install();
    if (!strcmp(g_mode, "c01")) drive(c01);
    else if (!strcmp(g_mode, "exh")) { if (g_one) drive(c01); else exh(); }
    else if (!strcmp(g_mode, "run")) drive(run);
    else if (!strcmp(g_mode, "guard")) drive(guard);
#if MSAN
    else if (!strcmp(g_mode, "msan")) drive(msan);
#endif
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
