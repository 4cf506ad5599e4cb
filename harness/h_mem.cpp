// Heap behaviour of the transform, observed by the interposed allocator:
//  leak : nothing acquired by a call remains after the result is released (C05)
//  peak : peak live bytes within the stated bound (C21)
//  giveup : the same bound, the string included, where it is given up (C29)
//  fill : results do not depend on what fresh memory contains (C04)
//  oom  : every k-th allocation failing (C13)
#include "alloc.hpp"
#include "width.hpp"
#include <dirent.h>

static char p_in[600], p_out[600], p_missing[600];
static void write_file(const char *p, const uint8_t *d, size_t n)
{
    FILE *f = fopen(p, "wb");
    if (!f || fwrite(d, 1, n, f) != n || fclose(f)) harness_error("cannot write %s", p);
}
static bool read_file(const char *p, Bytes &o)
{
    FILE *f = fopen(p, "rb");
    o.clear();
    if (!f) return false;
    uint8_t b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) o.insert(o.end(), b, b + k);
    fclose(f);
    return true;
}
static int open_fds()
{
    int k = 0;
    for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) k++;
    return k;
}
static Outcome call_file(const char *in, const char *out)
{
    Outcome o = {false, "", NULL};
    try { flbwt::bwt_file(in, out); }
    catch (const std::exception &) { o.threw = true; o.what = "std::exception"; }
    catch (...) { o.threw = true; o.what = "something that is not a std::exception"; }
    return o;
}
static void setup_paths()
{
    snprintf(p_in, sizeof p_in, "%s/in", g_tmp);
    snprintf(p_out, sizeof p_out, "%s/out", g_tmp);
    snprintf(p_missing, sizeof p_missing, "%s/none/none", g_tmp);
}

static void strip_width(const char *spec, Bytes &t)
{
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    w_target = w_parse(Spec(spec));
}

// ---------------------------------------------------------------------------------- C05
static void leak(const char *spec)
{
    Bytes t;
    strip_width(spec, t);
    size_t n = t.size();
    write_file(p_in, t.data(), n);
    uint8_t *keep = malloc_copy(t);
    for (int mode = 0; mode < 9; mode++)
    {
        uint8_t *T = NULL;
        int fds = open_fds();
        al_reset();
        al.on = true;
        if (mode == 1) T = malloc_copy(t); // tracked: the call must free it
        Outcome o;
        const char *name;
        switch (mode)
        {
        case 0: name = "bwt_string keeping"; o = call_string(keep, n, false); break;
        case 1: name = "bwt_string freeing"; o = call_string(T, n, true); break;
        case 2: name = "bwt_file"; o = call_file(p_in, p_out); break;
        case 3: name = "bwt_file same path"; o = call_file(p_in, p_in); break;
        case 4: name = "bwt_file missing input"; o = call_file(p_missing, p_out); break;
        case 5: name = "bwt_file unopenable output"; o = call_file(p_in, p_missing); break;
        case 6: name = "bwt_file directory input"; o = call_file(g_tmp, p_out); break;
        case 7: name = "bwt_file directory output"; o = call_file(p_in, g_tmp); break;
        default: name = "bwt_string rejected"; o = call_string(NULL, n, false); break;
        }
        al.on = false;
        release(o.r);
        if (mode == 3) write_file(p_in, t.data(), n);
        if (al.foreign_free) violation("foreign-free", "%s: a block the call does not own was freed (n=%zu)", name, n);
        if (al.blocks)
        {
            // a throwing call may or may not have taken over T: that is not this property's business
            violation("leak", "%s: %llu blocks, %llu bytes still allocated after release (n=%zu, threw=%d)", name, (unsigned long long)al.blocks, (unsigned long long)al.live, n, (int)o.threw);
        }
        if (open_fds() != fds) violation("fd-leak", "%s: %d file descriptors open, %d before (n=%zu)", name, open_fds(), fds, n);
        if (mode == 0 && (memcmp(keep, t.data(), n) || keep[n])) violation("string-gone", "caller's string changed or was freed (n=%zu)", n);
        ctr("calls")++;
        ctr("allocations_tracked") += al.nalloc;
        COUNT("calls_that_threw", o.threw);
        COUNT("calls_that_returned", !o.threw);
        COUNT("calls_with_40bit_values", w_used && w_target && w_width(w_used) == 40 && !o.threw);
        COUNT("calls_with_48bit_values", w_used && w_target && w_width(w_used) == 48 && !o.threw);
        COUNT("calls_with_56bit_values", w_used && w_target && w_width(w_used) == 56 && !o.threw);
        COUNT("calls_with_64bit_values", w_used && w_target && w_width(w_used) == 64 && !o.threw);
    }
    free(keep);
    evaluated(hash_bytes(t.data(), n, w_target), n > 2);
    if (st_eval % 97 == 5) sample("%s -> n=%zu 9 call kinds, no block or descriptor left", spec, n);
}

// ---------------------------------------------------------------------------------- C21
static void peak(const char *spec)
{
    Bytes t;
    strip_width(spec, t);
    uint64_t n = t.size();
    Lms l(t);
    uint8_t *T = malloc_copy(t);
    al_reset();
    al.on = true;
    Outcome o = call_string(T, n, false);
    al.on = false;
    uint64_t got = al.peak;
    if (o.threw || !o.r) harness_error("transform failed at %s", spec);
    release(o.r);
    free(T);
    uint64_t u = l.uniq, S = l.sumlen_uniq, H = l.head_end(n) + 1, N = l.num;
    uint64_t a = 4 * N + N * (uint64_t)w_bits(u + 1) / 8, b = n + 4 * N; // suffix array with shortened string; transform with its inputs
    uint64_t bound = (3u << 20) + 600 * (u < 67777 ? u : 67777) + 2 * (S + H) + 16 * u + (a > b ? a : b);
    if (getenv("VERIF_SHOW")) printf("%s n=%llu peak=%llu bound=%llu %.3f\n", spec, (unsigned long long)n, (unsigned long long)got, (unsigned long long)bound, (double)got / bound);
    if (got > bound) violation("memory-bound", "peak %llu live heap bytes, bound %llu (n=%llu, S*=%llu, distinct=%llu, distinct bytes=%llu, head=%llu)",
                               (unsigned long long)got, (unsigned long long)bound, (unsigned long long)n, (unsigned long long)N, (unsigned long long)u, (unsigned long long)S, (unsigned long long)H);
    ctr_max("max_peak_bytes", got);
    ctr_max("max_percent_of_bound", got * 100 / bound);
    note_features(t, l);
    COUNT("inputs_over_1MB", n > 1000000);
    evaluated(hash_bytes(t.data(), n), l.num > 0);
    if (n > 1000000) sample("%s -> n=%llu peak=%llu bound=%llu", spec, (unsigned long long)n, (unsigned long long)got, (unsigned long long)bound);
}

// ---------------------------------------------------------------------------------- C29
// The string itself counts here: it must be gone before the transform is built.
static void giveup(const char *spec)
{
    Bytes t;
    strip_width(spec, t);
    uint64_t n = t.size();
    Lms l(t);
    write_file(p_in, t.data(), n);
    uint64_t u = l.uniq, S = l.sumlen_uniq, H = l.head_end(n) + 1, N = l.num, W = N * (uint64_t)w_bits(u + 1) / 8;
    uint64_t early = n + 1 + W, late = 4 * N + W, end = n + 4 * N; // with the string; suffix array; transform with its inputs
    uint64_t bound = (3u << 20) + 600 * (u < 67777 ? u : 67777) + 2 * (S + H) + 16 * u + (early > late ? (early > end ? early : end) : (late > end ? late : end));
    for (int mode = 0; mode < 2; mode++)
    {
        al_reset();
        al.on = true;
        uint8_t *T = mode ? NULL : malloc_copy(t);
        Outcome o = mode ? call_file(p_in, p_out) : call_string(T, n, true);
        al.on = false;
        uint64_t got = al.peak;
        const char *name = mode ? "bwt_file" : "bwt_string giving up its string";
        if (o.threw || (!mode && !o.r)) harness_error("transform failed at %s", spec);
        if (o.r) release(o.r);
        if (getenv("VERIF_SHOW")) printf("%s mode %d n=%llu peak=%llu bound=%llu %.3f (%.3f with the string)\n", spec, mode, (unsigned long long)n, (unsigned long long)got, (unsigned long long)bound, (double)got / bound, (double)(got + n) / bound);
        if (got > bound) violation("memory-bound", "%s: peak %llu live heap bytes with the string, bound %llu (n=%llu, S*=%llu, distinct=%llu, distinct bytes=%llu, head=%llu)",
                                   name, (unsigned long long)got, (unsigned long long)bound, (unsigned long long)n, (unsigned long long)N, (unsigned long long)u, (unsigned long long)S, (unsigned long long)H);
        ctr_max("max_peak_bytes", got);
        ctr_max("max_percent_of_bound", got * 100 / bound);
        ctr(mode ? "calls_bwt_file" : "calls_bwt_string")++;
        COUNT("calls_where_the_string_decides", got + n > bound);
    }
    note_features(t, l);
    COUNT("inputs_over_1MB", n > 1000000);
    evaluated(hash_bytes(t.data(), n), l.num > 0);
    if (n > 1000000) sample("%s -> n=%llu bound=%llu", spec, (unsigned long long)n, (unsigned long long)bound);
}

// ---------------------------------------------------------------------------------- C04
static void fillcheck(const char *spec)
{
    Bytes t;
    strip_width(spec, t);
    size_t n = t.size();
    static const int F[] = {-1, 0, 255, 0xa5, 1, 256, -1};
    Outcome first = {false, "", NULL};
    Bytes firstfile;
    write_file(p_in, t.data(), n);
    for (unsigned k = 0; k < sizeof F / sizeof F[0]; k++)
    {
        uint8_t *T = malloc_copy(t);
        al_reset();
        al.fill = F[k];
        al.on = true;
        Outcome o = call_string(T, n, false);
        Outcome of = {true, "", NULL};
        if (k == 0 || k == 2 || k == 5) of = call_file(p_in, p_out);
        al.on = false;
        al.fill = -1;
        free(T);
        ctr("calls")++;
        COUNT("calls_that_returned", o.r != NULL);
        if (o.r) ctr("bytes_compared") += n;
        if (k == 0 || k == 2 || k == 5)
        {
            Bytes b;
            if (!of.threw) read_file(p_out, b);
            if (k == 0) firstfile = b;
            else if (b != firstfile) violation("fill-dependent-file", "output file depends on the content of fresh memory (n=%zu, pattern %d)", n, F[k]);
            ctr("files_compared")++;
        }
        if (k == 0) { first = o; continue; }
        if (o.threw != first.threw || !o.r != !first.r) violation("fill-dependent", "outcome depends on the content of fresh memory (n=%zu, pattern %d)", n, F[k]);
        if (o.r)
        {
            if (o.r->last != first.r->last) violation("fill-dependent", "terminator row depends on the content of fresh memory (n=%zu, pattern %d)", n, F[k]);
            for (size_t i = 0; i <= n; i++)
                if (i != o.r->last && o.r->BWT[i] != first.r->BWT[i]) violation("fill-dependent", "row %zu depends on the content of fresh memory (n=%zu, pattern %d)", i, n, F[k]);
            release(o.r);
        }
    }
    release(first.r);
    Lms l(t);
    note_features(t, l);
    evaluated(hash_bytes(t.data(), n, w_target), l.num > 0);
    if (st_eval % 97 == 5) sample("%s -> n=%zu same result under 7 memory patterns", spec, n);
}

// ---------------------------------------------------------------------------------- C13
// What a failed call leaves behind is not this property's business, but thousands of failed
// calls must not exhaust the machine: give the memory back. In builds where stdio's own
// blocks are tracked too, only big blocks are (never a FILE).
static void reclaim(bool all)
{
    static std::vector<void *> *v = new std::vector<void *>;
    v->clear();
    if (!al_used) return;
    for (uint32_t i = 0; i <= al_mask; i++)
        if (al_tab[i].p && (all || al_tab[i].n >= 65536)) v->push_back(al_tab[i].p);
    for (size_t i = 0; i < v->size(); i++) free((*v)[i]);
}
static void oom_one(const char *spec, const Bytes &t, const Bytes &ref, uint64_t last, int mode, uint64_t k, bool pers, uint64_t *total)
{
    size_t n = t.size();
    uint8_t *T = NULL;
    al_reset();
    al.on = true;
    if (mode < 2) { al.on = false; T = malloc_copy(t); al.on = true; }
    if (mode == 1) { uint64_t d = n + 1; al_put(T, d); } // so that its release can be seen
    al.fail_at = k;
    al.persistent = pers;
    Outcome o = mode < 2 ? call_string(T, n, mode == 1) : call_file(p_in, p_out);
    bool hit = al.failed > 0;
    al.fail_at = 0;
    *total = al.nalloc;
    al.on = false;
    if (hit)
    {
        COUNT("failures_injected", 1);
        COUNT("exceptions_seen", o.threw);
        COUNT("survived_with_result", !o.threw);
    }
    if (o.threw && !strcmp(o.what, "something that is not a std::exception"))
        violation("oom-foreign-exception", "failing allocation %llu%s: %s was thrown (n=%zu, mode %d)", (unsigned long long)k, pers ? "+" : "", o.what, n, mode);
    if (!hit && o.threw) violation("oom-later-call", "call without failing allocation threw after earlier failures (n=%zu, mode %d)", n, mode);
    if (!o.threw && mode < 2)
    {
        if (!o.r || !o.r->BWT) violation("oom-null", "failing allocation %llu%s: normal return without a result (n=%zu, mode %d)", (unsigned long long)k, pers ? "+" : "", n, mode);
        bool ok = o.r->last == last;
        for (size_t i = 0; ok && i <= n; i++) if (i != last && o.r->BWT[i] != ref[i]) ok = false;
        if (!ok) violation("oom-wrong", "failing allocation %llu%s: wrong result returned (n=%zu, mode %d)", (unsigned long long)k, pers ? "+" : "", n, mode);
    }
    if (!o.threw && mode == 2)
    {
        Bytes f;
        read_file(p_out, f);
        bool ok = f.size() == n + 8;
        for (int i = 0; ok && i < 8; i++) ok = f[i] == (uint8_t)(last >> (56 - 8 * i));
        for (size_t i = 0, j = 8; ok && i <= n; i++) if (i != last) ok = f[j++] == ref[i];
        if (!ok) violation("oom-wrong", "failing allocation %llu%s: wrong output file after normal return (n=%zu)", (unsigned long long)k, pers ? "+" : "", n);
    }
    if (o.r) release(o.r);
    if (mode == 0)
    {
        if (memcmp(T, t.data(), n) || T[n]) violation("oom-string", "failing allocation %llu%s: caller's string changed (n=%zu)", (unsigned long long)k, pers ? "+" : "", n);
        free(T);
    }
    if (mode == 1)
    { // freed by the call unless it threw before that point
        uint64_t d;
        if (al_del(T, &d)) free(T);
    }
#if defined(__SANITIZE_ADDRESS__)
    reclaim(true);
#else
    reclaim(mode < 2);
#endif
}
static void oom(const char *spec)
{
    Bytes t, ref;
    strip_width(spec, t);
    size_t n = t.size();
    uint64_t last;
    if (n <= 300) last = ref_bwt(t, ref);
    else
    {
        uint8_t *T = malloc_copy(t);
        Outcome o = call_string(T, n, false);
        check_result("oom-base", t, o);
        last = o.r->last;
        ref.assign(o.r->BWT, o.r->BWT + n + 1);
        release(o.r);
        free(T);
    }
    write_file(p_in, t.data(), n);
    Spec s(spec);
    int m0 = (int)s.num("mode", 99);
    for (int mode = 0; mode < 3; mode++)
    {
        if (m0 != 99 && m0 != mode) continue;
        uint64_t total, x;
        oom_one(spec, t, ref, last, mode, 0, false, &total);
        ctr_max("max_allocations_in_one_call", total);
        uint64_t step = s.num("step", 1), off = s.num("off", 0) % step;
        for (int pers = 0; pers < 2; pers++)
            for (uint64_t k = 1 + off; k <= total; k += step)
            {
                set_case(g_status->spec);
                oom_one(spec, t, ref, last, mode, k, pers, &x);
                evaluated(hash_bytes(t.data(), n, w_target * 8 + mode * 2 + pers) + k * 0x9e3779b97f4a7c15ULL, true);
            }
        oom_one(spec, t, ref, last, mode, 0, false, &x); // and afterwards all is well
        if (x > total * 2 + 64) violation("oom-later-call", "later call needs %llu allocations, first %llu", (unsigned long long)x, (unsigned long long)total);
        COUNT("inputs_x_modes", 1);
        if (w_target) switch (w_width(w_used)) { case 40: ctr("enumerations_40bit")++; break; case 48: ctr("enumerations_48bit")++; break; case 56: ctr("enumerations_56bit")++; break; case 64: ctr("enumerations_64bit")++; break; }
        else ctr("enumerations_32bit")++;
        sample("%s mode %d -> each of %llu allocations failed alone and with all later ones", spec, mode, (unsigned long long)total);
    }
}

int main(int argc, char **argv)
{
    parse_args(argc, argv);
    setup_paths();
    w_install();
    { // warm up lazily initialised parts of libc and libstdc++
        Bytes t(10, 'a');
        write_file(p_in, t.data(), t.size());
        call_file(p_missing, p_out);
        call_file(p_in, p_missing);
        call_file(g_tmp, p_out);
        call_string(NULL, 0, false);
        w_target = 0;
    }
    if (!strcmp(g_mode, "leak")) drive(leak);
    else if (!strcmp(g_mode, "peak")) drive(peak);
    else if (!strcmp(g_mode, "giveup")) drive(giveup);
    else if (!strcmp(g_mode, "fill")) drive(fillcheck);
    else if (!strcmp(g_mode, "oom")) drive(oom);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
