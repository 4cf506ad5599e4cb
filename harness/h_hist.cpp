// C07: histories of calls in one process. Every result is judged against the oracle on its own,
// and results the caller still holds are judged again after later calls.
#include "alloc.hpp"
#include "width.hpp"
#include <sys/resource.h>

static char p_in[600], p_out[600], p_none[600];
static void write_file(const char *p, const uint8_t *d, size_t n)
{
    FILE *f = fopen(p, "wb");
    if (!f || (n && fwrite(d, 1, n, f) != n) || fclose(f)) harness_error("cannot write %s", p);
}
static Outcome call_file(const char *in, const char *out)
{
    Outcome o = {false, "", NULL};
    try { flbwt::bwt_file(in, out); }
    catch (const std::exception &) { o.threw = true; o.what = "std::exception"; }
    catch (...) { o.threw = true; o.what = "something that is not a std::exception"; }
    return o;
}
static const char *check_output(const Bytes &t, const char *path)
{
    FILE *f = fopen(path, "rb");
    if (!f) return "output file is missing";
    Bytes b(t.size() + 20);
    size_t k = fread(b.data(), 1, b.size(), f);
    fclose(f);
    uint64_t n = t.size(), last = 0;
    if (k != n + 8) return "output file has the wrong length";
    for (int i = 0; i < 8; i++) last = last << 8 | b[i];
    if (last > n) return "bad header";
    Bytes B(n + 1, 0);
    for (uint64_t i = 0; i < n; i++) B[i < last ? i : i + 1] = b[8 + i];
    return verify_bwt(t.data(), n, B.data(), last);
}
struct Held { Bytes t; flbwt::BWT_result *r; uint64_t h, last; };
static uint64_t result_hash(const Held &h)
{
    uint64_t l = h.r->last, x = hash_bytes(h.r->BWT, l);
    return l < h.t.size() ? hash_bytes(h.r->BWT + l + 1, h.t.size() - l, x) : x;
}
static void recheck(std::vector<Held> &held, size_t i, const char *when)
{
    if (held[i].r->last != held[i].last || result_hash(held[i]) != held[i].h)
        violation("held-result-changed", "a result the caller still holds changed (%s, n=%zu)", when, held[i].t.size());
    ctr("held_results_rechecked")++;
}
static void hist(const char *spec)
{
    Spec s(spec);
    Rng r(s.num("seed", 1));
    uint64_t len = s.num("len", 40), maxn = s.num("max", 2000);
    uint64_t wid = s.num("wid", 0);
    static char g[SPEC_MAX];
    std::vector<Held> held;
    std::vector<Bytes> past;
    uint64_t fails = 0, oks = 0;
    for (uint64_t i = 0; i < len; i++)
    {
        Bytes t;
        if (!past.empty() && r.chance(1, 3)) t = past[r.below(past.size())]; // the same bytes again
        else
        {
            random_spec(r, r.chance(1, 4) ? maxn : 200, g);
            gen_spec(g, t);
            if (past.size() < 12) past.push_back(t); else past[r.below(12)] = t;
        }
        size_t n = t.size();
        uint64_t op = r.below(22);
        Outcome o = {false, "", NULL};
        ctr("calls")++;
        // hooked build: at a random width
        w_target = 0;
        if (wid && r.chance(2, 3)) w_target = (1ULL << r.range(28, 61)) + r.below(1000);
        w_used = 0;
        if (op < 9)
        {
            bool freeing = r.chance(1, 2);
            uint8_t *T = malloc_copy(t);
            o = call_string(T, n, freeing);
            if (!o.threw && !freeing && (memcmp(T, t.data(), n) || T[n])) violation("string-modified", "call %llu changed its string", (unsigned long long)i);
            check_result("history", t, o);
            if (!freeing) free(T);
            Held h = {t, o.r, 0, o.r->last};
            h.h = result_hash(h);
            held.push_back(h);
            if (held.size() > 8)
            {
                size_t k = r.below(held.size());
                recheck(held, k, "before release");
                release(held[k].r);
                held.erase(held.begin() + (long)k);
            }
            oks++;
        }
        else if (op < 13)
        {
            write_file(p_in, t.data(), n);
            if (r.chance(1, 3)) unlink(p_out);
            o = call_file(p_in, p_out);
            if (o.threw) violation("history-file-exception", "call %llu: bwt_file threw on a valid request (n=%zu)", (unsigned long long)i, n);
            const char *e = check_output(t, p_out);
            if (e) violation("history-file-mismatch", "call %llu: %s (n=%zu)", (unsigned long long)i, e, n);
            oks++;
        }
        else if (op < 15)
        { // failing allocation somewhere inside
            uint8_t *T = malloc_copy(t);
            al_reset();
            al.fail_at = 1 + r.below(r.chance(1, 2) ? 1400 : 12);
            al.persistent = r.chance(1, 3);
            al.on = true;
            o = call_string(T, n, false);
            al.on = false;
            if (!o.threw) check_result("history", t, o);
            else { fails++; ctr("calls_failed_by_memory")++; }
            release(o.r);
            free(T);
        }
        else if (op == 15)
        { // output refused part way
            write_file(p_in, t.data(), n);
            struct rlimit old, lim;
            getrlimit(RLIMIT_FSIZE, &old);
            lim = old;
            lim.rlim_cur = r.below(n + 8);
            fflush(stdout);
            setrlimit(RLIMIT_FSIZE, &lim);
            o = call_file(p_in, p_out);
            setrlimit(RLIMIT_FSIZE, &old);
            if (o.threw) { fails++; ctr("calls_failed_by_output")++; }
        }
        else if (op >= 20)
        { // other bytes at the same address (and in the same file) with the same length
            Bytes u(t);
            uint64_t edits = r.range(1, 3);
            while (edits--) { size_t at = r.below(n); if (r.chance(1, 2) && n > 1) std::swap(u[at], u[r.below(n)]); else u[at] = (uint8_t)(u[at] + 1 + r.below(255)); }
            if (op == 20)
            {
                uint8_t *T = malloc_copy(t);
                o = call_string(T, n, false);
                check_result("history", t, o);
                release(o.r);
                memcpy(T, u.data(), n);
                o = call_string(T, n, false);
                check_result("history-same-address", u, o);
                release(o.r);
                free(T);
            }
            else for (int k = 0; k < 2; k++)
            {
                write_file(p_in, k ? u.data() : t.data(), n);
                o = call_file(p_in, p_out);
                if (o.threw) violation("history-file-exception", "call %llu: bwt_file threw on a valid request (n=%zu)", (unsigned long long)i, n);
                const char *e = check_output(k ? u : t, p_out);
                if (e) violation("history-file-mismatch", "call %llu: %s (n=%zu)", (unsigned long long)i, e, n);
            }
            ctr("other_bytes_at_the_same_address")++;
            oks++;
        }
        else
        {
            if (op == 16) o = call_string(NULL, n, false);
            else if (op == 17) o = call_file(p_none, p_out);
            else if (op == 18) { write_file(p_in, t.data(), n); o = call_file(p_in, p_none); }
            else o = call_file(g_tmp, p_out);
            if (o.threw) { fails++; ctr("calls_failed_by_request")++; }
        }
        if (w_used)
        {
            char nm[40];
            snprintf(nm, sizeof nm, "calls_with_%dbit_values", w_width(w_used));
            ctr(nm)++;
        }
        if (!held.empty()) recheck(held, r.below(held.size()), "after another call");
    }
    for (size_t k = 0; k < held.size(); k++) { recheck(held, k, "at the end"); release(held[k].r); }
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), fails > 0 && oks > 1);
    if (st_eval % 19 == 5) sample("%s -> %llu calls, %llu exact results, %llu failed calls in between", spec, (unsigned long long)len, (unsigned long long)oks, (unsigned long long)fails);
}
// very many small calls: counters and caches inside the library must not fill up or wrap
static void many(const char *spec)
{
    Spec s(spec);
    Rng r(s.num("seed", 1));
    uint64_t calls = s.num("calls", 70000), fails = 0;
    for (uint64_t i = 0; i < calls; i++)
    {
        Bytes t;
        uint64_t n = r.range(1, r.chance(1, 10) ? 60 : 9), sg = r.range(1, 4);
        for (uint64_t k = 0; k < n; k++) t.push_back((uint8_t)('a' + r.below(sg)));
        if (r.chance(1, 5))
        {
            Outcome o = r.chance(1, 2) ? call_string(NULL, n, false) : call_file(p_none, p_out);
            if (!o.threw) violation("history-accepted", "call %llu: an unusable request returned normally", (unsigned long long)i);
            fails++;
            continue;
        }
        bool freeing = r.chance(1, 2);
        uint8_t *T = malloc_copy(t);
        Outcome o = call_string(T, n, freeing);
        check_result("history", t, o);
        if (!freeing) free(T);
        release(o.r);
    }
    ctr_max("calls_in_the_longest_history", calls);
    ctr("calls") += calls;
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), true);
    sample("%s -> %llu calls, %llu of them rejected, all others exact", spec, (unsigned long long)calls, (unsigned long long)fails);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    w_install();
    signal(SIGXFSZ, SIG_IGN);
    snprintf(p_in, sizeof p_in, "%s/in", g_tmp);
    snprintf(p_out, sizeof p_out, "%s/out", g_tmp);
    snprintf(p_none, sizeof p_none, "%s/none/none", g_tmp);
    if (!strcmp(g_mode, "hist")) drive(hist);
    else if (!strcmp(g_mode, "many")) drive(many);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
