// C08: concurrent calls. Threads leave a barrier together and transform their own strings and
// files; every result is checked with the oracle afterwards. The TSan build judges races, all
// builds judge results.
#define W_CONCURRENT
#include "width.hpp"
#include <pthread.h>
#include <sched.h>
#include <stdexcept>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <locale.h>
#include <string>

#define MAXT 32
struct Item { Bytes t; Outcome o; bool file, freeing; int bad; int kind; uint8_t *T; char in[300], out[300]; uint64_t start, end, target, used; };
struct Th { pthread_t id; std::vector<Item> items; uint64_t jitter; };
static pthread_barrier_t bar;
static uint64_t now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000000000ULL + (uint64_t)ts.tv_nsec;
}
// Requests that must be rejected: input missing, output in a missing directory, input a directory,
// output a directory, input empty, output that is always full. Returns the kind of exception.
#define BADS 6
static char none[] = "/nonexistent/directory/file", empty[300], full[] = "/dev/full";
static int file_call(Item &it)
{
    const char *in = it.bad == 1 ? none : it.bad == 3 ? g_tmp : it.bad == 5 ? empty : it.in;
    const char *out = it.bad == 2 ? none : it.bad == 4 ? g_tmp : it.bad == 6 ? full : it.out;
    int kind = 0;
    size_t sum = 0;
    try { flbwt::bwt_file(in, out); }
    catch (const std::exception &e)
    {
        // (as callers do, look at the message)
        for (const char *p = e.what(); *p; p++) sum += (unsigned char)*p;
        kind = dynamic_cast<const std::invalid_argument *>(&e) ? 1 : dynamic_cast<const std::runtime_error *>(&e) ? 2 : 3;
    }
    catch (...) { kind = 4; }
    volatile size_t sink = sum;
    (void)sink;
    return kind;
}
static void *body(void *p)
{
    Th *th = (Th *)p;
    pthread_barrier_wait(&bar);
    for (size_t i = 0; i < th->items.size(); i++)
    {
        Item &it = th->items[i];
        for (uint64_t k = 0; k < th->jitter % 7; k++) sched_yield();
        th->jitter = th->jitter * 6364136223846793005ULL + 1;
        w_target = it.target;
        w_used = 0;
        it.start = now();
        if (it.file)
        {
            it.o.threw = false;
            it.o.what = "";
            it.o.r = NULL;
            it.kind = 0;
            it.kind = file_call(it);
            it.o.threw = it.kind != 0;
        }
        else it.o = call_string(it.bad == 1 ? NULL : it.T, it.bad == 2 ? 0 : it.t.size(), it.freeing);
        it.end = now();
        it.used = w_used;
    }
    return NULL;
}
// What all threads share. The calls must leave it alone, even for a moment: another thread would see it.
static std::string process_state()
{
    std::string s;
    char b[700];
    s += std::string("cwd ") + (getcwd(b, sizeof b) ? b : "?");
    mode_t m = umask(022);
    umask(m);
    snprintf(b, sizeof b, "; umask %o", (unsigned)m);
    s += b;
    for (int i = 1; i < 32; i++)
    {
        struct sigaction a;
        if (sigaction(i, NULL, &a) == 0)
        {
            snprintf(b, sizeof b, "; signal %d %lx", i, (unsigned long)(uintptr_t)a.sa_handler);
            s += b;
        }
    }
    struct rlimit l;
    for (int i = 0; i < RLIM_NLIMITS; i++)
        if (getrlimit((__rlimit_resource_t)i, &l) == 0)
        {
            snprintf(b, sizeof b, "; limit %d %llu", i, (unsigned long long)l.rlim_cur);
            s += b;
        }
    s += std::string("; locale ") + setlocale(LC_ALL, NULL);
    return s;
}
static void thr(const char *spec)
{
    Spec s(spec);
    Rng r(s.num("seed", 1));
    uint64_t nt = s.num("threads", 8), per = s.num("per", 6), maxn = s.num("max", 1500);
    if (nt > MAXT) nt = MAXT;
    static Th th[MAXT];
    static char g[SPEC_MAX];
    // hooked build: 1: every call at a width of its own, more: all at this many bits
    uint64_t wid = s.num("wid", 0);
    uint64_t rej = s.num("rej", 0); // share of requests that must be rejected: 1 in 5 or 4 in 5
    snprintf(empty, sizeof empty, "%s/empty", g_tmp);
    { FILE *f = fopen(empty, "wb"); if (f) fclose(f); }
    bool same = s.num("same", 0); // all threads work on equal inputs (in separate buffers)
    char base[SPEC_MAX];
    random_spec(r, maxn, base);
    pthread_barrier_init(&bar, NULL, (unsigned)nt);
    for (uint64_t i = 0; i < nt; i++)
    {
        th[i].items.clear();
        th[i].jitter = r.next();
        th[i].items.resize(per);
        for (uint64_t k = 0; k < per; k++)
        {
            Item &it = th[i].items[k];
            random_spec(r, maxn, g);
            gen_spec(same && k % 2 == 0 ? base : g, it.t);
            it.file = r.chance(rej ? 3 : 1, 4);
            it.freeing = r.chance(1, 2);
            it.bad = r.chance(rej ? 4 : 1, 5) ? 1 + (int)r.below(it.file ? BADS : 2) : 0; // a request that must be rejected
            // the first call of all threads at once
            if (rej && k == 0) { it.file = true; it.bad = (int)rej; }
            if (it.bad) it.freeing = false;
            it.T = NULL;
            it.target = 0;
            if (wid) it.target = (1ULL << (wid > 1 ? wid : 28 + r.below(34))) + r.below(1000);
            // each thread has a directory of its own; half of the paths are relative
            snprintf(it.in, sizeof it.in, "%s/d%llu", g_tmp, (unsigned long long)i);
            mkdir(it.in, 0755);
            const char *base_in = r.chance(1, 2) ? "." : g_tmp, *base_out = r.chance(1, 2) ? "." : g_tmp;
            snprintf(it.in, sizeof it.in, "%s/d%llu/i%llu", base_in, (unsigned long long)i, (unsigned long long)k);
            snprintf(it.out, sizeof it.out, "%s/d%llu/o%llu", base_out, (unsigned long long)i, (unsigned long long)k);
            if (it.file)
            {
                FILE *f = fopen(it.in, "wb");
                if (!f || fwrite(it.t.data(), 1, it.t.size(), f) != it.t.size() || fclose(f)) harness_error("cannot write %s", it.in);
            }
            else it.T = malloc_copy(it.t);
        }
    }
    std::string before = process_state();
    for (uint64_t i = 0; i < nt; i++) if (pthread_create(&th[i].id, NULL, body, &th[i])) harness_error("pthread_create");
    for (uint64_t i = 0; i < nt; i++) pthread_join(th[i].id, NULL);
    pthread_barrier_destroy(&bar);
    std::string after = process_state();
    if (after != before)
    {
        size_t k = 0;
        while (k < before.size() && k < after.size() && before[k] == after[k]) k++;
        k = k < 20 ? 0 : k - 20;
        violation("thread-state", "concurrent calls changed the process: ...%.80s... was ...%.80s...", after.c_str() + std::min(k, after.size()), before.c_str() + std::min(k, before.size()));
    }
    ctr("process_states_compared")++;
    uint64_t overlaps = 0;
    for (uint64_t i = 0; i < nt; i++)
        for (uint64_t k = 0; k < per; k++)
        {
            Item &it = th[i].items[k];
            for (uint64_t j = i + 1; j < nt; j++)
                for (uint64_t m = 0; m < per; m++)
                    if (it.start < th[j].items[m].end && th[j].items[m].start < it.end) overlaps++;
            if (it.used)
            {
                char nm[40];
                snprintf(nm, sizeof nm, "calls_with_%dbit_values", w_width(it.used));
                ctr(nm)++;
            }
            if (it.bad)
            {
                if (!it.o.threw) violation("thread-accepted", "a concurrent request that must be rejected returned normally");
                if (it.file)
                {
                    // the same request alone
                    int kind = file_call(it);
                    if (kind != it.kind) violation("thread-kind", "a request is rejected with exception kind %d in a concurrent call, %d alone", it.kind, kind);
                    unlink(it.in);
                    unlink(it.out);
                    ctr("concurrent_file_rejections")++;
                }
                else free(it.T);
                ctr("concurrent_rejections")++;
            }
            else if (it.file)
            {
                if (it.o.threw) violation("thread-exception", "concurrent bwt_file threw (n=%zu)", it.t.size());
                struct stat st;
                if (stat(it.out, &st) == 0 && (st.st_mode & 07777) != (0666 & ~027u)) violation("thread-file-mode", "concurrent bwt_file: output has mode %o, should have %o", (unsigned)(st.st_mode & 07777), 0666 & ~027u);
                FILE *f = fopen(it.out, "rb");
                Bytes b(it.t.size() + 20);
                size_t got = f ? fread(b.data(), 1, b.size(), f) : 0;
                if (f) fclose(f);
                uint64_t n = it.t.size(), last = 0;
                for (int q = 0; q < 8; q++) last = last << 8 | b[q];
                if (got != n + 8 || last > n) violation("thread-file-mismatch", "concurrent bwt_file: wrong output length or header (n=%zu)", it.t.size());
                Bytes B(n + 1, 0);
                for (uint64_t q = 0; q < n; q++) B[q < last ? q : q + 1] = b[8 + q];
                const char *e = verify_bwt(it.t.data(), n, B.data(), last);
                if (e) violation("thread-file-mismatch", "concurrent bwt_file: %s (n=%zu)", e, it.t.size());
                unlink(it.in);
                unlink(it.out);
                ctr("concurrent_files")++;
            }
            else
            {
                check_result("thread", it.t, it.o);
                release(it.o.r);
                if (!it.freeing) free(it.T);
                ctr("concurrent_strings")++;
            }
        }
    ctr("pairs_of_overlapping_calls") += overlaps;
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), overlaps > 0);
    if (st_eval % 7 == 1) sample("%s -> %llu calls on %llu threads, %llu overlapping pairs, all exact", spec, (unsigned long long)(nt * per), (unsigned long long)nt, (unsigned long long)overlaps);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    w_install();
    umask(027);
    if (chdir(g_tmp)) harness_error("chdir");
    if (!strcmp(g_mode, "thr")) drive(thr);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
