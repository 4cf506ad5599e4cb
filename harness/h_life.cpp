// C30: calls at every point of a process's life. A case is one process of its own, which makes
// correct-by-oracle calls of both interfaces at the points its specification names and reports
// through a pipe. "life,m=MASK,seed=S", bits of the mask:
#include "api.hpp"
#include <atomic>
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>

enum
{
    EARLY = 1,        // before any constructor of a static object has run
    STATIC = 2,       // in the constructor of a static object
    MAIN = 4,         // in main
    THREAD_END = 8,   // in the destructors of a thread's own objects
    FORK = 16,        // in a forked child
    FORK_BUSY = 32,   // in a child forked by a thread while other threads transform
    CONTEXT = 64,     // on a stack of the caller's (coroutines)
    HANDLER = 128,    // in a signal handler on its own stack (raised by the process itself)
    UNWIND = 256,     // in a destructor that runs because of an exception
    STATIC_END = 512, // in the destructor of a static object
    EXIT = 1024,      // in an exit handler
    LATE = 2048,      // in the last exit handler, when all static objects are gone
    EXIT_BUSY = 4096, // in a thread that goes on while the process exits
    MAIN_GONE = 8192, // in a thread that has outlived the main thread
    LOADER = 16384,   // in the constructor and destructor of a thread-local object of the main thread
};
static const char *NAME[] = {"before_static_objects", "in_static_constructor", "in_main", "in_thread_destructors", "in_forked_child", "in_child_of_busy_process", "on_own_stack", "in_signal_handler",
                             "during_unwinding", "in_static_destructor", "in_exit_handler", "after_static_objects", "in_thread_at_exit", "after_main_thread", "in_main_thread_object"};
static const int NBITS = 15;

// -------------------------------------------------------------------- the process of one case
static unsigned L_mask;
static uint64_t L_seed;
static int L_fd = -1;
static char L_dir[500];
static std::atomic<unsigned> L_done(0), L_turn(0);
static std::atomic<uint64_t> L_calls(0);

static void say(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void say(const char *fmt, ...)
{
    char b[700];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (write(L_fd, b, (size_t)n < sizeof b ? (size_t)n : sizeof b - 1)) {}
}
static void bad(const char *where, const char *what, const char *spec) __attribute__((noreturn));
static void bad(const char *where, const char *what, const char *spec)
{
    say("BAD %s: %s, input %s\n", where, what, spec);
    _exit(1);
}
static void judge(const char *where, const char *spec, const Bytes &t, const Outcome &o)
{
    if (o.threw) bad(where, "a call threw", spec);
    if (!o.r || !o.r->BWT) bad(where, "a call returned nothing", spec);
    const char *e = verify_bwt(t.data(), t.size(), o.r->BWT, o.r->last);
    if (e) bad(where, e, spec);
}
static int g_count = 3;
static void calls(unsigned bit)
{
    if (!(L_mask & bit)) return;
    const char *where = NAME[__builtin_ctz(bit)];
    unsigned turn = L_turn++;
    Rng r(L_seed * 64 + (uint64_t)__builtin_ctz(bit));
    char spec[SPEC_MAX], in[600], out[600];
    snprintf(in, sizeof in, "%s/%u.in", L_dir, turn);
    snprintf(out, sizeof out, "%s/%u.out", L_dir, turn);
    for (int i = 0; i < g_count; i++)
    {
        random_spec(r, i % 8 == 7 ? 60000 : 2500, spec);
        Bytes t;
        if (!gen_spec(spec, t)) bad(where, "bad spec", spec);
        size_t n = t.size();
        uint8_t *T = malloc_copy(t);
        Outcome o = call_string(T, n, false);
        judge(where, spec, t, o);
        uint64_t last = o.r->last;
        if (r.chance(1, 3))
        { // a call that fails
            bool threw = call_string(NULL, 1, false).threw;
            if (!threw) bad(where, "a request without a string was accepted", spec);
        }
        Outcome o2 = call_string(T, n, true);
        judge(where, spec, t, o2);
        release(o2.r);
        FILE *f = fopen(in, "wb");
        if (!f || fwrite(t.data(), 1, n, f) != n || fclose(f)) bad(where, "cannot write the input", spec);
        bool threw = false;
        try { flbwt::bwt_file(in, out); }
        catch (...) { threw = true; }
        if (threw) bad(where, "a file call threw", spec);
        Bytes got(n + 20);
        size_t k = 0;
        if ((f = fopen(out, "rb")))
        {
            k = fread(got.data(), 1, got.size(), f);
            fclose(f);
        }
        bool ok = k == n + 8;
        for (int b = 0; ok && b < 8; b++) ok = got[b] == (uint8_t)(last >> (56 - 8 * b));
        for (size_t a = 0, j = 8; ok && a <= n; a++) if (a != last) ok = got[j++] == o.r->BWT[a];
        if (!ok) bad(where, "the output file is wrong", spec);
        release(o.r);
        L_calls += 3;
    }
    unlink(in);
    unlink(out);
    L_done |= bit;
}

static pthread_t busy_thread;
static std::atomic<unsigned> busy_rounds(0);
static std::atomic<bool> busy_stop(false);
static void *busy(void *v)
{
    Rng r(L_seed + 77 + (uint64_t)(uintptr_t)v);
    char spec[SPEC_MAX];
    while (!busy_stop)
    {
        random_spec(r, 3000, spec);
        Bytes t;
        gen_spec(spec, t);
        Outcome o = call_string(malloc_copy(t), t.size(), true);
        judge("in_busy_thread", spec, t, o);
        release(o.r);
        busy_rounds++;
        L_calls++;
    }
    return NULL;
}
static void more_rounds(unsigned n)
{
    unsigned from = busy_rounds;
    struct timespec ms = {0, 1000000};
    while (busy_rounds - from < n) nanosleep(&ms, NULL);
}

static void last_of_all()
{
    calls(LATE);
    if (L_mask & EXIT_BUSY)
    {
        more_rounds(3);
        busy_stop = true;
        pthread_join(busy_thread, NULL);
        L_done |= EXIT_BUSY;
    }
    say("END %u %llu\n", L_done.load(), (unsigned long long)L_calls.load());
}
__attribute__((constructor(101))) static void early()
{
    const char *e = getenv("VERIF_LIFE");
    unsigned long long s;
    if (!e || sscanf(e, "%u,%llu,%d,%d,%480s", &L_mask, &s, &L_fd, &g_count, L_dir) != 5) { L_mask = 0; return; }
    L_seed = s;
    struct rlimit cpu = {100, 100};
    setrlimit(RLIMIT_CPU, &cpu);
    atexit(last_of_all);
    calls(EARLY);
}
struct Static
{
    Static() { calls(STATIC); }
    ~Static() { calls(STATIC_END); }
};
static Static in_static_storage;
struct MainLocal
{
    int used;
    MainLocal() : used(0) { calls(LOADER); } // its first use may come before or after other calls
    ~MainLocal() { calls(LOADER); }
};
static thread_local MainLocal of_main_thread;
static void at_exit() { calls(EXIT); }
struct AtEnd { unsigned x; AtEnd() : x(0) {} ~AtEnd() { calls(THREAD_END); } };
static thread_local AtEnd of_thread; // constructed before the thread's first call: destroyed after whatever that leaves
static pthread_key_t key;
static void key_end(void *) { calls(THREAD_END); } // runs after the destructors of thread_local objects
static void some_calls(const char *where)
{ // of both interfaces, so that whatever they leave in the thread exists
    Bytes t(20, 'b');
    for (int i = 0; i < 20; i++) t[i] = (uint8_t)(i * 7 % 5);
    Outcome o = call_string(malloc_copy(t), 20, true);
    judge(where, "fixed", t, o);
    release(o.r);
    char in[600];
    snprintf(in, sizeof in, "%s/%u.some", L_dir, L_turn++);
    FILE *f = fopen(in, "wb");
    if (!f || fwrite(t.data(), 1, 20, f) != 20 || fclose(f)) bad(where, "cannot write the input", "fixed");
    try { flbwt::bwt_file(in, in); }
    catch (...) { bad(where, "a file call threw", "fixed"); }
    unlink(in);
}
static void *short_thread(void *)
{
    of_thread.x = 1;
    pthread_setspecific(key, &key);
    some_calls("in_thread");
    return NULL;
}
static void in_child(unsigned bit)
{
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) { say("ERR fork failed: %d\n", errno); _exit(2); }
    if (p == 0)
    {
        L_done = 0;
        calls(bit);
        _exit(L_done == bit ? 0 : 1);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) bad(NAME[__builtin_ctz(bit)], WIFSIGNALED(st) ? "the child crashed" : "the child failed", "-");
    calls(bit); // and the parent goes on
}
static void *fork_thread(void *) { in_child(FORK_BUSY); return NULL; }
static ucontext_t ctx_main, ctx_own;
static void on_context() { calls(CONTEXT); }
static void on_signal(int) { calls(HANDLER); }
struct Unwound { ~Unwound() { calls(UNWIND); } };
static void *outliving(void *)
{
    for (char state = 0; state != 'Z';)
    { // until the main thread is only an entry in the process table
        char path[64], b[400];
        snprintf(path, sizeof path, "/proc/self/task/%d/stat", (int)getpid());
        int fd = open(path, O_RDONLY);
        ssize_t m = fd < 0 ? -1 : read(fd, b, sizeof b - 1);
        close(fd);
        b[m < 0 ? 0 : m] = 0;
        char *e = strrchr(b, ')');
        if (e) state = e[2];
        else if (fd < 0) break;
        usleep(1000);
    }
    calls(MAIN_GONE);
    exit(0);
}
static char stack_ctx[512 << 10], stack_sig[512 << 10];
static int life()
{
    if (L_mask & LOADER) of_main_thread.used++;
    calls(MAIN);
    if (L_mask & EXIT) atexit(at_exit);
    if (L_mask & THREAD_END)
    {
        pthread_t th;
        if (pthread_key_create(&key, key_end) || pthread_create(&th, NULL, short_thread, NULL)) { say("ERR pthread\n"); _exit(2); }
        pthread_join(th, NULL);
        pthread_key_delete(key);
    }
    if (L_mask & FORK) in_child(FORK);
    if (L_mask & FORK_BUSY)
    {
        pthread_t th[3], f;
        for (int i = 0; i < 3; i++) if (pthread_create(&th[i], NULL, busy, (void *)(uintptr_t)i)) { say("ERR pthread\n"); _exit(2); }
        more_rounds(3);
        if (pthread_create(&f, NULL, fork_thread, NULL)) { say("ERR pthread\n"); _exit(2); }
        pthread_join(f, NULL);
        busy_stop = true;
        for (int i = 0; i < 3; i++) pthread_join(th[i], NULL);
        busy_stop = false;
    }
    if (L_mask & CONTEXT)
    {
        getcontext(&ctx_own);
        ctx_own.uc_stack.ss_sp = stack_ctx;
        ctx_own.uc_stack.ss_size = sizeof stack_ctx;
        ctx_own.uc_link = &ctx_main;
        makecontext(&ctx_own, on_context, 0);
        swapcontext(&ctx_main, &ctx_own);
    }
    if (L_mask & HANDLER)
    {
        stack_t ss;
        memset(&ss, 0, sizeof ss);
        ss.ss_sp = stack_sig;
        ss.ss_size = sizeof stack_sig;
        sigaltstack(&ss, NULL);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK;
        sigaction(SIGUSR2, &sa, NULL);
        raise(SIGUSR2);
    }
    if (L_mask & UNWIND)
    {
        try
        {
            Unwound u;
            throw 1;
        }
        catch (int) { calls(UNWIND); } // the exception is still alive here
    }
    if (L_mask & EXIT_BUSY)
    {
        if (pthread_create(&busy_thread, NULL, busy, NULL)) { say("ERR pthread\n"); _exit(2); }
        more_rounds(1);
    }
    if (L_mask & MAIN_GONE)
    {
        pthread_t th;
        if (pthread_create(&th, NULL, outliving, NULL)) { say("ERR pthread\n"); _exit(2); }
        pthread_exit(NULL);
    }
    return 0;
}

// -------------------------------------------------------------------- the process that judges
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
// 0: ended by itself; 1: did not end although it had nothing to do; fills in what it said
static int one_process(unsigned mask, uint64_t seed, int count, char *said, size_t cap, int *st, bool *starved)
{
    int p[2];
    char dir[600], env[800];
    snprintf(dir, sizeof dir, "%s/life", g_tmp);
    mkdir(dir, 0700);
    if (pipe(p)) harness_error("pipe");
    fcntl(p[0], F_SETFD, FD_CLOEXEC);
    snprintf(env, sizeof env, "%u,%llu,%d,%d,%s", mask, (unsigned long long)seed, p[1], count, dir);
    pid_t pid = fork();
    if (pid < 0) harness_error("fork");
    if (pid == 0)
    {
        setpgid(0, 0);
        signal(SIGVTALRM, SIG_DFL);
        setenv("VERIF_LIFE", env, 1);
        execl("/proc/self/exe", "h_life", (char *)NULL);
        _exit(9);
    }
    close(p[1]);
    size_t k = 0;
    double t0 = now();
    *starved = false;
    bool late = false;
    for (;;)
    {
        struct pollfd f = {p[0], POLLIN, 0};
        poll(&f, 1, 1000);
        if (f.revents)
        {
            ssize_t m = read(p[0], said + k, cap - 1 - k);
            if (m <= 0) break;
            k += (size_t)m;
        }
        if (now() - t0 > 120) { late = true; break; }
    }
    said[k] = 0;
    close(p[0]);
    struct rusage u;
    for (;;)
    {
        pid_t w = wait4(pid, st, late ? 0 : WNOHANG, &u);
        if (w == pid) break;
        if (now() - t0 > 120) late = true;
        if (late) kill(-pid, SIGKILL), kill(pid, SIGKILL);
        else usleep(1000);
    }
    if (late && u.ru_utime.tv_sec + u.ru_stime.tv_sec > 10) *starved = true; // busy, perhaps only slow
    kill(-pid, SIGKILL);
    return late;
}
static void run(const char *text)
{
    Spec s(text);
    unsigned mask = (unsigned)s.num("m", MAIN);
    uint64_t seed = s.num("seed", 1);
    int count = (int)s.num("k", 3), st;
    char said[3000];
    bool starved;
    for (int attempt = 0;; attempt++)
    {
        if (!one_process(mask, seed, count, said, sizeof said, &st, &starved)) break;
        if (starved) harness_error("process of %s is too slow", text);
        if (attempt) violation("life-hang", "the process does not end (said: %.200s)", said);
    }
    if (strstr(said, "ERR ") || (WIFEXITED(st) && WEXITSTATUS(st) == 9)) harness_error("%s: %s", text, said);
    char *b = strstr(said, "BAD ");
    if (b)
    {
        b[strcspn(b, "\n")] = 0;
        violation("life-wrong", "%.400s", b + 4);
    }
    char *e = strstr(said, "END ");
    unsigned done = 0;
    unsigned long long c = 0;
    if (e) sscanf(e, "END %u %llu", &done, &c);
    if (WIFSIGNALED(st)) violation("life-crash", "the process died of signal %d (points reached: %#x of %#x)", WTERMSIG(st), done, mask);
    if (WEXITSTATUS(st)) violation("life-exit", "the process ended with status %d (points reached: %#x of %#x)", WEXITSTATUS(st), done, mask);
    if (!e || (done & mask) != mask) violation("life-incomplete", "the process ended early (points reached: %#x of %#x)", done, mask);
    ctr("calls") += c;
    ctr("processes")++;
    for (int i = 0; i < NBITS; i++) if (mask >> i & 1)
    {
        char name[48];
        snprintf(name, sizeof name, "%s", NAME[i]);
        ctr(name)++;
    }
    uint64_t id = seed * 1000003 + mask;
    evaluated(hash_bytes((uint8_t *)&id, 8), true);
    if (st_eval % 17 == 3) sample("%s -> %llu calls, points %#x reached, all exact", text, c, done);
}
int main(int argc, char **argv)
{
    if (getenv("VERIF_LIFE")) return life();
    parse_args(argc, argv);
    drive(run);
    print_stats();
    return 0;
}
