// C25: a call changes nothing in the process or the file system except what it is asked for. The
// state of both is recorded before and after every call, rejected and failing calls included.
#include "width.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <stdio_ext.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <exception>
#include <iostream>
#include <map>
#include <new>
#include <string>

// ---------------------------------------------------------------- opened paths
// Paths opened for writing by anything in the process while a call runs (libstdc++ included).
static const int MAXP = 64;
static char opened[MAXP][600];
static int nopened;
static bool recording;
static void note(const char *p)
{
    if (!recording || !p || nopened >= MAXP) return;
    if (p[0] == '/') snprintf(opened[nopened++], 600, "%s", p);
    else
    {
        char cwd[300];
        if (getcwd(cwd, sizeof cwd)) snprintf(opened[nopened++], 600, "%s/%s", cwd, p);
    }
}
template <class F>
static F real(const char *name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
#define OPENER(name)                                                                         \
    extern "C" int name(const char *p, int fl, ...)                                          \
    {                                                                                        \
        va_list ap;                                                                          \
        va_start(ap, fl);                                                                    \
        mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;                    \
        va_end(ap);                                                                          \
        if ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC))) note(p);             \
        static int (*f)(const char *, int, ...) = real<int (*)(const char *, int, ...)>(#name); \
        return f(p, fl, m);                                                                  \
    }
OPENER(open)
OPENER(open64)
#define FOPENER(name)                                                                        \
    extern "C" FILE *name(const char *p, const char *m)                                      \
    {                                                                                        \
        if (strpbrk(m, "wa+")) note(p);                                                      \
        static FILE *(*f)(const char *, const char *) = real<FILE *(*)(const char *, const char *)>(#name); \
        return f(p, m);                                                                      \
    }
FOPENER(fopen)
FOPENER(fopen64)
extern "C" int rename(const char *a, const char *b)
{
    note(b);
    static int (*f)(const char *, const char *) = real<int (*)(const char *, const char *)>("rename");
    return f(a, b);
}
extern "C" int mkdir(const char *p, mode_t m)
{
    note(p);
    static int (*f)(const char *, mode_t) = real<int (*)(const char *, mode_t)>("mkdir");
    return f(p, m);
}

// ---------------------------------------------------------------- state
typedef std::map<std::string, std::string> State;
static char d_root[500], p_in[600], p_out[600], p_none[600], p_dir[600], p_bad[600];
static std::string fmt(const char *f, ...)
{
    char b[900];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static uint64_t file_hash(const char *p)
{
    int fd = open(p, O_RDONLY | O_NOATIME);
    if (fd < 0) return 1;
    uint64_t h = 7;
    static uint8_t b[65536];
    ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0) h = hash_bytes(b, (uint64_t)k, h);
    close(fd);
    return h;
}
static void scan(const char *dir, State &s)
{
    DIR *d = opendir(dir);
    if (!d) { s[fmt("file %s", dir)] = "unreadable directory"; return; }
    struct dirent *e;
    while ((e = readdir(d)))
    {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string p = fmt("%s/%s", dir, e->d_name);
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (p == p_out) continue; // the output file is what the call is asked for
        if (S_ISDIR(st.st_mode)) { s["file " + p] = fmt("directory %o", st.st_mode); scan(p.c_str(), s); continue; }
        s["file " + p] = fmt("inode %lu mode %o links %lu size %lld mtime %lld.%09ld content %llx", (unsigned long)st.st_ino, st.st_mode, (unsigned long)st.st_nlink, (long long)st.st_size,
                             (long long)st.st_mtim.tv_sec, st.st_mtim.tv_nsec, S_ISREG(st.st_mode) ? (unsigned long long)file_hash(p.c_str()) : 0ULL);
    }
    closedir(d);
}
extern char **environ;
static uint64_t tasks()
{
    uint64_t k = 0;
    DIR *d = opendir("/proc/self/task");
    if (!d) return 0;
    while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') k++;
    closedir(d);
    return k;
}
// credentials, capabilities, locked memory and the like
static void read_status(State &s)
{
    static const char *want[] = {"Uid:", "Gid:", "Groups:", "CapInh:", "CapPrm:", "CapEff:", "CapBnd:", "CapAmb:", "NoNewPrivs:", "Seccomp:", "SigIgn:", "SigCgt:", "SigBlk:", "Mems_allowed:", "Cpus_allowed:", "VmLck:", "Speculation_Store_Bypass:", "THP_enabled:"};
    FILE *f = fopen("/proc/self/status", "r");
    char b[4000];
    while (f && fgets(b, sizeof b, f))
        for (const char *w : want)
            if (!strncmp(b, w, strlen(w)))
            {
                b[strcspn(b, "\n")] = 0;
                s[std::string("status ") + w] = b + strlen(w);
            }
    if (f) fclose(f);
    static const char *files[] = {"/proc/self/oom_score_adj", "/proc/self/timers", "/proc/self/personality", "/proc/self/coredump_filter"};
    for (const char *n : files)
    {
        f = fopen(n, "r");
        if (!f) continue;
        size_t k = fread(b, 1, sizeof b - 1, f);
        b[k] = 0;
        s[n] = b;
        fclose(f);
    }
}
static void collect(State &s)
{
    char b[600];
    s["working directory"] = getcwd(b, sizeof b) ? b : "none";
    mode_t m = umask(0);
    umask(m);
    s["umask"] = fmt("%o", m);
    for (int i = 1; i < 65; i++)
    {
        if (i == SIGKILL || i == SIGSTOP || i == 32 || i == 33) continue;
        struct sigaction a;
        memset(&a, 0, sizeof a);
        if (sigaction(i, NULL, &a)) continue;
        s[fmt("disposition of signal %d", i)] = fmt("%p flags %x", (void *)a.sa_handler, a.sa_flags);
    }
    sigset_t q;
    sigprocmask(SIG_SETMASK, NULL, &q);
    std::string bits;
    for (int i = 1; i < 65; i++) bits += sigismember(&q, i) == 1 ? '1' : '0';
    s["signal mask"] = bits;
    stack_t ss;
    sigaltstack(NULL, &ss);
    s["alternate stack"] = fmt("%p %x", ss.ss_sp, ss.ss_flags);
    for (int i = 0; i < 3; i++)
    {
        if (i == 1) continue; // the harness's own watchdog
        struct itimerval t;
        getitimer((__itimer_which_t)i, &t);
        s[fmt("interval timer %d", i)] = t.it_value.tv_sec || t.it_value.tv_usec ? "armed" : "off";
    }
    for (int i = 0; i < 16; i++)
    {
        struct rlimit l;
        if (!getrlimit((__rlimit_resource_t)i, &l)) s[fmt("resource limit %d", i)] = fmt("%llu %llu", (unsigned long long)l.rlim_cur, (unsigned long long)l.rlim_max);
    }
    s["priority"] = fmt("%d", getpriority(PRIO_PROCESS, 0));
    s["scheduling policy"] = fmt("%d", sched_getscheduler(0));
    cpu_set_t cs;
    CPU_ZERO(&cs);
    sched_getaffinity(0, sizeof cs, &cs);
    s["cpu affinity"] = fmt("%llx", (unsigned long long)hash_bytes((uint8_t *)&cs, sizeof cs));
    prctl(PR_GET_NAME, b);
    s["thread name"] = b;
    s["locale"] = setlocale(LC_ALL, NULL);
    s["C++ locale"] = std::locale().name();
    s["cout format"] = fmt("%x %d %d %d %d", (unsigned)std::cout.flags(), (int)std::cout.precision(), (int)std::cout.width(), std::cout.fill(), (int)std::cout.exceptions());
    s["cerr format"] = fmt("%x %d %d %d %d", (unsigned)std::cerr.flags(), (int)std::cerr.precision(), (int)std::cerr.width(), std::cerr.fill(), (int)std::cerr.exceptions());
    s["stream buffers"] = fmt("%p %p %p", (void *)std::cout.rdbuf(), (void *)std::cerr.rdbuf(), (void *)std::cin.rdbuf());
    s["stream ties"] = fmt("%p %p", (void *)std::cin.tie(), (void *)std::cerr.tie());
    s["stream locales"] = std::cout.getloc().name() + " " + std::cerr.getloc().name() + " " + std::cin.getloc().name();
    s["stream states"] = fmt("%d %d %d", (int)std::cout.rdstate(), (int)std::cerr.rdstate(), (int)std::cin.rdstate());
    s["buffering of stdout and stderr"] = fmt("%d %d %d %d", __flbf(stdout) != 0, (int)__fbufsize(stdout), __flbf(stderr) != 0, (int)__fbufsize(stderr));
    s["errors on stdin, stdout, stderr"] = fmt("%d %d %d %d", ferror(stdin) != 0, feof(stdin) != 0, ferror(stdout) != 0, ferror(stderr) != 0);
    s["timer slack"] = fmt("%d", prctl(PR_GET_TIMERSLACK));
    s["dumpable"] = fmt("%d", prctl(PR_GET_DUMPABLE));
    read_status(s);
    uint64_t h = 3;
    for (char **e = environ; e && *e; e++) h = hash_bytes((const uint8_t *)*e, strlen(*e), h);
    s["environment"] = fmt("%p %llx", (void *)environ, (unsigned long long)h);
    s["rounding mode"] = fmt("%d", fegetround());
    unsigned mx = __builtin_ia32_stmxcsr();
    unsigned short cw;
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    s["floating point control"] = fmt("%x %x", mx & 0xffc0, cw);
    s["terminate handler"] = fmt("%p", (void *)std::get_terminate());
    s["new handler"] = fmt("%p", (void *)std::get_new_handler());
    s["uncaught exceptions"] = std::uncaught_exception() ? "yes" : "no";
    s["children"] = waitpid(-1, NULL, WNOHANG) == -1 && errno == ECHILD ? "none" : "some";
    uint64_t k = tasks();
    for (int i = 0; i < 200 && k > 1; i++) { usleep(5000); k = tasks(); } // a joined thread may still be leaving
    s["threads"] = fmt("%llu", (unsigned long long)k);
    for (int fd = 0; fd < 256; fd++)
    {
        struct stat st;
        if (fstat(fd, &st)) continue;
        s[fmt("descriptor %d", fd)] = fmt("dev %lu inode %lu flags %x %x offset %lld%s", (unsigned long)st.st_dev, (unsigned long)st.st_ino, fcntl(fd, F_GETFL), fcntl(fd, F_GETFD),
                                          S_ISREG(st.st_mode) ? (long long)lseek(fd, 0, SEEK_CUR) : 0LL, "");
    }
    scan(d_root, s);
}
static void put(const char *p, const uint8_t *d, size_t n)
{
    int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t o = 0;
    while (fd >= 0 && o < n) { ssize_t k = write(fd, d + o, n - o); if (k <= 0) break; o += (size_t)k; }
    if (fd < 0 || o < n || close(fd)) harness_error("cannot write %s", p);
}
static const char *KIND[] = {"bwt_string keeping the string", "bwt_string freeing the string", "bwt_file to a new output", "bwt_file over an old output", "bwt_file onto its input", "bwt_string(NULL, n)",
                             "bwt_string(s, 0)", "bwt_file with no input", "bwt_file of a directory", "bwt_file with an output that cannot be opened", "bwt_file with a refused output", "bwt_file of an empty file"};
enum { KINDS = 12 };
static int saved[3] = {-1, -1, -1};
static char p_std[3][600];
static void side(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    uint64_t n = t.size();
    for (int kind = 0; kind < KINDS; kind++)
    {
        const char *in = p_in, *out = p_out;
        put(p_in, t.data(), kind == 11 ? 0 : n);
        unlink(p_out);
        if (kind == 3 || kind == 10) put(p_out, (const uint8_t *)"previous content", 16);
        if (kind == 4) { put(p_out, t.data(), n); in = p_out; }
        if (kind == 7) in = p_none;
        if (kind == 8) in = p_dir;
        if (kind == 9) out = p_bad;
        uint8_t *T = malloc_copy(t);
        struct rlimit fs, tight;
        if (kind == 10)
        {
            getrlimit(RLIMIT_FSIZE, &fs);
            tight = fs;
            tight.rlim_cur = n / 2;
            fflush(NULL);
            signal(SIGXFSZ, SIG_IGN);
            setrlimit(RLIMIT_FSIZE, &tight);
        }
        State before, after;
        unsigned sd = (unsigned)(n * 7 + kind + 1);
        srand(sd);
        int r0 = rand(), r1 = rand(), r2 = rand();
        srand48(sd);
        long l0 = lrand48(), l1 = lrand48();
        srand(sd);
        rand();
        srand48(sd);
        lrand48();
        (void)r0;
        (void)l0;
        fflush(NULL);
        collect(before);
        nopened = 0;
        recording = true;
        w_used = 0;
#ifdef FLBWT_VERIF_HOOKS // a width of its own for every kind of call
        w_target = (1ULL << (29 + (n * 5 + (uint64_t)kind * 8) % 33)) + n % 100;
#endif
        Outcome o = {false, "", NULL};
        if (kind < 2) o = call_string(T, n, kind == 1);
        else if (kind == 5) o = call_string(NULL, n, false);
        else if (kind == 6) o = call_string(T, 0, false);
        else
            try { flbwt::bwt_file(in, out); }
            catch (...) { o.threw = true; }
        recording = false;
        int a1 = rand(), a2 = rand();
        long b1 = lrand48();
        std::cout.flush();
        std::cerr.flush();
        fflush(NULL); // what was printed but still buffered counts
        collect(after);
        if (kind == 10)
        {
            setrlimit(RLIMIT_FSIZE, &fs);
            signal(SIGXFSZ, SIG_DFL);
        }
        if (w_used) ctr(fmt("calls_with_%dbit_values", w_width(w_used)).c_str())++;
        const char *w = KIND[kind];
        if ((kind == 5 || kind == 6 || kind == 7 || kind == 8 || kind == 9 || kind == 11) && !o.threw) violation("side-accepted", "%s did not throw", w);
        if (kind < 5 && o.threw) violation("side-exception", "%s threw (n=%llu)", w, (unsigned long long)n);
        for (auto &e : before)
        {
            auto f = after.find(e.first);
            if (f == after.end()) violation("side-effect", "%s (n=%llu): %s is gone (was: %s)", w, (unsigned long long)n, e.first.c_str(), e.second.c_str());
            else if (f->second != e.second) violation("side-effect", "%s (n=%llu): %s changed from \"%s\" to \"%s\"", w, (unsigned long long)n, e.first.c_str(), e.second.c_str(), f->second.c_str());
        }
        for (auto &e : after)
            if (!before.count(e.first)) violation("side-effect", "%s (n=%llu): new %s (%s)", w, (unsigned long long)n, e.first.c_str(), e.second.c_str());
        if (a1 != r1 || a2 != r2 || b1 != l1) violation("side-effect", "%s (n=%llu): the sequence of rand() or lrand48() was disturbed", w, (unsigned long long)n);
        for (int i = 0; i < nopened; i++)
        {
            ctr("paths_opened_for_writing")++;
            struct stat st;
            if (!strcmp(opened[i], p_out) || !strcmp(opened[i], out) || !strcmp(opened[i], "/dev/null")) continue;
            if (!lstat(opened[i], &st)) violation("side-effect", "%s (n=%llu): wrote to %s", w, (unsigned long long)n, opened[i]);
        }
        ctr("facts_compared") += before.size();
        ctr(o.threw ? "calls_that_threw" : "calls_that_returned")++;
        if (o.r) release(o.r);
        if (kind != 1) free(T);
    }
    Lms l(t);
    note_features(t, l);
    evaluated(hash_bytes(t.data(), n), l.num > 0);
    if (st_eval % 29 == 3) sample("%s -> n=%llu", spec, (unsigned long long)n);
}
// memory mappings: identical calls, repeated, must not make the address space grow
static uint64_t vm_pages()
{
    int fd = open("/proc/self/statm", O_RDONLY);
    char b[100] = "";
    if (fd < 0 || read(fd, b, 99) <= 0) harness_error("statm");
    close(fd);
    return strtoull(b, NULL, 10);
}
static void grow(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    uint64_t n = t.size(), at[4];
    for (int kind = 0; kind < 3; kind++)
    {
        put(p_in, t.data(), n);
        for (int i = 0; i < 40; i++)
        {
            if (i % 10 == 0) at[i / 10] = vm_pages();
            if (kind == 0)
            {
                uint8_t *T = malloc_copy(t);
                Outcome o = call_string(T, n, i % 2);
                if (o.threw) violation("side-exception", "bwt_string threw (n=%llu)", (unsigned long long)n);
                release(o.r);
                if (i % 2 == 0) free(T);
            }
            else
            {
                bool threw = false;
                try { flbwt::bwt_file(kind == 1 ? p_in : p_none, p_out); }
                catch (...) { threw = true; }
                if (threw != (kind == 2)) violation("side-exception", "bwt_file: wrong outcome (n=%llu)", (unsigned long long)n);
            }
        }
        if (at[2] >= at[1] + 10 && at[3] >= at[2] + 10 && vm_pages() >= at[3] + 10)
            violation("side-mappings", "every ten identical calls of kind %d add %llu pages to the address space (n=%llu)", kind, (unsigned long long)(at[3] - at[2]), (unsigned long long)n);
        ctr("repetitions_with_mappings_watched") += 40;
    }
    Lms l(t);
    note_features(t, l);
    evaluated(hash_bytes(t.data(), n) ^ 5, l.num > 0);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    w_install();
    if (!strcmp(g_mode, "user") && geteuid() == 0)
    { // root could undo what others cannot (a raised nice value, say)
        if (chown(g_tmp, 65534, 65534) || setgid(65534) || setuid(65534)) harness_error("setuid");
        prctl(PR_SET_DUMPABLE, 1); // /proc/self stays readable
        if (access(g_tmp, W_OK)) harness_error("scratch directory is not accessible after dropping privileges");
    }
    COUNT("processes_without_privileges", geteuid() != 0);
    snprintf(d_root, sizeof d_root, "%s/side", g_tmp);
    static const char *sub[] = {"", "/cwd", "/home", "/tmp", "/in", "/in/directory", "/out"};
    for (const char *x : sub) mkdir(fmt("%s%s", d_root, x).c_str(), 0755);
    static const char *near[] = {"/cwd/a.out", "/cwd/core", "/cwd/out", "/home/.profile", "/in/in.tmp", "/in/in.bak", "/in/in~", "/in/in.bwt", "/out/out.tmp", "/out/out.bak", "/out/out~", "/out/out.part", "/out/in", "/tmp/flbwt"};
    for (const char *x : near) put(fmt("%s%s", d_root, x).c_str(), (const uint8_t *)x, strlen(x));
    snprintf(p_in, sizeof p_in, "%s/in/in", d_root);
    snprintf(p_out, sizeof p_out, "%s/out/out", d_root);
    snprintf(p_none, sizeof p_none, "%s/in/none", d_root);
    snprintf(p_dir, sizeof p_dir, "%s/in/directory", d_root);
    snprintf(p_bad, sizeof p_bad, "%s/out/missing/out", d_root);
    setenv("HOME", fmt("%s/home", d_root).c_str(), 1);
    setenv("TMPDIR", fmt("%s/tmp", d_root).c_str(), 1);
    if (chdir(fmt("%s/cwd", d_root).c_str())) harness_error("chdir");
    signal(SIGPIPE, SIG_DFL);
    // standard streams are regular files while the cases run, so that their offsets show any use
    fflush(NULL);
    for (int i = 0; i < 3; i++)
    {
        snprintf(p_std[i], sizeof p_std[i], "%s/std%d", g_tmp, i);
        put(p_std[i], (const uint8_t *)"line\nline\n", i ? 0 : 10);
        saved[i] = fcntl(i, F_DUPFD_CLOEXEC, 300);
        int fd = open(p_std[i], i ? O_RDWR : O_RDONLY);
        if (fd < 0 || saved[i] < 0 || dup2(fd, i) < 0) harness_error("standard streams");
        close(fd);
    }
    g_restore = []() { for (int i = 0; i < 3; i++) dup2(saved[i], i); };
    if (!strcmp(g_mode, "side") || !strcmp(g_mode, "user")) drive(side);
    else if (!strcmp(g_mode, "grow")) drive(grow);
    else harness_error("mode %s", g_mode);
    fflush(NULL);
    g_restore();
    print_stats();
    return 0;
}
