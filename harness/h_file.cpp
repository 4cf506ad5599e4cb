// File interface.
//  c02    : layout, exactness and losslessness of the output file
//  reject : unusable requests (C11)
//  fault  : refused output at every byte offset, short input (C12)
//  keep   : calls that fail before they have a result leave all files alone (C28)
//  storm  : interrupted writes into a slow pipe (C12)
#include "alloc.hpp"
#include "width.hpp"
#include <dirent.h>
#include <pthread.h>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>

static char P[16][700];
#define P_IN P[0]
#define P_OUT P[1]
#define P_LINK P[2]
#define P_HARD P[3]
#define P_MISSING P[4]
#define P_EMPTY P[5]
#define P_DIR P[6]
#define P_FIFO P[7]
#define P_NODIR P[8]
#define P_NOREAD P[9]
#define P_NOWRITE P[10]
#define P_DANGLE P[11]
#define P_NOTDIR P[12]
#define P_LONG P[13]

static void write_file(const char *p, const uint8_t *d, size_t n)
{
    FILE *f = fopen(p, "wb");
    if (!f || fwrite(d, 1, n, f) != n || fclose(f)) harness_error("cannot write %s", p);
}
static bool read_file(const char *p, Bytes &o)
{
    FILE *f = fopen(p, "rb");
    o.clear();
    if (!f) return false;
    static uint8_t b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) o.insert(o.end(), b, b + k);
    fclose(f);
    return true;
}
static Outcome call_file(const char *in, const char *out)
{
    Outcome o = {false, "", NULL};
    try { flbwt::bwt_file(in, out); }
    catch (const std::exception &) { o.threw = true; o.what = "std::exception"; }
    catch (...) { o.threw = true; o.what = "something that is not a std::exception"; }
    return o;
}
// does the output file hold the complete transform of t?
static const char *check_output(const Bytes &t, const char *path, uint64_t *rank = NULL)
{
    Bytes f;
    if (!read_file(path, f)) return "output file is missing";
    uint64_t n = t.size(), last = 0;
    if (f.size() != n + 8) return f.size() < n + 8 ? "output file is too short" : "output file is too long";
    for (int i = 0; i < 8; i++) last = last << 8 | f[i];
    if (last > n) return "header is not a valid terminator row";
    if (rank) *rank = last;
    Bytes B(n + 1, 0);
    for (uint64_t i = 0; i < n; i++) B[i < last ? i : i + 1] = f[8 + i];
    if (n <= 300)
    {
        Bytes ref;
        if (ref_bwt(t, ref) != last) return "header is not the terminator row";
        for (uint64_t i = 0; i <= n; i++) if (i != last && ref[i] != B[i]) return "output bytes are not the transform";
    }
    return verify_bwt(t.data(), n, B.data(), last);
}
static void setup_paths()
{
    const char *names[] = {"in", "out", "link", "hard", "missing", "empty", "dir", "fifo", "nodir/out", "noread", "nowrite", "dangle", "empty/x", ""};
    for (int i = 0; i < 13; i++) snprintf(P[i], sizeof P[i], "%s/%s", g_tmp, names[i]);
    snprintf(P_LONG, 400, "%s/", g_tmp);
    size_t l = strlen(P_LONG);
    memset(P_LONG + l, 'x', 300);
    P_LONG[l + 300] = 0;
    unlink(P_LINK);
    if (symlink("in", P_LINK)) harness_error("symlink");
}

static void c02(const char *spec)
{
    Bytes t, junk;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    size_t n = t.size();
    for (int k = 0; k < 6; k++)
    {
        if (n > 200000 && k != (int)(hash_bytes(t.data(), n) % 5) && (k != 5 || n > 50000000)) continue;
        unlink(P_IN);
        write_file(P_IN, t.data(), n);
        unlink(P_OUT);
        const char *out = P_OUT;
        struct stat a, b;
        if (k == 1) { junk.assign(n / 2, 'J'); write_file(P_OUT, junk.data(), junk.size()); }
        if (k == 2) { junk.assign(n + 8 + 1 + n % 5000, 'J'); write_file(P_OUT, junk.data(), junk.size()); }
        if (k == 3) out = P_IN;
        if (k == 4) { unlink(P_HARD); if (link(P_IN, P_HARD)) harness_error("link"); out = P_HARD; }
        if (k == 5) out = P_LINK;
        bool same = k >= 3;
        if (stat(P_IN, &a)) harness_error("stat");
        Outcome o = call_file(P_IN, out);
        static const char *KN[] = {"fresh output", "shorter existing output", "longer existing output", "output is the input", "output is a hard link to the input", "output is a symbolic link to the input"};
        if (o.threw) violation("file-exception", "%s: bwt_file threw %s on a valid request (n=%zu)", KN[k], o.what, n);
        uint64_t rank = 0;
        const char *e = check_output(t, out, &rank);
        if (e) violation("file-mismatch", "%s: %s (n=%zu)", KN[k], e, n);
        if (!same)
        {
            Bytes back;
            if (!read_file(P_IN, back) || back != t) violation("input-changed", "%s: the input file was changed (n=%zu)", KN[k], n);
            if (stat(P_IN, &b) || a.st_ino != b.st_ino) violation("input-changed", "%s: the input file was replaced (n=%zu)", KN[k], n);
        }
        ctr("files_checked")++;
        COUNT("same_file", same);
        COUNT("terminator_in_last_row", rank == n);
        COUNT("terminator_in_row_1", rank == 1);
        COUNT("inputs_over_64K", n > 65536);
        ctr_max("max_terminator_row", rank);
    }
    Lms l(t);
    note_features(t, l);
    evaluated(hash_bytes(t.data(), n), n > 1);
    if (st_eval % 97 == 5) sample("%s -> n=%zu: 6 output situations, file = header + transform, decodes to the input", spec, n);
}

// ---------------------------------------------------------------------------------- C11
enum { I_OK, I_MISSING, I_EMPTY, I_DIR, I_FIFO, I_NOREAD, I_DANGLE, I_NOTDIR, I_LONG, I_NOFILE, I_DEVNULL, NI };
enum { O_FRESH, O_EXIST, O_NODIR, O_DIR, O_NOWRITE, O_NOFILE, O_SAME, O_LONG, O_RDDIR, NO };
static const char *IN_NAME[] = {"valid file", "missing file", "empty file", "directory", "FIFO", "unreadable file", "dangling link", "path below a file", "overlong path", "empty path", "/dev/null"};
static const char *ON_NAME[] = {"fresh output", "existing output", "output in missing directory", "output is a directory", "unwritable output", "empty output path", "output equals input", "overlong output path", "output in read-only directory"};
static bool unpriv;

static void one_request(Rng &r, const Bytes &t, const Bytes &old, int ik, int ok)
{
    static char ro[720];
    snprintf(ro, sizeof ro, "%s/rodir/out", g_tmp);
    if (!unpriv && (ik == I_NOREAD || ok == O_NOWRITE || ok == O_RDDIR)) return;
    const char *in = ik == I_OK ? P_IN : ik == I_MISSING ? P_MISSING : ik == I_EMPTY ? P_EMPTY : ik == I_DIR ? P_DIR : ik == I_FIFO ? P_FIFO : ik == I_NOREAD ? P_NOREAD
                     : ik == I_DANGLE ? P_DANGLE : ik == I_NOTDIR ? P_NOTDIR : ik == I_LONG ? P_LONG : ik == I_NOFILE ? "" : "/dev/null";
    const char *out = ok == O_FRESH || ok == O_EXIST ? P_OUT : ok == O_NODIR ? P_NODIR : ok == O_DIR ? P_DIR : ok == O_NOWRITE ? P_NOWRITE : ok == O_NOFILE ? "" : ok == O_LONG ? P_LONG : ok == O_RDDIR ? ro : in;
    if (ok == O_SAME && (ik == I_FIFO || ik == I_DEVNULL || ik == I_OK)) return; // C02's business or nothing to observe
    unlink(P_OUT);
    write_file(P_IN, t.data(), t.size());
    if (ok == O_EXIST) write_file(P_OUT, old.data(), old.size());
    struct stat a, b;
    struct timespec past[2] = {{1000000000, 0}, {1000000000, 0}};
    if (ok == O_EXIST) utimensat(AT_FDCWD, P_OUT, past, 0);
    memset(&a, 0, sizeof a);
    memset(&b, 0, sizeof b);
    bool had = stat(out, &a) == 0;
    pid_t w = -1;
    if (ik == I_FIFO)
    {
        fflush(stdout);
        w = fork();
        if (w == 0)
        { // feeds the FIFO once somebody opens it, then closes it
            signal(SIGPIPE, SIG_DFL);
            int fd = open(P_FIFO, O_WRONLY);
            if (fd >= 0 && write(fd, t.data(), t.size() < 4096 ? t.size() : 4096)) {}
            _exit(0);
        }
    }
    Outcome o = call_file(in, out);
    if (w > 0) { kill(w, SIGKILL); waitpid(w, NULL, 0); }
    ctr("requests")++;
    bool want_ok = ik == I_OK && (ok == O_FRESH || ok == O_EXIST);
    if (want_ok)
    {
        if (o.threw) violation("valid-rejected", "%s, %s: threw %s (n=%zu)", IN_NAME[ik], ON_NAME[ok], o.what, t.size());
        const char *e = check_output(t, P_OUT);
        if (e) violation("valid-wrong", "%s, %s: %s (n=%zu)", IN_NAME[ik], ON_NAME[ok], e, t.size());
        ctr("accepted")++;
        return;
    }
    if (!o.threw) violation("unusable-accepted", "%s, %s: returned normally", IN_NAME[ik], ON_NAME[ok]);
    if (strcmp(o.what, "std::exception")) violation("foreign-exception", "%s, %s: threw %s", IN_NAME[ik], ON_NAME[ok], o.what);
    ctr("rejected")++;
    char nm[48];
    snprintf(nm, sizeof nm, "rejected_input_%d", ik);
    ctr(nm)++;
    if (ok != O_FRESH && ok != O_EXIST) { snprintf(nm, sizeof nm, "rejected_output_%d", ok); ctr(nm)++; }
    if (ik != I_OK)
    {
        bool has = stat(out, &b) == 0;
        if (has && !had) violation("output-created", "%s, %s: rejected input, but the output path was created", IN_NAME[ik], ON_NAME[ok]);
        if (!has && had) violation("output-removed", "%s, %s: rejected input, but the output path was removed", IN_NAME[ik], ON_NAME[ok]);
        if (has && (a.st_ino != b.st_ino || a.st_size != b.st_size || a.st_mtim.tv_sec != b.st_mtim.tv_sec || a.st_mtim.tv_nsec != b.st_mtim.tv_nsec))
            violation("output-touched", "%s, %s: rejected input, but the output path was modified", IN_NAME[ik], ON_NAME[ok]);
        if (ok == O_EXIST)
        {
            Bytes f;
            read_file(P_OUT, f);
            if (f != old) violation("output-touched", "%s, %s: rejected input, but the output file was modified", IN_NAME[ik], ON_NAME[ok]);
        }
    }
}
static void rejected_strings(Rng &r)
{
    uint8_t buf[4] = {'a', 'b', 0, 0};
    for (int k = 0; k < 5; k++)
    {
        Outcome o = k == 0 ? call_string(NULL, r.range(1, 1000), false) : k == 1 ? call_string(NULL, 0, true) : k == 2 ? call_string(buf, 0, false)
                  : k == 3 ? call_string(NULL, ~0ULL, true) : call_string(NULL, 0, false);
        if (!o.threw) violation("null-accepted", "bwt_string request %d returned normally", k);
        if (strcmp(o.what, "std::exception")) violation("foreign-exception", "bwt_string request %d threw %s", k, o.what);
        if (buf[0] != 'a' || buf[1] != 'b' || buf[2]) violation("string-modified", "bwt_string request %d modified its argument", k);
        ctr("rejected_strings")++;
    }
}
static void reject(const char *spec)
{ // a random history of requests of all kinds in one process
    Spec s(spec);
    Rng r(s.num("seed", 1));
    Bytes t, old;
    uint64_t len = s.num("len", 60);
    char g[SPEC_MAX];
    for (uint64_t i = 0; i < len; i++)
    {
        random_spec(r, 300, g);
        gen_spec(g, t);
        old.assign(r.range(0, 5000), 'O');
        if (i < NI * NO && s.num("all", 0)) one_request(r, t, old, (int)(i / NO), (int)(i % NO));
        else one_request(r, t, old, (int)r.below(NI), (int)r.below(NO));
        if (r.chance(1, 4)) rejected_strings(r);
        if (r.chance(1, 4)) { one_request(r, t, old, I_OK, O_FRESH); }
    }
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), true);
    if (st_eval % 19 == 5) sample("%s -> %llu requests, %llu rejected, outputs untouched", spec, (unsigned long long)ctr("requests"), (unsigned long long)ctr("rejected"));
}

// ---------------------------------------------------------------------------------- C12
// The input file shrinks after its length has been taken: triggered by the library's request
// for a buffer of about the file's length, or at the first fread.
static uint64_t shrink_n, shrink_to;
static bool shrink_armed, shrink_done;
static void (*shrink_hook)();
static void shrink_now()
{
    shrink_armed = false;
    if (truncate(P_IN, (off_t)shrink_to)) harness_error("truncate");
    shrink_done = true;
}
static void shrink_on_alloc(uint64_t n)
{
    if (shrink_armed && n >= shrink_n && n <= shrink_n + 64 && n > 600 && (n & (n - 1))) // powers of two: buffers of streams, requested earlier
        shrink_now();
}
// a reader that did not ask for the length before its first fread has no length to compare with
static bool length_taken;
#define ASKS_LENGTH(R, f, P, A) extern "C" R __real_##f P; extern "C" R __wrap_##f P { length_taken = true; return __real_##f A; }
ASKS_LENGTH(int, fseek, (FILE *f, long o, int w), (f, o, w))
ASKS_LENGTH(int, fseeko, (FILE *f, off_t o, int w), (f, o, w))
ASKS_LENGTH(long, ftell, (FILE *f), (f))
ASKS_LENGTH(off_t, ftello, (FILE *f), (f))
ASKS_LENGTH(off_t, lseek, (int d, off_t o, int w), (d, o, w))
ASKS_LENGTH(int, stat, (const char *p, struct stat *b), (p, b))
ASKS_LENGTH(int, fstat, (int d, struct stat *b), (d, b))
extern "C" size_t __real_fread(void *, size_t, size_t, FILE *);
extern "C" size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f)
{
    if (shrink_armed && length_taken) shrink_hook ? shrink_hook() : shrink_now();
    return __real_fread(p, a, b, f);
}
extern "C" size_t __real___fread_chk(void *, size_t, size_t, size_t, FILE *);
extern "C" size_t __wrap___fread_chk(void *p, size_t l, size_t a, size_t b, FILE *f)
{
    if (shrink_armed && length_taken) shrink_hook ? shrink_hook() : shrink_now();
    return __real___fread_chk(p, l, a, b, f);
}
static void fault_limit(const Bytes &t, uint64_t k, bool fresh)
{
    struct rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    unlink(P_OUT);
    if (!fresh) { Bytes j(t.size() + 100, 'J'); write_file(P_OUT, j.data(), j.size()); }
    lim = old;
    lim.rlim_cur = k;
    fflush(stdout);
    if (setrlimit(RLIMIT_FSIZE, &lim)) harness_error("setrlimit");
    Outcome o = call_file(P_IN, P_OUT);
    setrlimit(RLIMIT_FSIZE, &old);
    bool enough = k >= t.size() + 8;
    if (o.threw && strcmp(o.what, "std::exception")) violation("foreign-exception", "output limit %llu: threw %s", (unsigned long long)k, o.what);
    if (enough)
    {
        if (o.threw) violation("fault-spurious", "output of %zu bytes allowed up to %llu, but an exception was thrown", t.size() + 8, (unsigned long long)k);
        const char *e = check_output(t, P_OUT);
        if (e) violation("fault-wrong", "output limit %llu: %s", (unsigned long long)k, e);
        ctr("limits_not_reached")++;
    }
    else
    {
        if (!o.threw)
        {
            const char *e = check_output(t, P_OUT);
            violation("fault-unreported", "output refused after %llu of %zu bytes, but the call returned normally (%s)", (unsigned long long)k, t.size() + 8, e ? e : "file is complete");
        }
        ctr("refused_outputs")++;
    }
    evaluated(hash_bytes(t.data(), t.size(), k * 2 + fresh + 17), !enough);
}
// The refusal is temporary: after the k-th byte one write fails, and later ones would succeed.
static struct rlimit wide;
static volatile sig_atomic_t refusals;
static void lift(int)
{
    refusals = refusals + 1;
    setrlimit(RLIMIT_FSIZE, &wide);
}
static void fault_once(const Bytes &t, uint64_t k)
{
    struct rlimit lim;
    getrlimit(RLIMIT_FSIZE, &wide);
    unlink(P_OUT);
    lim = wide;
    lim.rlim_cur = k;
    refusals = 0;
    fflush(stdout);
    signal(SIGXFSZ, lift);
    if (setrlimit(RLIMIT_FSIZE, &lim)) harness_error("setrlimit");
    Outcome o = call_file(P_IN, P_OUT);
    setrlimit(RLIMIT_FSIZE, &wide);
    signal(SIGXFSZ, SIG_IGN);
    if (o.threw && strcmp(o.what, "std::exception")) violation("foreign-exception", "one refusal at %llu: threw %s", (unsigned long long)k, o.what);
    if (!o.threw)
    {
        const char *e = check_output(t, P_OUT);
        if (e) violation("fault-unreported", "one write at offset %llu of %zu refused, but the call returned normally (%s)", (unsigned long long)k, t.size() + 8, e);
    }
    else if (!refusals) violation("fault-spurious", "nothing was refused, but an exception was thrown (n=%zu)", t.size());
    if (refusals) ctr("temporary_refusals")++;
    evaluated(hash_bytes(t.data(), t.size(), k * 2 + 0x7ea5), refusals > 0);
}
static void fault(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    Spec s(spec);
    size_t n = t.size();
    unlink(P_IN);
    write_file(P_IN, t.data(), n);
    if (n <= 700)
        for (uint64_t k = 0; k <= n + 9; k++)
        {
            set_case(g_status->spec);
            fault_limit(t, k, k & 1);
            if (k % 5 == n % 5 || k < 10) fault_once(t, k);
        }
    else
    {
        U64Set done;
        Rng r(hash_bytes(t.data(), n));
        int tries = (int)s.num("tries", 60);
        for (int i = 0; i < tries; i++)
        {
            uint64_t k;
            switch (i % 6)
            {
            case 0: k = r.below(n + 8); break;
            case 1: k = (uint64_t)i / 6; break;
            case 2: k = n + 8 - (uint64_t)i / 6; break;
            case 3: k = 4096 * r.below((n + 8) / 4096 + 1) + r.below(3) - 1; break;
            case 4: k = 4096 * ((n + 8) / 4096) + r.below(10); break;
            default: k = n + r.below(10);
            }
            if (k > n + 20) k = n + 8;
            if (!done.insert(k)) continue;
            set_case(g_status->spec);
            fault_limit(t, k, i & 1);
            fault_once(t, k);
        }
    }
    // a device that refuses every byte
    Outcome o = call_file(P_IN, "/dev/full");
    if (!o.threw) violation("fault-unreported", "/dev/full: the call returned normally (n=%zu)", n);
    if (strcmp(o.what, "std::exception")) violation("foreign-exception", "/dev/full: threw %s", o.what);
    ctr("refused_outputs")++;
    evaluated(hash_bytes(t.data(), n, 0xf011), true);
    // the input delivers fewer bytes than its length
    std::vector<uint64_t> cuts;
    if (n <= 64) for (uint64_t k = 0; k < n; k++) cuts.push_back(k);
    else { Rng r(n); for (int i = 0; i < 12; i++) cuts.push_back(i == 0 ? 0 : i == 1 ? n - 1 : i == 2 ? 1 : r.below(n)); }
    for (size_t i = 0; i < cuts.size(); i++)
    {
        write_file(P_IN, t.data(), n);
        unlink(P_OUT);
        shrink_n = n;
        shrink_to = cuts[i];
        shrink_done = length_taken = false;
        shrink_armed = true;
        al_reset();
        al_hook = shrink_on_alloc;
        al.on = true;
        Outcome q = call_file(P_IN, P_OUT);
        al.on = false;
        al_hook = NULL;
        shrink_armed = false;
        if (!shrink_done) { ctr("short_reads_not_injected")++; continue; }
        if (!q.threw)
        { // legitimate only if every byte had been buffered before the file shrank
            const char *e = check_output(t, P_OUT);
            if (e) violation("short-read-unreported", "input cut to %llu of %zu bytes while being read, but the call returned normally (%s)", (unsigned long long)cuts[i], n, e);
            ctr("cut_after_buffering")++;
            continue;
        }
        if (strcmp(q.what, "std::exception")) violation("foreign-exception", "short input: threw %s", q.what);
        ctr("short_reads")++;
        evaluated(hash_bytes(t.data(), n, cuts[i] * 7 + 3), true);
    }
    // files of the kernel that deliver fewer bytes than their length, however small (only read)
    static const char *const shorts[] = {"/sys/kernel/cpu_byteorder", "/sys/kernel/address_bits", "/sys/kernel/fscaps", "/sys/kernel/uevent_seqnum", "/sys/kernel/mm/transparent_hugepage/enabled"};
    for (size_t i = 0; i < 5 && n <= 64; i++)
    {
        struct stat sb;
        Bytes c;
        if (stat(shorts[i], &sb) || !read_file(shorts[i], c) || c.empty() || (off_t)c.size() >= sb.st_size) { ctr("files_of_the_kernel_not_there")++; continue; }
        unlink(P_OUT);
        Outcome q = call_file(shorts[i], P_OUT);
        if (!q.threw) violation("short-read-unreported", "%s delivers %zu of %llu bytes, but the call returned normally", shorts[i], c.size(), (unsigned long long)sb.st_size);
        if (strcmp(q.what, "std::exception")) violation("foreign-exception", "short input: threw %s", q.what);
        ctr("short_files_of_the_kernel")++;
    }
    sample("%s -> n=%zu: limits up to %zu bytes, /dev/full, %zu shrinking inputs: every incomplete output reported", spec, n, n + 8, cuts.size());
}

// Signals arrive all the time, without SA_RESTART, while the output goes into a pipe that is read slowly:
// writes are interrupted before and after a part of them. spec: <input>,us=<microseconds between signals>
struct Slow { int fd; uint64_t seed; Bytes got; };
static void *slow_reader(void *v)
{
    Slow *s = (Slow *)v;
    sigset_t all;
    sigfillset(&all);
    pthread_sigmask(SIG_BLOCK, &all, NULL);
    Rng r(s->seed);
    static uint8_t b[20000];
    for (;;)
    {
        if (r.chance(1, 2)) usleep((useconds_t)r.below(1500));
        ssize_t k = read(s->fd, b, r.chance(1, 3) ? 1 + r.below(300) : 1 + r.below(sizeof b));
        if (k <= 0) break;
        s->got.insert(s->got.end(), b, b + k);
    }
    close(s->fd);
    return NULL;
}
static volatile sig_atomic_t alarms;
static void on_alarm(int) { alarms = alarms + 1; }
static void storm(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    Spec sp(spec);
    size_t n = t.size();
    unlink(P_IN);
    write_file(P_IN, t.data(), n);
    for (uint64_t turn = 0; turn < sp.num("turns", 6); turn++)
    {
        int fd[2];
        if (pipe(fd)) harness_error("pipe");
        Slow s = {fd[0], hash_bytes(t.data(), n, turn), Bytes()};
        char path[60];
        snprintf(path, sizeof path, "/dev/fd/%d", fd[1]);
        pthread_t th;
        if (pthread_create(&th, NULL, slow_reader, &s)) harness_error("pthread_create");
        struct sigaction sa, old;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_alarm;
        sigaction(SIGALRM, &sa, &old);
        suseconds_t us = (suseconds_t)sp.num("us", 300);
        struct itimerval it = {{0, us}, {0, us}}, off = {{0, 0}, {0, 0}};
        alarms = 0;
        setitimer(ITIMER_REAL, &it, NULL);
        Outcome o = call_file(P_IN, path);
        setitimer(ITIMER_REAL, &off, NULL);
        sigaction(SIGALRM, &old, NULL);
        close(fd[1]);
        pthread_join(th, NULL);
        if (o.threw && strcmp(o.what, "std::exception")) violation("foreign-exception", "while signals arrived: threw %s", o.what);
        if (!o.threw)
        {
            uint64_t last = 0;
            Bytes &f = s.got;
            bool ok = f.size() == n + 8;
            for (int i = 0; ok && i < 8; i++) last = last << 8 | f[i];
            ok = ok && last <= n;
            Bytes B(n + 1, 0);
            for (uint64_t i = 0; ok && i < n; i++) B[i < last ? i : i + 1] = f[8 + i];
            if (!ok || verify_bwt(t.data(), n, B.data(), last)) violation("interrupted", "signals arrived while the output was written: the call returned normally, but %zu of %zu bytes were read or they are wrong", f.size(), n + 8);
        }
        ctr(o.threw ? "interrupted_calls_that_threw" : "interrupted_calls_that_returned")++;
        ctr("signals_during_calls") += alarms;
        evaluated(hash_bytes(t.data(), n, turn + 99), alarms > 0);
    }
}

// A call that fails before it has a result leaves every file as it is (C28).
struct Snap { std::vector<std::pair<std::string, uint64_t> > e; };
static void snapshot(const char *dir, Snap &s)
{
    s.e.clear();
    DIR *d = opendir(dir);
    if (!d) harness_error("opendir %s", dir);
    while (struct dirent *x = readdir(d))
    {
        std::string p = std::string(dir) + "/" + x->d_name;
        struct stat b;
        if (lstat(p.c_str(), &b)) harness_error("lstat %s", p.c_str());
        if (!strcmp(x->d_name, ".") || !strcmp(x->d_name, "..")) continue;
        uint64_t h = 77;
        uint64_t v[] = {b.st_ino, b.st_mode, b.st_nlink, b.st_uid, b.st_gid, (uint64_t)b.st_size, (uint64_t)b.st_mtim.tv_sec, (uint64_t)b.st_mtim.tv_nsec};
        h = hash_bytes((const uint8_t *)v, sizeof v, h);
        if (S_ISREG(b.st_mode))
        {
            Bytes c;
            read_file(p.c_str(), c);
            h = hash_bytes(c.data(), c.size(), h);
        }
        s.e.push_back(std::make_pair(std::string(x->d_name), h));
    }
    closedir(d);
    std::sort(s.e.begin(), s.e.end());
}
static const char *KEEP[] = {"an absent output", "an existing output", "the input as output", "a hard link to the input as output", "a symbolic link to the input as output", "a symbolic link to an existing output", "a dangling link as output"};
static Snap before;
static char keep_dir[640];
static void shrink_and_note()
{
    shrink_now();
    snapshot(keep_dir, before);
}
static void shrink_on_alloc_note(uint64_t n)
{
    if (shrink_armed && n >= shrink_n && n <= shrink_n + 64 && n > 600 && (n & (n - 1)))
    {
        bool on = al.on;
        al.on = false; // the snapshot's own requests are not the library's
        shrink_and_note();
        al.on = on;
    }
}
static void keep(const char *spec)
{
    Bytes t, junk;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    size_t n = t.size();
    snprintf(keep_dir, sizeof keep_dir, "%s/keep", g_tmp);
    mkdir(keep_dir, 0700);
    char in[700], out[700], hard[700], link_in[700], link_out[700], dangle[700], none[700];
    snprintf(in, sizeof in, "%s/in", keep_dir);
    snprintf(out, sizeof out, "%s/out", keep_dir);
    snprintf(hard, sizeof hard, "%s/hard", keep_dir);
    snprintf(link_in, sizeof link_in, "%s/link_in", keep_dir);
    snprintf(link_out, sizeof link_out, "%s/link_out", keep_dir);
    snprintf(dangle, sizeof dangle, "%s/dangle", keep_dir);
    snprintf(none, sizeof none, "%s/none", keep_dir);
    const char *outs[] = {none, out, in, hard, link_in, link_out, dangle};
    const char *all[] = {in, out, hard, link_in, link_out, dangle, none};
    for (int i = 0; i < 7; i++) unlink(all[i]);
    { char x[700]; snprintf(x, sizeof x, "%s/nothing", keep_dir); unlink(x); }
    write_file(in, t.data(), n);
    junk.assign(100 + n % 9000, 'J');
    write_file(out, junk.data(), junk.size());
    if (link(in, hard) || symlink("in", link_in) || symlink("out", link_out) || symlink("nothing", dangle)) harness_error("links");
    // the memory that the call needs
    al_reset();
    al.on = true;
    Outcome o = call_file(in, none);
    al.on = false;
    uint64_t peak = al.peak;
    if (o.threw) violation("file-exception", "bwt_file threw %s on a valid request (n=%zu)", o.what, n);
    const char *e = check_output(t, none);
    if (e) violation("file-mismatch", "%s (n=%zu)", e, n);
    unlink(none);
    Rng r(hash_bytes(t.data(), n, 5));
    // writing the output takes memory as well, but little
    for (int k = 0; k < 7 && peak > 65536 + 4 * (n < 30000 ? n : 0); k++)
        for (int i = 0; i < 8; i++)
        {
            // a share of at most 6/10 of it, less than any result needs
            uint64_t limit = i == 0 ? peak * 6 / 10 : i == 1 ? n + r.below(5000) : 1 + r.below(peak * 6 / 10);
            snapshot(keep_dir, before);
            al_reset();
            al.limit = limit;
            al.on = true;
            o = call_file(in, outs[k]);
            al.on = false;
            al.limit = 0;
            Snap after;
            snapshot(keep_dir, after);
            if (!o.threw)
            { // managed with less
                ctr("calls_that_returned")++;
                const char *x = check_output(t, outs[k]);
                if (x) violation("keep-wrong", "%s, %llu bytes of memory: the call returned, but %s (n=%zu)", KEEP[k], (unsigned long long)limit, x, n);
                return;
            }
            if (before.e != after.e)
            {
                std::string w = "a file is gone";
                for (size_t j = 0; j < after.e.size(); j++)
                    if (std::find(before.e.begin(), before.e.end(), after.e[j]) == before.e.end()) w = "'" + after.e[j].first + "' was created or changed";
                violation("keep-changed", "%s, %llu of %llu bytes of memory: the call failed, but %s (n=%zu)", KEEP[k], (unsigned long long)limit, (unsigned long long)peak, w.c_str(), n);
            }
            ctr("calls_without_memory")++;
            evaluated(hash_bytes(t.data(), n, limit * 8 + k), true);
        }
    // the input delivers less than its length
    for (int k = 0; k < 7; k++)
    {
        unlink(none);
        write_file(in, t.data(), n);
        shrink_n = n;
        shrink_to = r.below(n);
        shrink_done = length_taken = false;
        shrink_armed = true;
        snprintf(P_IN, sizeof P[0], "%s", in);
        shrink_hook = shrink_and_note;
        al_reset();
        al_hook = shrink_on_alloc_note;
        al.on = true;
        o = call_file(in, outs[k]);
        al.on = false;
        al_hook = NULL;
        shrink_hook = NULL;
        shrink_armed = false;
        if (!shrink_done || !o.threw) // every byte had been buffered
        {
            ctr("short_reads_not_injected")++;
            unlink(in);
            unlink(hard);
            write_file(in, t.data(), n);
            if (link(in, hard)) harness_error("link");
            write_file(out, junk.data(), junk.size());
            { char x[700]; snprintf(x, sizeof x, "%s/nothing", keep_dir); unlink(x); }
            continue;
        }
        Snap after;
        snapshot(keep_dir, after);
        if (before.e != after.e) violation("keep-changed", "%s: the input delivered %llu of %zu bytes and the call failed, but a file was created or changed", KEEP[k], (unsigned long long)shrink_to, n);
        ctr("short_reads")++;
        evaluated(hash_bytes(t.data(), n, shrink_to * 8 + k + 1), true);
    }
    if (st_eval % 7 == 5) sample("%s -> n=%zu: 56 calls without enough of %llu bytes of memory: no file changed", spec, n, (unsigned long long)peak);
}

int main(int argc, char **argv)
{
    parse_args(argc, argv);
    signal(SIGXFSZ, SIG_IGN);
    setup_paths();
    if (!strcmp(g_mode, "reject"))
    {
        write_file(P_EMPTY, NULL, 0);
        Bytes t(100, 'x');
        write_file(P_NOREAD, t.data(), t.size());
        write_file(P_NOWRITE, t.data(), t.size());
        mkdir(P_DIR, 0755);
        char ro[720];
        snprintf(ro, sizeof ro, "%s/rodir", g_tmp);
        mkdir(ro, 0755);
        if (mkfifo(P_FIFO, 0666)) harness_error("mkfifo");
        if (symlink("nowhere", P_DANGLE)) harness_error("symlink");
        if (geteuid() == 0)
        { // permissions mean nothing to root: go on as nobody, inside this scratch directory only
            if (chown(g_tmp, 65534, 65534) || chown(P_FIFO, 65534, 65534) || chmod(P_NOREAD, 0) || chmod(P_NOWRITE, 0444) || chmod(ro, 0555)) harness_error("chown/chmod");
            if (setgid(65534) || setuid(65534)) harness_error("setuid");
        }
        else if (chmod(P_NOREAD, 0) || chmod(P_NOWRITE, 0444) || chmod(ro, 0555)) harness_error("chmod");
        unpriv = geteuid() != 0 && access(P_NOREAD, R_OK) != 0 && access(P_NOWRITE, W_OK) != 0;
        if (access(g_tmp, W_OK)) harness_error("scratch directory is not accessible after dropping privileges");
        COUNT("permission_checks_active", unpriv);
        drive(reject);
    }
    else if (!strcmp(g_mode, "c02")) drive(c02);
    else if (!strcmp(g_mode, "storm")) drive(storm);
    else if (!strcmp(g_mode, "keep")) drive(keep);
    else if (!strcmp(g_mode, "fault")) drive(fault);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
