// C31: what a file transform that is cut short leaves behind. The process that transforms is stopped at
// many moments and the files are looked at: what is there then is what would be left if it were killed at
// that moment. Besides, it is killed at exact offsets of its output, by a file size limit.
#include "api.hpp"
#include <dirent.h>
#include <errno.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>

static char d_dir[600], p_in[700], p_out[700];
static Bytes t_in, t_final, t_before;
static bool same;          // output path = input path
static bool was_there;     // output file existed
static struct stat st_in, st_out;

static void put(const char *p, const Bytes &b)
{
    FILE *f = fopen(p, "wb");
    if (!f || (b.size() && fwrite(b.data(), 1, b.size(), f) != b.size()) || fclose(f)) harness_error("cannot write %s", p);
}
static double cpu_of(pid_t p)
{
    clockid_t c;
    struct timespec t;
    if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return -1;
    return t.tv_sec + t.tv_nsec * 1e-9;
}
// 0: as before the call, 1: a proper prefix of the output, 2: the whole output
static int look(const char *when, uint64_t *len)
{
    DIR *d = opendir(d_dir);
    if (!d) harness_error("opendir");
    while (struct dirent *e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && strcmp(e->d_name, "in") && strcmp(e->d_name, "out"))
            violation("crash-other-file", "%s: there is a file %.100s beside input and output (n=%zu)", when, e->d_name, t_in.size());
    closedir(d);
    struct stat s;
    for (int which = same; which < 2; which++)
    { // input, output
        const char *p = which ? p_out : p_in;
        int fd = open(p, O_RDONLY);
        if (fd < 0)
        {
            if (which && !was_there && errno == ENOENT) { *len = 0; return 0; }
            violation("crash-missing", "%s: the %s is not there (n=%zu)", when, which ? "output file" : "input file", t_in.size());
        }
        fstat(fd, &s);
        uint64_t n = (uint64_t)s.st_size;
        const uint8_t *m = n ? (const uint8_t *)mmap(NULL, n, PROT_READ, MAP_SHARED, fd, 0) : NULL;
        if (m == MAP_FAILED) harness_error("mmap");
        close(fd);
        const struct stat &b = which ? st_out : st_in;
        if ((!which || was_there) && (s.st_ino != b.st_ino || s.st_dev != b.st_dev || s.st_mode != b.st_mode || s.st_nlink != b.st_nlink))
            violation("crash-identity", "%s: the %s is another file than before (n=%zu)", when, which ? "output" : "input", t_in.size());
        if (!which)
        {
            if (n != t_in.size() || (n && memcmp(m, t_in.data(), n))) violation("crash-input", "%s: the input file has changed (n=%zu)", when, t_in.size());
            if (n) munmap((void *)m, n);
            continue;
        }
        *len = n;
        bool before = was_there && n == t_before.size() && (!n || !memcmp(m, t_before.data(), n));
        bool prefix = n <= t_final.size() && (!n || !memcmp(m, t_final.data(), n));
        if (n) munmap((void *)m, n);
        if (prefix && n == t_final.size()) return 2;
        if (before) return 0;
        if (!prefix) violation("crash-not-prefix", "%s: the output file has %llu bytes that are neither what was there nor the beginning of the output (n=%zu)", when, (unsigned long long)n, t_in.size());
        return 1;
    }
    return 0;
}
static void prepare(int mode, Rng &r)
{
    same = mode == 3;
    was_there = mode != 0;
    unlink(p_in);
    strcpy(strrchr(p_out, '/'), same ? "/in" : "/out");
    put(p_in, t_in);
    if (same) t_before = t_in;
    else if (mode == 0) { unlink(p_out); t_before.clear(); }
    else
    {
        t_before.assign(mode == 1 ? t_final.size() + 1000 : t_final.size() / 3 + 1, 0);
        for (size_t i = 0; i < t_before.size(); i += 1 + i / 64) t_before[i] = (uint8_t)r.next();
        t_before[0] = 0xee; // no prefix of any output here
        put(p_out, t_before);
    }
    stat(p_in, &st_in);
    if (was_there) stat(p_out, &st_out);
}
static pid_t start(uint64_t limit)
{
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) harness_error("fork");
    if (p == 0)
    {
        struct itimerval off;
        memset(&off, 0, sizeof off);
        setitimer(ITIMER_VIRTUAL, &off, NULL);
        if (limit)
        {
            signal(SIGXFSZ, SIG_DFL);
            struct rlimit l = {limit, limit};
            setrlimit(RLIMIT_FSIZE, &l);
        }
        try { flbwt::bwt_file(p_in, p_out); }
        catch (...) { _exit(5); }
        _exit(0);
    }
    return p;
}
static void crash(const char *spec)
{
    if (!gen_spec(spec, t_in)) harness_error("bad spec %s", spec);
    size_t n = t_in.size();
    Rng r(hash_bytes(t_in.data(), n));
    // the complete output, judged by decoding
    strcpy(strrchr(p_out, '/'), "/out");
    put(p_in, t_in);
    unlink(p_out);
    try { flbwt::bwt_file(p_in, p_out); }
    catch (...) { harness_error("file transform of %s failed", spec); }
    t_final.assign(n + 9, 0);
    FILE *f = fopen(p_out, "rb");
    size_t k = f ? fread(t_final.data(), 1, n + 9, f) : 0;
    if (f) fclose(f);
    t_final.resize(k);
    if (k != n + 8) harness_error("output of %s is wrong", spec);
    uint64_t last = 0;
    for (int i = 0; i < 8; i++) last = last << 8 | t_final[i];
    if (last > n) harness_error("output of %s is wrong", spec);
    Bytes rows(t_final.begin() + 8, t_final.end());
    rows.insert(rows.begin() + (long)last, 0);
    if (verify_bwt(t_in.data(), n, rows.data(), last)) harness_error("output of %s is wrong", spec);

    uint64_t partial = 0, points = 0;
    for (int mode = 0; mode < 4; mode++)
    {
        // stopped at random moments
        for (int round = 0; round < 2; round++)
        {
            if (n > 500000 && round != (mode + (int)g_seed) % 2) continue;
            prepare(mode, r);
            pid_t p = start(0);
            // from some moment on, wait for the output to change and look closely then
            bool close_look = false;
            double changed_at = -1;
            int st;
            struct rusage u;
            unsigned grain = (unsigned)(n / 60 + 50); // microseconds; a transform takes about 0.2 per byte
            for (int stops = 0; ; stops++)
            {
                bool ended = false;
                unsigned pause = close_look ? (unsigned)r.below(200) : (unsigned)r.below(grain);
                struct timespec t0, t1;
                clock_gettime(CLOCK_MONOTONIC, &t0);
                do
                {
                    if (wait4(p, &st, WNOHANG, &u) == p) { ended = true; break; }
                    struct stat s;
                    if (!close_look && round)
                    {
                        int c = stat(p_out, &s);
                        if (was_there ? c || s.st_size != st_out.st_size : !c) { close_look = true; break; }
                    }
                    clock_gettime(CLOCK_MONOTONIC, &t1);
                } while ((round && !close_look) || (t1.tv_sec - t0.tv_sec) * 1000000LL + (t1.tv_nsec - t0.tv_nsec) / 1000 < pause);
                if (ended) break;
                kill(p, SIGSTOP);
                if (wait4(p, &st, WUNTRACED, &u) != p) harness_error("wait4");
                if (!WIFSTOPPED(st)) break; // it had ended
                uint64_t len;
                int what = look("stopped", &len);
                double c = cpu_of(p);
                if (what && changed_at < 0) changed_at = c;
                points++;
                ctr(what == 0 ? "stops_before_the_output_changed" : what == 1 ? "stops_with_a_partial_output" : "stops_with_the_whole_output")++;
                if (what == 1) partial++, ctr_max("max_partial_length", len);
                kill(p, SIGCONT);
                if (stops % 8 == 7) grain *= 2;
                if (stops >= 25) { wait4(p, &st, 0, &u); break; }
            }
            if (!WIFEXITED(st) || WEXITSTATUS(st)) violation("crash-resumed", "a transform that was stopped and resumed ended with status %#x (n=%zu)", st, n);
            uint64_t len;
            if (look("at the end", &len) != 2) violation("crash-end", "the output is not complete after the call (n=%zu, %llu bytes)", n, (unsigned long long)len);
            double total = u.ru_utime.tv_sec + u.ru_stime.tv_sec + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) * 1e-6;
            if (changed_at >= 0 && total > 0.4)
            {
                ctr("transforms_with_timed_outputs")++;
                ctr_max("max_percent_of_time_left_when_output_changed", (uint64_t)(100 * (total - changed_at) / total));
                if (total - changed_at > total / 2)
                    violation("crash-early", "the output path was changed when %.2f of %.2f s of the work were still to be done (n=%zu, kind of output %d)", total - changed_at, total, n, mode);
            }
        }
        // killed at exact offsets
        size_t L[12];
        int m = 0;
        for (size_t x : {(size_t)1, (size_t)7, (size_t)8, (size_t)9, (size_t)4096, n + 7, n / 2 + 8, (size_t)r.range(1, n + 7), (size_t)r.range(1, n + 7)}) if (x >= 1 && x < n + 8 && (n < 200000 || r.chance(n < 1500000 ? 3 : 1, 8))) L[m++] = x;
        for (int i = 0; i < m; i++)
        {
            prepare(mode, r);
            pid_t p = start(L[i]);
            int st;
            if (waitpid(p, &st, 0) != p) harness_error("waitpid");
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) violation("crash-limit", "output of %zu bytes was written under a limit of %zu", n + 8, L[i]);
            uint64_t len;
            int what = look("killed by the file size limit", &len);
            COUNT("killed_while_writing", WIFSIGNALED(st) && what == 1);
            points++;
            if (what == 1) partial++, ctr_max("max_partial_length", len);
        }
    }
    ctr("partial_outputs") += partial;
    ctr("moments_observed") += points;
    evaluated(hash_bytes(t_in.data(), n), n > 2);
    if (n > 100000 || st_eval % 31 == 5) sample("%s -> n=%zu looked at at %llu moments, output partial at %llu", spec, n, (unsigned long long)points, (unsigned long long)partial);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    snprintf(d_dir, sizeof d_dir, "%s/crash", g_tmp);
    mkdir(d_dir, 0700);
    snprintf(p_in, sizeof p_in, "%s/in", d_dir);
    snprintf(p_out, sizeof p_out, "%s/out", d_dir);
    drive(crash);
    print_stats();
    return 0;
}
