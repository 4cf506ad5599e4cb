// C27: the output goes to the file the path names. Existing files keep their identity, links are
// followed, new files get the default permissions, and outputs that cannot seek are as good as files.
#include "api.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/wait.h>
static char p_in[600], p_dir[600];
static void put(const char *p, const uint8_t *d, size_t n, mode_t m = 0644)
{
    int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, m);
    size_t o = 0;
    while (fd >= 0 && o < n) { ssize_t k = write(fd, d + o, n - o); if (k <= 0) break; o += (size_t)k; }
    if (fd < 0 || o < n || close(fd)) harness_error("cannot write %s", p);
}
static Bytes slurp_fd(int fd, uint64_t seed)
{
    Bytes b;
    uint8_t buf[70000];
    Rng r(seed);
    for (;;)
    {
        size_t want = seed == 0 ? sizeof buf : r.chance(1, 3) ? 1 + r.below(16) : 1 + r.below(9000);
        ssize_t k = read(fd, buf, want);
        if (k <= 0) break;
        b.insert(b.end(), buf, buf + k);
        if (seed && r.chance(1, 40)) usleep((useconds_t)r.below(300));
    }
    return b;
}
static Bytes slurp(const char *p)
{
    Bytes b;
    int fd = open(p, O_RDONLY);
    if (fd < 0) return b;
    b = slurp_fd(fd, 0);
    close(fd);
    return b;
}
static const char *judge(const Bytes &t, const Bytes &f)
{
    uint64_t n = t.size(), last = 0;
    if (f.size() != n + 8) return f.size() < n + 8 ? "too few bytes" : "too many bytes";
    for (int i = 0; i < 8; i++) last = last << 8 | f[i];
    if (last > n) return "header is not a valid terminator row";
    Bytes B(n + 1, 0);
    for (uint64_t i = 0; i < n; i++) B[i < last ? i : i + 1] = f[8 + i];
    return verify_bwt(t.data(), n, B.data(), last);
}
struct Reader { const char *path; int fd; uint64_t seed, stop; Bytes got; };
static void *reader(void *v)
{
    Reader *r = (Reader *)v;
    int fd = r->fd >= 0 ? r->fd : open(r->path, O_RDONLY);
    if (r->stop)
    { // goes away early
        uint8_t b[4096];
        ssize_t k = read(fd, b, r->stop < sizeof b ? r->stop : sizeof b);
        (void)k;
    }
    else r->got = slurp_fd(fd, r->seed);
    close(fd);
    return NULL;
}
static bool transform(const char *in, const char *out)
{
    try { flbwt::bwt_file(in, out); }
    catch (...) { return false; }
    return true;
}
static char W[200], p_long[201];
static const char *name(const char *k, uint64_t n)
{
    snprintf(W, sizeof W, "%s (n=%llu)", k, (unsigned long long)n);
    return W;
}
static void same_identity(const char *what, const struct stat &a, const char *path, bool mode = true)
{
    struct stat b;
    if (stat(path, &b)) violation("identity", "%s: the output is gone", what);
    if (a.st_ino != b.st_ino || a.st_dev != b.st_dev) violation("identity", "%s: the output is another file than before", what);
    if (a.st_nlink != b.st_nlink) violation("identity", "%s: the number of links changed from %lu to %lu", what, (unsigned long)a.st_nlink, (unsigned long)b.st_nlink);
    if (mode && a.st_mode != b.st_mode) violation("identity", "%s: permissions changed from %o to %o", what, a.st_mode, b.st_mode);
    if (a.st_uid != b.st_uid || a.st_gid != b.st_gid) violation("identity", "%s: the owner changed", what);
    ctr("identities_compared")++;
}
static void content(const char *what, const Bytes &t, const char *path)
{
    Bytes b = slurp(path);
    const char *e = judge(t, b);
    if (e) violation("content", "%s: %s", what, e);
    ctr("contents_checked")++;
}
static void outs(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    uint64_t n = t.size();
    Rng r(hash_bytes(t.data(), n));
    put(p_in, t.data(), n);
    char a[700], b[700], c[700];
    struct stat s, q;
    snprintf(a, sizeof a, "%s/a", p_dir);
    snprintf(b, sizeof b, "%s/b", p_dir);
    snprintf(c, sizeof c, "%s/c", p_dir);
    auto clean = [&]() { chmod(p_dir, 0755); unlink(a); unlink(b); unlink(c); };
    // a new file has the default permissions
    static const mode_t MASK[] = {022, 077, 0, 027, 0137};
    for (mode_t m : {MASK[r.below(5)], MASK[r.below(5)]})
    {
        clean();
        mode_t o = umask(m);
        bool ok = transform(p_in, a);
        umask(o);
        const char *w = name("new output", n);
        if (!ok) violation("exception", "%s: threw", w);
        if (stat(a, &s)) violation("content", "%s: no file", w);
        if ((s.st_mode & 07777) != (0666 & ~m)) violation("permissions", "%s: permissions are %o under umask %o", w, s.st_mode & 07777, m);
        if (s.st_nlink != 1 || !S_ISREG(s.st_mode)) violation("identity", "%s: not a plain file with one link", w);
        chmod(a, 0600);
        content(w, t, a);
        ctr("new_files")++;
    }
    // an existing one keeps what it has, also where its directory or its own content may not be read or changed
    static const mode_t MODE[] = {0600, 0644, 0755, 0666, 0200, 0222, 0640};
    for (int k = 0; k < 3; k++)
    {
        clean();
        put(a, t.data(), r.below(n + 1));
        mode_t m = MODE[r.below(7)];
        chmod(a, m);
        stat(a, &s);
        bool rd = r.chance(1, 2);
        if (rd) chmod(p_dir, 0555);
        bool ok = transform(p_in, a);
        chmod(p_dir, 0755);
        const char *w = name(rd ? "existing output in a directory that may not be changed" : "existing output", n);
        if (!ok) violation("exception", "%s: threw (permissions %o)", w, m);
        same_identity(w, s, a);
        chmod(a, 0600);
        content(w, t, a);
        COUNT("outputs_in_read_only_directories", rd && geteuid() != 0);
        COUNT("write_only_outputs", !(m & 0400) && geteuid() != 0);
    }
    { // another hard link shows the result as well
        clean();
        put(a, t.data(), 1);
        if (link(a, b)) harness_error("link");
        stat(a, &s);
        const char *w = name("output with a second hard link", n);
        if (!transform(p_in, b)) violation("exception", "%s: threw", w);
        same_identity(w, s, a);
        same_identity(w, s, b);
        content(w, t, a);
    }
    for (int there = 0; there < 2; there++)
    { // a chain of symbolic links, to an existing or to a new file
        clean();
        if (there) put(a, t.data(), 1);
        if (symlink("a", b) || symlink(b, c)) harness_error("symlink");
        if (there) stat(a, &s);
        const char *w = name(there ? "output through symbolic links" : "new output through dangling symbolic links", n);
        if (!transform(p_in, c)) violation("exception", "%s: threw", w);
        if (lstat(b, &q) || !S_ISLNK(q.st_mode) || lstat(c, &q) || !S_ISLNK(q.st_mode)) violation("identity", "%s: a link was replaced", w);
        if (there) same_identity(w, s, a);
        content(w, t, a);
        ctr("symbolic_links")++;
    }
    // outputs that cannot seek
    for (int k = 0; k < 3; k++)
    {
        clean();
        Reader R = {a, -1, r.next() | 1, 0, Bytes()};
        char path[100];
        pthread_t th;
        int fd[2] = {-1, -1};
        if (k == 0) { if (mkfifo(a, 0600)) harness_error("mkfifo"); }
        else { if (pipe(fd)) harness_error("pipe"); R.fd = fd[0]; }
        snprintf(path, sizeof path, k == 1 ? "/dev/fd/%d" : "/proc/self/fd/%d", fd[1]);
        if (pthread_create(&th, NULL, reader, &R)) harness_error("pthread_create");
        bool ok = transform(p_in, k == 0 ? a : path);
        if (k) close(fd[1]);
        else if (!ok) { int x = open(a, O_WRONLY | O_NONBLOCK); if (x >= 0) close(x); } // let the reader go
        pthread_join(th, NULL);
        const char *w = name(k == 0 ? "FIFO" : "pipe", n);
        if (!ok) violation("exception", "%s: threw", w);
        const char *e = judge(t, R.got);
        if (e) violation("content", "%s: %s (%zu bytes read)", w, e, R.got.size());
        if (k == 0 && (stat(a, &q) || !S_ISFIFO(q.st_mode))) violation("identity", "%s: was replaced", w);
        ctr(k ? "pipes" : "fifos")++;
    }
    if (n > 70000)
    { // a reader that goes away before everything is written
        int fd[2];
        char path[100];
        if (pipe(fd)) harness_error("pipe");
        Reader R = {NULL, fd[0], 1, 1 + r.below(4000), Bytes()};
        pthread_t th;
        if (pthread_create(&th, NULL, reader, &R)) harness_error("pthread_create");
        snprintf(path, sizeof path, "/dev/fd/%d", fd[1]);
        bool ok = transform(p_in, path);
        close(fd[1]);
        pthread_join(th, NULL);
        if (ok) violation("unreported", "%s: the reader went away, but the call returned normally", name("pipe", n));
        ctr("readers_that_went_away")++;
    }
    if (!transform(p_in, "/dev/null")) violation("exception", "%s: threw", name("/dev/null", n));
    if (stat("/dev/null", &q) || !S_ISCHR(q.st_mode)) violation("identity", "%s: was replaced", name("/dev/null", n));
    { // relative to the working directory
        clean();
        if (chdir(p_dir)) harness_error("chdir");
        const char *w = name("relative path", n);
        if (!transform("../in", "./a")) violation("exception", "%s: threw", w);
        content(w, t, a);
        if (!transform(p_in, "b")) violation("exception", "%s: threw", w);
        content(w, t, b);
        ctr("relative_paths") += 2;
    }
    { // paths of any characters and length
        clean();
        static const char *ODD[] = {"%s%n%d%x%p", " ", "-", "-o", "a b\tc\nd", "'\"`$(x);&|<>*?[]{}~#!\\", "\xff\xfe\x80", "..a", "...", "out.bwt", ".hidden", "C:\\x", "\xe2\x82\xac", NULL};
        for (int k = 0; k < 4; k++)
        {
            char in[4200], out[4200];
            bool both = k == 3 && r.chance(1, 2);
            for (int side = 0; side < 2; side++)
            {
                char *to = side ? out : in;
                if (k < 2) snprintf(to, sizeof in, r.chance(1, 2) ? "%s/%d%s" : "%s/deep/../deep/.//%d%s", p_dir, side, ODD[r.below(sizeof ODD / sizeof *ODD - 1)]);
                else
                { // a long one: any length up to the longest that the system takes
                    static const unsigned LEN[] = {255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095};
                    size_t want = r.chance(1, 2) ? LEN[r.below(11)] : strlen(p_dir) + 10 + r.below(4085 - strlen(p_dir)), at;
                    at = (size_t)snprintf(to, sizeof in, "%s/", p_dir);
                    if (want < at + 5) want = at + 5;
                    while (want - at > 220) { memcpy(to + at, p_long, 200); at += 200; }
                    while (at < want) to[at++] = side ? 'o' : 'i';
                    to[at] = 0;
                    ctr_max("max_path_length", at);
                }
            }
            put(in, t.data(), n);
            unlink(out);
            const char *w = name(k < 2 ? "odd path" : "long path", n);
            if (both)
            {
                if (!transform(in, in)) violation("exception", "%s: threw (%s)", w, in);
                content(w, t, in);
            }
            else
            {
                if (!transform(in, out)) violation("exception", "%s: threw (%s to %s)", w, in, out);
                content(w, t, out);
                unlink(out);
            }
            unlink(in);
            ctr(k < 2 ? "odd_paths" : "long_paths")++;
        }
        for (DIR *d = opendir(p_dir); d;)
        { // and no other file appeared
            struct dirent *e = readdir(d);
            if (!e) { closedir(d); break; }
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && strcmp(e->d_name, "deep") && e->d_name[0] != 'L') violation("identity", "%s: unexpected file %s", name("odd path", n), e->d_name);
        }
    }
    clean();
    Lms l(t);
    note_features(t, l);
    evaluated(hash_bytes(t.data(), n), n > 1);
    if (st_eval % 29 == 3) sample("%s -> n=%llu: 13 kinds of outputs", spec, (unsigned long long)n);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    signal(SIGPIPE, SIG_IGN);
    char root[500];
    if (g_tmp[0] == '/') snprintf(root, sizeof root, "%s", g_tmp);
    else harness_error("--tmp must be absolute");
    snprintf(p_in, sizeof p_in, "%s/in", root);
    snprintf(p_dir, sizeof p_dir, "%s/d", root);
    mkdir(p_dir, 0755);
    memset(p_long, 'L', 199);
    p_long[199] = '/';
    {
        char b[4300];
        size_t at = (size_t)snprintf(b, sizeof b, "%s/", p_dir);
        for (int i = 0; i < 20 && at + 200 < 4090; i++)
        {
            memcpy(b + at, p_long, 199);
            at += 199;
            b[at] = 0;
            if (mkdir(b, 0777) || chmod(b, 0777)) harness_error("mkdir");
            b[at++] = '/';
        }
        snprintf(b, sizeof b, "%s/deep", p_dir);
        if (mkdir(b, 0777) || chmod(b, 0777)) harness_error("mkdir");
    }
    if (geteuid() == 0)
    { // permissions mean nothing to root: go on as nobody, inside this scratch directory only
        if (chown(root, 65534, 65534) || chown(p_dir, 65534, 65534)) harness_error("chown");
        if (setgid(65534) || setuid(65534)) harness_error("setuid");
    }
    if (access(root, W_OK)) harness_error("scratch directory is not accessible after dropping privileges");
    if (!strcmp(g_mode, "outs")) drive(outs);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
