// C02: the file stage of bwt_file on its own. The transform is replaced by a stand-in (the library is
// built as position-independent code and its bwt_string is a weak symbol here) which returns a prepared
// result: any terminator row of an input of up to 2^34 bytes, in memory that was never touched. The
// output goes to a FIFO and is compared byte for byte.
// spec: d,n=<length>,last=<row>,seed=<marks>
#include "api.hpp"
#include <pthread.h>
#include <errno.h>
#include <new>

static uint8_t *map_p;
static uint64_t map_len, cur_n, cur_last;
static bool called, n_wrong;
static std::vector<uint64_t> *marks; // rows with a byte other than 0, ascending

void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
static void drop(void *p)
{
    if (p && p == map_p) { munmap(map_p, map_len); map_p = NULL; }
    else free(p);
}
void operator delete[](void *p) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }

static uint8_t mark_of(uint64_t row) { return (uint8_t)(1 + row * 0x9e3779b97f4a7c15ULL % 255); }

// stand-in for the transform
flbwt::BWT_result *flbwt::bwt_string(uint8_t *T, const uint64_t n, bool free_T)
{
    called = true;
    if (n != cur_n) n_wrong = true;
    if (free_T) free(T);
    map_len = n + 1;
    map_p = (uint8_t *)mmap(NULL, map_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (map_p == MAP_FAILED) harness_error("mmap of the result failed");
    for (size_t i = 0; i < marks->size(); i++) map_p[(*marks)[i]] = mark_of((*marks)[i]);
    map_p[cur_last] = 0xee; // unspecified: must not be written
    flbwt::BWT_result *r = (flbwt::BWT_result *)malloc(sizeof *r);
    r->BWT = map_p;
    r->last = cur_last;
    return r;
}

struct Reader
{
    int fd;
    uint8_t head[8];
    unsigned nhead;
    uint64_t got, n, last;
    size_t mi;
    bool bad;
    uint64_t bad_at;
};
static void *reader(void *v)
{
    Reader *R = (Reader *)v;
    const size_t B = 1 << 20;
    uint8_t *buf = (uint8_t *)malloc(B), *zero = (uint8_t *)calloc(1, B);
    for (;;)
    {
        ssize_t k = read(R->fd, buf, B);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        uint8_t *p = buf;
        while (k && R->nhead < 8) { R->head[R->nhead++] = *p++; k--; }
        if (!k) continue;
        // take the marks out, the rest must be zero
        uint64_t end = R->got + (uint64_t)k;
        for (; R->mi < marks->size(); R->mi++)
        {
            uint64_t row = (*marks)[R->mi], at = row < R->last ? row : row - 1;
            if (at >= end) break;
            uint8_t *q = p + (at - R->got);
            if (*q != mark_of(row) && !R->bad) { R->bad = true; R->bad_at = at; }
            *q = 0;
        }
        if (memcmp(p, zero, (size_t)k) && !R->bad) { R->bad = true; R->bad_at = R->got; }
        R->got = end;
    }
    free(buf);
    free(zero);
    return NULL;
}
static bool run(uint64_t n, uint64_t last, uint64_t seed)
{
    char in[600], out[600];
    snprintf(in, sizeof in, "%s/in", g_tmp);
    snprintf(out, sizeof out, "%s/out", g_tmp);
    unlink(in);
    unlink(out);
    int fd = open(in, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, (off_t)n)) harness_error("cannot make the input file");
    close(fd);
    if (mkfifo(out, 0600)) harness_error("mkfifo");
    cur_n = n;
    cur_last = last;
    called = n_wrong = false;
    Rng r(seed);
    std::vector<uint64_t> m;
    uint64_t near[] = {0, 1, last - 1, last + 1, last + 2, n, n - 1, 4087, 4088, 4095, 4096};
    for (size_t i = 0; i < sizeof near / sizeof near[0]; i++) m.push_back(near[i]);
    for (int i = 0; i < 50; i++) m.push_back(r.below(n + 1));
    std::sort(m.begin(), m.end());
    m.erase(std::unique(m.begin(), m.end()), m.end());
    std::vector<uint64_t> ok;
    for (size_t i = 0; i < m.size(); i++) if (m[i] <= n && m[i] != last) ok.push_back(m[i]);
    marks = &ok;
    Reader R;
    memset(&R, 0, sizeof R);
    R.n = n;
    R.last = last;
    R.fd = open(out, O_RDONLY | O_NONBLOCK);
    int keep = open(out, O_WRONLY);
    if (R.fd < 0 || keep < 0) harness_error("opening the fifo");
    fcntl(R.fd, F_SETFL, 0);
    fcntl(keep, F_SETPIPE_SZ, 1 << 20);
    pthread_t th;
    pthread_create(&th, NULL, reader, &R);
    bool threw = false;
    try { flbwt::bwt_file(in, out); } catch (...) { threw = true; }
    close(keep);
    pthread_join(th, NULL);
    close(R.fd);
    unlink(in);
    unlink(out);
    if (!called) return false;
    if (threw) violation("hdr-exception", "bwt_file threw although the transform succeeded (n=%llu, terminator row %llu)", (unsigned long long)n, (unsigned long long)last);
    if (n_wrong) violation("hdr-input-length", "the transform was given another length than that of the file (n=%llu)", (unsigned long long)n);
    if (R.nhead != 8 || R.got != n) violation("hdr-length", "output has %llu bytes, should have %llu (terminator row %llu)", (unsigned long long)(R.nhead + R.got), (unsigned long long)n + 8, (unsigned long long)last);
    uint64_t h = 0;
    for (int i = 0; i < 8; i++) h = h << 8 | R.head[i];
    if (h != last) violation("hdr-rank", "header says %llu, the terminator row is %llu (n=%llu)", (unsigned long long)h, (unsigned long long)last, (unsigned long long)n);
    if (R.bad) violation("hdr-body", "output differs from the rows near byte %llu (n=%llu, terminator row %llu)", (unsigned long long)R.bad_at + 8, (unsigned long long)n, (unsigned long long)last);
    if (map_p) { munmap(map_p, map_len); map_p = NULL; }
    return true;
}
static void hdr(const char *spec)
{
    Spec s(spec);
    static int works = -1; // is the stand-in really used?
    if (works < 0) works = run(100, 50, 1);
    uint64_t n = s.num("n", 100), last = s.num("last", 0), seed = s.num("seed", 1);
    if (!works) { ctr("stand_in_not_used")++; evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), false); return; }
    if (s.num("many", 0))
    {
        Rng r(seed);
        for (uint64_t i = 0, k = s.num("many", 0); i < k; i++)
        {
            uint64_t nn = 1 + r.below(n), ll = r.chance(1, 4) ? nn : r.chance(1, 4) ? 1 : 1 + r.below(nn);
            run(nn, ll, r.next());
            ctr("prepared_results_written")++;
        }
    }
    else
    {
        run(n, last, seed);
        ctr("prepared_results_written")++;
        COUNT("prepared_rows_over_2^32", last >> 32);
        COUNT("prepared_rows_over_2^33", last >> 33);
        sample("%s -> header and %llu bytes as prepared", spec, (unsigned long long)n);
    }
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), true);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    signal(SIGPIPE, SIG_IGN);
    if (!strcmp(g_mode, "hdr")) drive(hdr);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
