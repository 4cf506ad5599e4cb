// C10: inputs beyond 2^31 and 2^32 bytes, given as a few runs (or a short repeated block), with
// an oracle that decodes the result run by run instead of row by row.
// spec: b,r=<byte>.<length>_<byte>.<length>...,how=str|free|file     runs of bytes
//       ...,wk=<bits>: stored positions rebased to that many bits
//       b,per=<hex>,n=...,how=str                                     repeated block (mapped memory)
#include "width.hpp"
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <errno.h>

struct Run { uint8_t c; uint64_t len; };
typedef std::vector<Run> Runs;
static void add(Runs &r, uint8_t c, uint64_t len)
{
    if (!len) return;
    if (!r.empty() && r.back().c == c) r.back().len += len;
    else { Run x = {c, len}; r.push_back(x); }
}
static uint64_t total(const Runs &r) { uint64_t n = 0; for (size_t i = 0; i < r.size(); i++) n += r[i].len; return n; }

// run-length encodes a stream of bytes
struct Rle
{
    Runs r;
    uint64_t n;
    bool too_many;
    Rle() : n(0), too_many(false) {}
    void feed(const uint8_t *p, uint64_t k)
    {
        n += k;
        uint64_t i = 0;
        while (i < k && !too_many)
        {
            uint8_t c = p[i];
            uint64_t j = i + 1, pat = 0x0101010101010101ULL * c;
            while (j < k && (j & 7) && p[j] == c) j++;
            if (!(j & 7) && ((uintptr_t)p & 7) == 0)
                while (j + 8 <= k && *(const uint64_t *)(p + j) == pat) j += 8;
            while (j < k && p[j] == c) j++;
            add(r, c, j - i);
            i = j;
            if (r.size() > 4000000) too_many = true;
        }
    }
};
// Does the transform given as runs (`before`: rows 0..last-1, `after`: rows last+1..n) decode to T?
struct Decoder
{
    struct R { uint64_t start, len, lf; uint8_t c; };
    std::vector<R> rows;
    std::vector<uint64_t> starts;
    uint64_t n, last;
    Decoder(const Runs &a, const Runs &b, uint64_t n_, uint64_t last_) : n(n_), last(last_)
    {
        uint64_t cnt[256];
        memset(cnt, 0, sizeof cnt);
        for (size_t i = 0; i < a.size(); i++) cnt[a[i].c] += a[i].len;
        for (size_t i = 0; i < b.size(); i++) cnt[b[i].c] += b[i].len;
        uint64_t pos[256], s = 1;
        for (int c = 0; c < 256; c++) { pos[c] = s; s += cnt[c]; }
        uint64_t at = 0;
        for (int k = 0; k < 2; k++)
        {
            const Runs &x = k ? b : a;
            for (size_t i = 0; i < x.size(); i++)
            {
                R r = {at, x[i].len, pos[x[i].c], x[i].c};
                pos[x[i].c] += x[i].len;
                rows.push_back(r);
                starts.push_back(at);
                at += x[i].len;
            }
            if (!k) at++; // the terminator row
        }
    }
    const char *check(const Runs &t, uint64_t *where)
    {
        uint64_t row = 0, k = n, steps = 0;
        for (size_t i = t.size(); i-- > 0;)
        {
            uint64_t left = t[i].len;
            while (left)
            {
                *where = k - 1;
                if (row == last) return "decoding reaches the terminator too early";
                const R &r = rows[(size_t)(std::upper_bound(starts.begin(), starts.end(), row) - starts.begin()) - 1];
                if (row - r.start >= r.len) return "row out of range";
                if (r.c != t[i].c) return "decoded byte differs from the input";
                uint64_t nx = r.lf + (row - r.start), s = 1;
                if (nx == row) return "a row leads to itself";
                if (nx > row) { uint64_t d = nx - row, in = (r.start + r.len - 1 - row) / d; s = in + 1; }
                else { uint64_t d = row - nx, in = (row - r.start) / d; s = in + 1; }
                if (s > left) s = left;
                // the first s-1 steps stay inside this run, the s-th leaves from inside it
                row = nx > row ? row + s * (nx - row) : row - s * (row - nx);
                left -= s;
                k -= s;
                steps++;
            }
        }
        ctr("decoding_jumps") += steps;
        return row == last ? NULL : "decoding does not end at the terminator row";
    }
};
// ---------------------------------------------------------------- output file as a stream
struct Reader
{
    int fd;
    uint8_t head[8];
    unsigned nhead;
    uint64_t last, n, got;
    Rle a, b;
};
static void *reader(void *v)
{
    Reader *R = (Reader *)v;
    static uint8_t buf[1 << 20] __attribute__((aligned(64)));
    for (;;)
    {
        ssize_t k = read(R->fd, buf, sizeof buf);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        const uint8_t *p = buf;
        while (k && R->nhead < 8)
        {
            R->head[R->nhead++] = *p++;
            k--;
            if (R->nhead == 8) for (int i = 0; i < 8; i++) R->last = R->last << 8 | R->head[i];
        }
        if (!k) continue;
        uint64_t m = (uint64_t)k, first = R->got < R->last ? std::min(m, R->last - R->got) : 0;
        R->a.feed(p, first);
        R->b.feed(p + first, m - first);
        R->got += m;
    }
    return NULL;
}
static void judge(const Runs &t, uint64_t n, const Rle &a, const Rle &b, uint64_t last)
{
    if (a.too_many || b.too_many) violation("big-mismatch", "the transform has more than four million runs, the input has %zu (n=%llu)", t.size(), (unsigned long long)n);
    Decoder d(a.r, b.r, n, last);
    uint64_t where = 0;
    const char *e = d.check(t, &where);
    if (e) violation("big-mismatch", "%s, at input position %llu (n=%llu, terminator row %llu)", e, (unsigned long long)where, (unsigned long long)n, (unsigned long long)last);
}
static void features(const Runs &t, uint64_t n, uint64_t last)
{
    // S*-substrings of a run-structured string, by run
    uint64_t num = 0, mx = 0, at = 0, prev = 0, head = n;
    bool have = false;
    for (size_t i = 0; i < t.size(); i++)
    {
        bool s = i + 1 < t.size() && t[i].c < t[i + 1].c;
        if (i && s && t[i - 1].c > t[i].c)
        {
            if (!have) { head = at; have = true; }
            else mx = std::max(mx, at - prev + 1);
            num++;
            prev = at;
        }
        at += t[i].len;
    }
    if (have) mx = std::max(mx, n - prev + 1);
    COUNT("inputs_over_2^31", n >> 31);
    COUNT("inputs_over_2^32", n >> 32);
    COUNT("substrings_over_2^31", mx >> 31);
    COUNT("substrings_over_2^32", mx >> 32);
    COUNT("heads_over_2^32", head >> 32);
    COUNT("terminator_rows_over_2^32", last >> 32);
    COUNT("counts_of_substrings_over_2^31", num >> 31);
    ctr_max("max_n", n);
    ctr_max("max_substring", mx);
    ctr("s_star_positions") += num;
    sample("%s -> n=%llu S*=%llu longest=%llu row=%llu decodes to the input", g_status->spec, (unsigned long long)n, (unsigned long long)num, (unsigned long long)mx, (unsigned long long)last);
}
static void run_case(const char *spec)
{
    Spec s(spec);
    char how[16];
    s.str("how", how, sizeof how);
    Runs t;
    // many short runs before (pre=) and after (post=) the given ones
    Rng rr(s.num("seed", 1));
    for (uint64_t i = 0, k = s.num("pre", 0); i < k; i++) add(t, (uint8_t)rr.below(rr.chance(1, 50) ? 256 : 4), rr.chance(1, 20) ? rr.range(1, 700) : rr.range(1, 3));
    const char *p = s.find("r");
    if (p)
        while (*p && *p != ',')
        {
            char *e;
            uint64_t c = strtoull(p, &e, 10), len = 1;
            if (*e == '.') len = strtoull(e + 1, &e, 10);
            add(t, (uint8_t)c, len);
            if (*e != '_') break;
            p = e + 1;
        }
    for (uint64_t i = 0, k = s.num("post", 0); i < k; i++) add(t, (uint8_t)rr.below(rr.chance(1, 50) ? 256 : 4), rr.chance(1, 20) ? rr.range(1, 700) : rr.range(1, 3));
    if (s.num("rnd", 0))
    { // small random run strings: exercises the oracle as well
        Rng r(s.num("rnd", 1));
        uint64_t k = r.range(1, 12), sg = r.range(1, 4), b = r.chance(1, 2) ? 0 : 252;
        for (uint64_t i = 0; i < k; i++) add(t, (uint8_t)(b + r.below(sg)), r.chance(1, 2) ? r.range(1, 4) : r.range(1, 700));
    }
    uint64_t n = total(t);
    if (!n) harness_error("bad spec %s", spec);
    w_target = w_parse(s);
    w_used = 0;
    uint64_t last;
    if (!strcmp(how, "file"))
    {
        char in[600], out[600];
        snprintf(in, sizeof in, "%s/in", g_tmp);
        snprintf(out, sizeof out, "%s/out", g_tmp);
        unlink(in);
        unlink(out);
        int fd = open(in, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, (off_t)n)) harness_error("cannot make the input file");
        uint64_t at = 0;
        std::vector<uint8_t> blk(1 << 20);
        for (size_t i = 0; i < t.size(); i++)
        {
            if (t[i].c)
            {
                memset(blk.data(), t[i].c, blk.size());
                for (uint64_t o = 0; o < t[i].len; o += blk.size())
                    if (pwrite(fd, blk.data(), std::min<uint64_t>(blk.size(), t[i].len - o), (off_t)(at + o)) < 0) harness_error("writing the input file");
            }
            at += t[i].len;
        }
        close(fd);
        if (mkfifo(out, 0600)) harness_error("mkfifo");
        Reader R;
        R.nhead = 0; R.last = R.got = 0;
        // opened for reading and writing so that the library's open does not block; the write
        // end is closed once the library is done, which ends the reader
        R.fd = open(out, O_RDONLY | O_NONBLOCK);
        int keep = open(out, O_WRONLY);
        if (R.fd < 0 || keep < 0) harness_error("opening the fifo");
        fcntl(R.fd, F_SETFL, 0);
        pthread_t th;
        pthread_create(&th, NULL, reader, &R);
        bool threw = false;
        try { flbwt::bwt_file(in, out); } catch (...) { threw = true; }
        close(keep);
        pthread_join(th, NULL);
        close(R.fd);
        unlink(in);
        unlink(out);
        if (threw) violation("big-exception", "bwt_file threw (n=%llu)", (unsigned long long)n);
        if (R.nhead != 8 || R.got != n) violation("big-length", "output has %llu bytes, should have %llu", (unsigned long long)(R.nhead + R.got), (unsigned long long)n + 8);
        last = R.last;
        if (last > n) violation("big-mismatch", "terminator row %llu out of range (n=%llu)", (unsigned long long)last, (unsigned long long)n);
        judge(t, n, R.a, R.b, last);
        ctr("files")++;
    }
    else
    {
        bool fr = !strcmp(how, "free");
        uint8_t *T;
        if (fr)
        {
            T = (uint8_t *)malloc(n + 1);
            if (!T) harness_error("no memory for the input");
        }
        else
        { // zero runs cost no memory here
            T = (uint8_t *)mmap(NULL, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (T == MAP_FAILED) harness_error("mmap of the input failed");
        }
        uint64_t at = 0;
        for (size_t i = 0; i < t.size(); i++)
        {
            if (t[i].c || fr) memset(T + at, t[i].c, t[i].len);
            at += t[i].len;
        }
        T[n] = 0;
        Outcome o = call_string(T, n, fr);
        if (o.threw) violation("big-exception", "bwt_string threw %s (n=%llu)", o.what, (unsigned long long)n);
        if (!o.r || !o.r->BWT) violation("big-null", "bwt_string returned nothing (n=%llu)", (unsigned long long)n);
        last = o.r->last;
        if (last > n) violation("big-mismatch", "terminator row %llu out of range (n=%llu)", (unsigned long long)last, (unsigned long long)n);
        Rle a, b;
        a.feed(o.r->BWT, last);
        b.feed(o.r->BWT + last + 1, n - last);
        release(o.r);
        if (!fr) munmap(T, n + 1);
        judge(t, n, a, b, last);
        ctr("strings")++;
    }
    if (w_used && n >> 32)
    {
        char nm[64];
        snprintf(nm, sizeof nm, "inputs_over_2^32_with_%dbit_values", w_width(w_used));
        ctr(nm)++;
    }
    features(t, n, last);
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), true);
}
// a short block repeated over a mapped range: more than 2^31 S*-substrings in little memory
static void per(const char *spec)
{
    Spec s(spec);
    uint64_t n = s.num("n", 1000);
    // period "ab", so that the transform is known in closed form: n even, T = (ab)^(n/2)
    n &= ~1ULL;
    uint64_t piece = 2u << 20, len = (n + 1 + piece - 1) / piece * piece;
    int fd = (int)syscall(SYS_memfd_create, "verif", 0);
    if (fd < 0 || ftruncate(fd, (off_t)piece)) harness_error("memfd");
    uint8_t *base = (uint8_t *)mmap(NULL, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) harness_error("mmap");
    for (uint64_t o = 0; o < len; o += piece)
        if (mmap(base + o, piece, PROT_READ | PROT_WRITE, (o + piece < len ? MAP_SHARED : MAP_PRIVATE) | MAP_FIXED, fd, 0) == MAP_FAILED) harness_error("mmap of a piece");
    // the last piece is private, written last; all others show the file
    {
        uint8_t *w = (uint8_t *)mmap(NULL, piece, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        for (uint64_t i = 0; i < piece; i++) w[i] = i & 1 ? 'b' : 'a';
        munmap(w, piece);
    }
    uint8_t *lastp = base + len - piece;
    for (uint64_t i = 0; i < piece; i++) lastp[i] = i & 1 ? 'b' : 'a';
    base[n] = 0;
    Outcome o = call_string(base, n, false);
    if (o.threw || !o.r) violation("big-exception", "bwt_string failed (n=%llu)", (unsigned long long)n);
    // rows: $, then "ab"-suffixes from short to long (preceded by b, the longest by nothing), then "b"-suffixes (preceded by a)
    uint64_t h = n / 2;
    if (o.r->last != h) violation("big-mismatch", "terminator row %llu, should be %llu", (unsigned long long)o.r->last, (unsigned long long)h);
    for (uint64_t i = 0; i <= n; i++)
        if (i != h && o.r->BWT[i] != (i < h ? 'b' : 'a')) violation("big-mismatch", "row %llu is %u (n=%llu)", (unsigned long long)i, o.r->BWT[i], (unsigned long long)n);
    release(o.r);
    COUNT("inputs_over_2^32", n >> 32);
    COUNT("counts_of_substrings_over_2^31", (h - 1) >> 31);
    ctr_max("max_n", n);
    sample("%s -> n=%llu S*=%llu equals the closed form", spec, (unsigned long long)n, (unsigned long long)h - 1);
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), true);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    w_install();
    if (!strcmp(g_mode, "big")) drive(run_case);
    else if (!strcmp(g_mode, "per")) drive(per);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
