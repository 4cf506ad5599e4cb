// Shared pieces of every harness: PRNG, case specs and their generators, reference
// oracles, status page (which case is running), verdict reporting and statistics.
// Written without std::string / iostream so that the same code runs under MSan with an
// uninstrumented libstdc++.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <vector>
#include <algorithm>
#include <utility>
#include <exception>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
// monitors for uninitialised values: MemorySanitizer, or memcheck in the builds made for it
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
static inline void check_initialised(const void *p, size_t n) { __msan_check_mem_is_initialized(p, n); }
#elif defined(VERIF_MEMCHECK)
#include <valgrind/memcheck.h>
#define MSAN 1
static inline void check_initialised(const void *p, size_t n) { (void)VALGRIND_CHECK_MEM_IS_DEFINED(p, n); }
#else
#define MSAN 0
#endif

typedef std::vector<uint8_t> Bytes;

// ------------------------------------------------------------------ PRNG
struct Rng
{
    uint64_t s[4];
    static uint64_t mix(uint64_t &x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed)
    {
        for (int i = 0; i < 4; i++) s[i] = mix(seed);
    }
    uint64_t next()
    {
        uint64_t r = ((s[1] * 5) << 7 | (s[1] * 5) >> 57) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
        s[3] = s[3] << 45 | s[3] >> 19;
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
};

static inline uint64_t hash_bytes(const uint8_t *p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ULL; h ^= h >> 29; }
    h ^= n; h *= 0x9e3779b97f4a7c15ULL;
    return h ^ (h >> 32);
}

// small open-addressing set of 64-bit values
struct U64Set
{
    std::vector<uint64_t> tab;
    size_t cnt;
    bool has0;
    U64Set() : tab(64, 0), cnt(0), has0(false) {}
    bool insert(uint64_t v)
    {
        if (v == 0) { bool r = !has0; has0 = true; cnt += r; return r; }
        if ((cnt + 1) * 2 > tab.size())
        {
            std::vector<uint64_t> o(tab.size() * 2, 0);
            o.swap(tab);
            for (size_t i = 0; i < o.size(); i++) if (o[i]) put(o[i]);
        }
        if (!put(v)) return false;
        cnt++;
        return true;
    }
    bool put(uint64_t v)
    {
        size_t m = tab.size() - 1, i = (v * 0x9e3779b97f4a7c15ULL >> 20) & m;
        while (tab[i]) { if (tab[i] == v) return false; i = (i + 1) & m; }
        tab[i] = v;
        return true;
    }
};

// ------------------------------------------------------------------ options / status / report
#define SPEC_MAX 4096
struct Status
{
    volatile uint64_t cases;
    char spec[SPEC_MAX];
};
static Status *g_status;
static const char *g_mode = "";
static uint64_t g_seed = 1, g_cases = 100, g_max = 0;
static int g_thorough = 0;
static const char *g_one = NULL;
static const char *g_tmp = "/tmp";
static long g_cpu_limit = 60; // CPU seconds for one case
static uint64_t g_part = 0, g_parts = 1;
static FILE *g_ids = NULL;   // file that receives the ids of the distinct non-trivial cases
static const char *g_out = NULL;   // extra output file of some modes
static const char *g_specs = NULL; // file with one spec per line (mode-dependent)

// statistics
static uint64_t st_eval, st_nontrivial;
static U64Set *st_distinct;
struct Counter { char name[48]; uint64_t v; };
static Counter st_ctr[128];
static int st_nctr;
static char st_samples[6][400];
static int st_nsamples;

static inline uint64_t &ctr(const char *name)
{
    for (int i = 0; i < st_nctr; i++) if (!strcmp(st_ctr[i].name, name)) return st_ctr[i].v;
    if (st_nctr >= 128) abort();
    snprintf(st_ctr[st_nctr].name, sizeof st_ctr[0].name, "%s", name);
    st_ctr[st_nctr].v = 0;
    return st_ctr[st_nctr++].v;
}
static inline void ctr_max(const char *name, uint64_t v) { uint64_t &c = ctr(name); if (v > c) c = v; }
#define COUNT(name, cond) do { if (cond) ctr(name)++; } while (0)

static inline void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static inline void sample(const char *fmt, ...)
{
    if (st_nsamples >= 6) return;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(st_samples[st_nsamples], sizeof st_samples[0], fmt, ap);
    va_end(ap);
    for (char *p = st_samples[st_nsamples]; *p; p++) if (*p == '"' || *p == '\\' || (unsigned char)*p < 32) *p = '_';
    st_nsamples++;
}
// one evaluated case: identity for distinctness, and whether the harness calls it non-trivial
static inline void evaluated(uint64_t id, bool nontrivial)
{
    st_eval++;
    if (nontrivial && st_distinct->insert(id)) st_nontrivial++;
}
static inline void print_stats()
{
    printf("STAT {\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"counters\": {",
           (unsigned long long)st_eval, (unsigned long long)st_nontrivial);
    for (int i = 0; i < st_nctr; i++)
        printf("%s\"%s\": %llu", i ? ", " : "", st_ctr[i].name, (unsigned long long)st_ctr[i].v);
    printf("}, \"samples\": [");
    for (int i = 0; i < st_nsamples; i++) printf("%s\"%s\"", i ? ", " : "", st_samples[i]);
    printf("]}\n");
    fflush(stdout);
    if (g_ids)
    {
        for (size_t i = 0; i < st_distinct->tab.size(); i++)
            if (st_distinct->tab[i]) fwrite(&st_distinct->tab[i], 8, 1, g_ids);
        fclose(g_ids);
    }
}
static inline void set_case(const char *spec)
{
    g_status->cases++;
    if (spec != g_status->spec) { strncpy(g_status->spec, spec, SPEC_MAX - 1); g_status->spec[SPEC_MAX - 1] = 0; }
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = g_cpu_limit;
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}
// a violation of the property under check: report and stop this worker (exit 3)
static void (*g_restore)() = NULL; // puts back standard streams that a harness has redirected
static void violation(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
static void violation(const char *key, const char *fmt, ...)
{
    char msg[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msg, sizeof msg, fmt, ap);
    va_end(ap);
    if (g_restore) g_restore();
    printf("VIOL key=%s spec=%s msg=%s\n", key, g_status->spec, msg);
    fflush(stdout);
    _exit(3);
}
// the harness itself cannot go on (never a verdict about the code): exit 2
static void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
static void harness_error(const char *fmt, ...)
{
    if (g_restore) g_restore();
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fprintf(stderr, "\n");
    _exit(2);
}
static void on_hang(int)
{
    if (g_restore) g_restore();
    static const char m[] = "HANG cpu limit for one case exceeded\n";
    ssize_t r = write(1, m, sizeof m - 1);
    (void)r;
    _exit(4);
}

// ------------------------------------------------------------------ case specs
// "family,key=val,key=val": a complete, replayable description of one input.
struct Spec
{
    char fam[24];
    const char *args;
    explicit Spec(const char *s)
    {
        const char *c = strchr(s, ',');
        size_t l = c ? (size_t)(c - s) : strlen(s);
        if (l >= sizeof fam) l = sizeof fam - 1;
        memcpy(fam, s, l);
        fam[l] = 0;
        args = c ? c + 1 : "";
    }
    const char *find(const char *key) const
    {
        size_t kl = strlen(key);
        const char *p = args;
        while (*p)
        {
            if (!strncmp(p, key, kl) && p[kl] == '=') return p + kl + 1;
            p = strchr(p, ',');
            if (!p) break;
            p++;
        }
        return NULL;
    }
    uint64_t num(const char *key, uint64_t def) const
    {
        const char *p = find(key);
        return p ? strtoull(p, NULL, 0) : def;
    }
    void str(const char *key, char *out, size_t cap) const
    {
        out[0] = 0;
        const char *p = find(key);
        if (!p) return;
        size_t i = 0;
        while (p[i] && p[i] != ',' && i + 1 < cap) { out[i] = p[i]; i++; }
        out[i] = 0;
    }
};

static const uint8_t ALPHA[][6] = {
    {'a', 'b', 'c', 'd', 'e', 'f'},
    {0, 1, 2, 3, 4, 5},
    {0, 255, 128, 1, 254, 127},
    {250, 251, 252, 253, 254, 255},
    {127, 128, 129, 126, 0, 255},
};
static const int NALPHA = 5;

// unimodal hill between two 'lo' bytes; appended as lo + (len-1) bytes: one LMS substring of
// exactly len bytes (its closing byte is the first byte of the next block)
static void put_hill(Bytes &o, uint8_t lo, uint64_t len, Rng &r, int width)
{
    o.push_back(lo);
    uint64_t body = len - 2;
    uint64_t up = r.below(body + 1);
    int top = lo + 1 + (int)r.below(width);
    if (top > 255) top = 255;
    size_t b = o.size();
    for (uint64_t i = 0; i < up; i++) o.push_back((uint8_t)r.range(lo + 1, top));
    std::sort(o.begin() + b, o.end());
    size_t m = o.size();
    for (uint64_t i = up; i < body; i++) o.push_back((uint8_t)r.range(lo + 1, top));
    std::sort(o.begin() + m, o.end());
    std::reverse(o.begin() + m, o.end());
}
static uint64_t poly_hash(const uint8_t *p, uint64_t m)
{
    uint64_t x = 0;
    for (uint64_t i = 0; i < m; i++) x = x * 101 + p[i];
    return x % 67777;
}
static uint64_t interesting_len(Rng &r)
{
    static const uint64_t L[] = {3, 4, 5, 255, 256, 257, 511, 512, 513, 500, 520, 767, 768, 769, 1023, 1024, 1025, 2048, 4096, 1280, 65535, 65536, 65537, 65792, 131072};
    if (r.chance(1, 2)) return r.range(3, 40);
    return L[r.below(r.chance(1, 3) ? sizeof L / sizeof L[0] : 20)];
}

static bool gen_spec(const char *text, Bytes &o);

static void gen_hex(const char *p, Bytes &o)
{
    for (; p[0] && p[1]; p += 2)
    {
        char t[3] = {p[0], p[1], 0};
        o.push_back((uint8_t)strtoul(t, NULL, 16));
    }
}
static bool gen_spec(const char *text, Bytes &o)
{
    Spec s(text);
    o.clear();
    uint64_t n = s.num("n", 10), seed = s.num("seed", 1);
    Rng r(seed * 0x51ed270b + n * 31 + 7);
    uint64_t sg = s.num("s", 4), b = s.num("b", 'a');
    if (sg < 1) sg = 1;
    if (b + sg > 256) b = 256 - sg;
    if (!strcmp(s.fam, "hex")) { char *h = (char *)malloc(SPEC_MAX); s.str("d", h, SPEC_MAX); gen_hex(h, o); free(h); }
    else if (!strcmp(s.fam, "enum"))
    {
        uint64_t a = s.num("a", 0) % NALPHA, l = s.num("l", 1), i = s.num("i", 0);
        for (uint64_t k = 0; k < l; k++) { o.push_back(ALPHA[a][i % sg]); i /= sg; }
    }
    else if (!strcmp(s.fam, "rle"))
    { // r=<byte>.<count>_<byte>.<count>...
        char *h = (char *)malloc(SPEC_MAX), *save = NULL;
        s.str("r", h, SPEC_MAX);
        for (char *q = strtok_r(h, "_", &save); q; q = strtok_r(NULL, "_", &save))
        {
            char *dot = strchr(q, '.');
            o.insert(o.end(), dot ? strtoull(dot + 1, NULL, 10) : 1, (uint8_t)strtoul(q, NULL, 10));
        }
        free(h);
    }
    else if (!strcmp(s.fam, "rand")) { for (uint64_t i = 0; i < n; i++) o.push_back((uint8_t)(b + r.below(sg))); }
    else if (!strcmp(s.fam, "alt"))
    { // low and high bytes in turn: all S*-substrings have three bytes (with few low bytes, their order in
      // the substring table is their byte order)
        uint64_t hi = s.num("hi", 90), lo = s.num("lo", 6);
        for (uint64_t i = 0; i < n; i++) o.push_back((uint8_t)(i & 1 ? b + lo + r.below(hi) : b + r.below(lo)));
    }
    else if (!strcmp(s.fam, "runs"))
    {
        uint64_t mx = s.num("r", 10);
        while (o.size() < n) { uint8_t c = (uint8_t)(b + r.below(sg)); uint64_t k = r.range(1, mx); while (k-- && o.size() < n) o.push_back(c); }
    }
    else if (!strcmp(s.fam, "per"))
    {
        uint64_t p = s.num("p", 3), m = s.num("m", 0);
        Bytes w;
        for (uint64_t i = 0; i < p; i++) w.push_back((uint8_t)(b + r.below(sg)));
        for (uint64_t i = 0; i < n; i++) o.push_back(w[i % p]);
        for (uint64_t i = 0; i < m && n; i++) { uint64_t at = r.below(n); o[at] = (uint8_t)(b + r.below(sg)); }
    }
    else if (!strcmp(s.fam, "fib"))
    {
        Bytes x(1, (uint8_t)b), y;
        y.push_back((uint8_t)b); y.push_back((uint8_t)(b + 1));
        while (y.size() < n) { Bytes t(y); t.insert(t.end(), x.begin(), x.end()); x.swap(y); y.swap(t); }
        o.assign(y.begin(), y.begin() + n);
    }
    else if (!strcmp(s.fam, "tm")) { for (uint64_t i = 0; i < n; i++) o.push_back((uint8_t)(b + __builtin_popcountll(i) % (sg < 2 ? 2 : sg))); }
    else if (!strcmp(s.fam, "mono"))
    {
        uint64_t d = s.num("d", 0);
        for (uint64_t i = 0; i < n; i++)
        {
            uint64_t v = sg * i / (n ? n : 1);
            o.push_back((uint8_t)(d == 0 ? b : d == 1 ? b + v : d == 2 ? b + sg - 1 - v : b + i % sg));
        }
    }
    else if (!strcmp(s.fam, "lms"))
    { // k blocks with LMS substrings of exactly chosen lengths; len=0: interesting lengths
        uint64_t k = s.num("k", 5), len = s.num("len", 0), dup = s.num("dup", 30), w = s.num("w", 8), nl = s.num("nl", 3), pre = s.num("pre", 0);
        uint8_t lo = (uint8_t)s.num("lo", 'a');
        std::vector<Bytes> pool;
        for (uint64_t i = 0; i < pre; i++) o.push_back((uint8_t)(lo + 1 + r.below(w)));
        for (uint64_t i = 0; i < k; i++)
        {
            if (!pool.empty() && r.chance(dup, 100))
            {
                Bytes &q = pool[r.below(pool.size())];
                o.insert(o.end(), q.begin(), q.end());
                continue;
            }
            Bytes blk;
            uint8_t l2 = (uint8_t)(lo + r.below(nl < 1 ? 1 : nl));
            put_hill(blk, l2, len ? len : interesting_len(r), r, (int)w);
            pool.push_back(blk);
            o.insert(o.end(), blk.begin(), blk.end());
        }
        if (s.num("end", 1)) o.push_back(lo);
    }
    else if (!strcmp(s.fam, "coll"))
    { // k distinct LMS substrings of one length that share a bucket of the 67777-entry table
        uint64_t k = s.num("k", 10), len = s.num("len", 8), nb = s.num("nb", 1), rep = s.num("rep", 1), w = s.num("w", 20), pre = s.num("pre", 0);
        if (len < 5) len = 5;
        std::vector<Bytes> blks;
        uint64_t tgt = r.below(67777), tries = 0;
        U64Set seen;
        while (blks.size() < k && tries < 40000000)
        {
            tries++;
            Bytes t;
            uint8_t lo = 'a';
            t.push_back(lo);
            uint64_t body = len - 2;
            for (uint64_t i = 0; i < body; i++) t.push_back((uint8_t)(lo + 1 + r.below(w)));
            size_t up = r.below(body + 1);
            std::sort(t.begin() + 1, t.begin() + 1 + up);
            std::sort(t.begin() + 1 + up, t.end());
            std::reverse(t.begin() + 1 + up, t.end());
            t.push_back(lo);
            if ((poly_hash(&t[0], len) + 67777 - tgt) % 67777 >= nb) continue;
            if (!seen.insert(hash_bytes(&t[0], len))) { continue; }
            t.pop_back();
            blks.push_back(t);
        }
        if (blks.empty()) blks.push_back(Bytes(5, 'b'));
        for (uint64_t i = 0; i < pre; i++) o.push_back((uint8_t)('b' + r.below(w)));
        for (uint64_t j = 0; j < rep; j++)
            for (size_t i = 0; i < blks.size(); i++)
            {
                Bytes &q = j ? blks[r.below(blks.size())] : blks[i];
                o.insert(o.end(), q.begin(), q.end());
            }
        o.push_back('a');
    }
    else if (!strcmp(s.fam, "text"))
    {
        uint64_t nw = s.num("w", 500);
        std::vector<Bytes> words;
        for (uint64_t i = 0; i < nw; i++) { Bytes t; uint64_t l = r.range(1, 12); while (l--) t.push_back((uint8_t)('a' + r.below(26))); words.push_back(t); }
        while (o.size() < n)
        {
            uint64_t x = r.below(nw), y = r.below(x + 1), z = r.below(y + 1);
            o.insert(o.end(), words[z].begin(), words[z].end());
            o.push_back(r.chance(1, 12) ? '\n' : ' ');
        }
        o.resize(n);
    }
    else if (!strcmp(s.fam, "morph"))
    { // iterate a random morphism: deep suffix-array recursion
        uint64_t k = s.num("k", 3);
        std::vector<Bytes> img(k);
        for (uint64_t i = 0; i < k; i++) { uint64_t l = r.range(1, 4); while (l--) img[i].push_back((uint8_t)r.below(k)); }
        if (img[0].size() < 2) img[0].push_back((uint8_t)(k - 1));
        img[0][0] = 0;
        Bytes cur(1, 0);
        for (int it = 0; it < 64 && cur.size() < n; it++)
        {
            Bytes nx;
            for (size_t i = 0; i < cur.size() && nx.size() < n; i++) nx.insert(nx.end(), img[cur[i]].begin(), img[cur[i]].end());
            if (nx.size() <= cur.size()) break;
            cur.swap(nx);
        }
        if (cur.empty()) cur.push_back(0);
        for (uint64_t i = 0; i < n; i++) o.push_back((uint8_t)(b + cur[i % cur.size()]));
    }
    else if (!strcmp(s.fam, "rep"))
    { // self-copies with edits (highly repetitive collections)
        uint64_t base = s.num("base", 50), ed = s.num("ed", 3);
        for (uint64_t i = 0; i < base && o.size() < n; i++) o.push_back((uint8_t)(b + r.below(sg)));
        while (o.size() < n)
        {
            uint64_t len = r.range(1, o.size()), off = r.below(o.size() - len + 1);
            size_t st = o.size();
            for (uint64_t i = 0; i < len && o.size() < n; i++) { uint8_t c = o[off + i]; o.push_back(c); }
            for (uint64_t e = 0; e < ed && o.size() > st; e++) if (r.chance(1, 2)) { uint64_t at = st + r.below(o.size() - st); o[at] = (uint8_t)(b + r.below(sg)); }
        }
    }
    else if (!strcmp(s.fam, "tree"))
    { // k LMS substrings that share p characters at the front and q at the end and differ between
        uint64_t k = s.num("k", 20), pl = s.num("p", 3), ql = s.num("q", 3), bits = s.num("bits", 8), v = s.num("v", 0), ord = s.num("ord", 0);
        uint64_t lo = s.num("lo", 10);
        if (bits > 60) bits = 60;
        if (lo > 100) lo = 100;
        uint8_t top = (uint8_t)(lo + 3 + 2 * bits);
        for (uint64_t j = 0; j < k; j++)
        {
            uint64_t x = ord == 0 ? j : ord == 1 ? k - 1 - j : r.next();
            o.push_back((uint8_t)lo);
            o.insert(o.end(), pl, (uint8_t)(lo + 1));
            if (v == 2) o.push_back(top);
            for (uint64_t i = 0; i < bits; i++)
            { // most significant bit first when ascending
                uint64_t at = v == 2 ? bits - 1 - i : i, bit = x >> (bits - 1 - i) & 1;
                if (v == 0) o.insert(o.end(), 1 + bit, (uint8_t)(lo + 2 + 2 * at));
                else o.push_back((uint8_t)(lo + 2 + 2 * at + bit));
            }
            if (v != 2) o.push_back(top);
            o.insert(o.end(), ql, (uint8_t)(lo + 1));
        }
        o.push_back((uint8_t)lo);
    }
    else if (!strcmp(s.fam, "file"))
    {
        char path[512];
        s.str("path", path, sizeof path);
        FILE *f = fopen(path, "rb");
        if (f)
        {
            fseek(f, (long)s.num("off", 0), SEEK_SET);
            o.resize(n);
            size_t k = fread(n ? &o[0] : NULL, 1, n, f);
            o.resize(k);
            fclose(f);
        }
        if (o.empty()) for (uint64_t i = 0; i < n; i++) o.push_back((uint8_t)r.below(256));
    }
    else if (!strcmp(s.fam, "mix"))
    { // concatenation of pieces of other families
        uint64_t k = s.num("k", 4);
        while (k-- && o.size() < n + 1)
        {
            uint64_t pn = 1 + r.below(n / 2 + 2), sd = r.below(1u << 30);
            unsigned sg2 = (unsigned)(1 + r.below(r.chance(1, 4) ? 256 : 5));
            unsigned b2 = (unsigned)r.below(257 - sg2);
            char t[256];
            // drawn one after the other: argument evaluation order differs between compilers
            unsigned kind = (unsigned)r.below(7), x1 = (unsigned)r.range(2, 300), x2 = (unsigned)r.range(1, 9), x3 = (unsigned)r.below(3), x4 = (unsigned)r.below(4),
                     x5 = (unsigned)r.below(250), x6 = (unsigned)r.range(1, 6), x7 = (unsigned)r.range(3, 30), x8 = (unsigned)r.range(1, 20);
            switch (kind)
            {
            case 0: snprintf(t, sizeof t, "rand,n=%llu,s=%u,b=%u,seed=%llu", (unsigned long long)pn, sg2, b2, (unsigned long long)sd); break;
            case 1: snprintf(t, sizeof t, "runs,n=%llu,s=%u,b=%u,r=%u,seed=%llu", (unsigned long long)pn, sg2, b2, x1, (unsigned long long)sd); break;
            case 2: snprintf(t, sizeof t, "per,n=%llu,s=%u,b=%u,p=%u,m=%u,seed=%llu", (unsigned long long)pn, sg2, b2, x2, x3, (unsigned long long)sd); break;
            case 3: snprintf(t, sizeof t, "mono,n=%llu,s=%u,b=%u,d=%u,seed=%llu", (unsigned long long)pn, sg2, b2, x4, (unsigned long long)sd); break;
            case 4: snprintf(t, sizeof t, "morph,n=%llu,k=3,b=%u,seed=%llu", (unsigned long long)pn, x5, (unsigned long long)sd); break;
            case 5: snprintf(t, sizeof t, "lms,k=%u,len=%u,dup=40,seed=%llu", x6, x7, (unsigned long long)sd); break;
            default: snprintf(t, sizeof t, "rep,n=%llu,s=%u,b=%u,base=%u,seed=%llu", (unsigned long long)pn, sg2, b2, x8, (unsigned long long)sd);
            }
            Bytes p;
            gen_spec(t, p);
            o.insert(o.end(), p.begin(), p.end());
        }
    }
    else return false;
    uint64_t tr = s.num("tr", 0);
    if (tr & 1) std::reverse(o.begin(), o.end());
    if (tr & 2) for (size_t i = 0; i < o.size(); i++) o[i] = (uint8_t)(255 - o[i]);
    if (o.empty()) o.push_back((uint8_t)b);
    return true;
}

// a random spec; maxn bounds the size of the sized families
static void random_spec(Rng &r, uint64_t maxn, char *out)
{
    uint64_t n;
    switch (r.below(6))
    {
    case 0: n = r.range(1, 12); break;
    case 1: case 2: n = r.range(1, 64); break;
    case 3: n = r.range(1, 600); break;
    default: n = r.range(1, maxn);
    }
    if (n > maxn) n = maxn;
    static const unsigned SG[] = {1, 2, 2, 2, 3, 3, 4, 5, 8, 26, 64, 255, 256, 256};
    unsigned sg = SG[r.below(14)];
    unsigned b;
    switch (r.below(4)) { case 0: b = 0; break; case 1: b = 256 - sg; break; case 2: b = sg <= 120 ? 'a' : 0; break; default: b = (unsigned)r.below(257 - sg); }
    unsigned tr = r.chance(1, 3) ? (unsigned)r.below(4) : 0;
    unsigned long long sd = r.below(1u << 30), N = n;
    // drawn one after the other: argument evaluation order differs between compilers
    unsigned kind = (unsigned)r.below(15), y1 = (unsigned)r.range(2, 20), y2 = (unsigned)r.range(2, 600), y3 = (unsigned)r.range(1, 12), y4 = (unsigned)r.range(1, 300),
             y5 = (unsigned)r.below(4), y6 = (unsigned)r.range(1, maxn > 20000 ? 40 : 6), y7 = (unsigned)r.below(90), y8 = (unsigned)r.range(1, 8), y9 = (unsigned)r.range(1, 3),
             z1 = (unsigned)r.below(3), z2 = (unsigned)r.below(2), z3 = (unsigned)r.below(600), z4 = (unsigned)r.below(3), z5 = (unsigned)r.range(1, 400), z6 = (unsigned)r.range(2, 6), z7 = (unsigned)r.range(1, 80);
    switch (kind)
    {
    case 0: case 1: snprintf(out, SPEC_MAX, "rand,n=%llu,s=%u,b=%u,seed=%llu", N, sg, b, sd); break;
    case 2: snprintf(out, SPEC_MAX, "runs,n=%llu,s=%u,b=%u,r=%u,seed=%llu,tr=%u", N, sg, b, z4 ? y1 : y2, sd, tr); break;
    case 3: snprintf(out, SPEC_MAX, "per,n=%llu,s=%u,b=%u,p=%u,m=%u,seed=%llu,tr=%u", N, sg, b, z4 ? y3 : y4, y5, sd, tr); break;
    case 4: snprintf(out, SPEC_MAX, "fib,n=%llu,b=%u,tr=%u", N, b > 254 ? 254 : b, tr); break;
    case 5: snprintf(out, SPEC_MAX, "tm,n=%llu,s=%u,b=%u,tr=%u", N, sg > 6 ? 3 : sg, b > 250 ? 250 : b, tr); break;
    case 6: snprintf(out, SPEC_MAX, "mono,n=%llu,s=%u,b=%u,d=%u", N, sg, b, y5); break;
    case 7: case 8: snprintf(out, SPEC_MAX, "lms,k=%u,len=0,dup=%u,w=%u,nl=%u,lo=%u,pre=%u,end=%u,seed=%llu,tr=%u", y6, y7, y8, y9, z1 == 0 ? 0 : z1 == 1 ? 244 : 97, z4 ? 0 : z3, z2, sd, tr & 1); break;
    case 9: snprintf(out, SPEC_MAX, "text,n=%llu,w=%u,seed=%llu", N, z5, sd); break;
    case 10: snprintf(out, SPEC_MAX, "morph,n=%llu,k=%u,b=%u,seed=%llu,tr=%u", N, z6, b > 250 ? 250 : b, sd, tr); break;
    case 12: snprintf(out, SPEC_MAX, "tree,k=%u,p=%u,q=%u,bits=%u,v=%u,ord=%u,lo=%u,seed=%llu,tr=%u", y6 * 7, z4 ? y3 : z3, z2 ? y1 : 0, z6 + y8, z1, z4, y7, sd, tr); break;
    case 11: snprintf(out, SPEC_MAX, "rep,n=%llu,s=%u,b=%u,base=%u,ed=%u,seed=%llu,tr=%u", N, sg, b, z7, y5, sd, tr); break;
    default: snprintf(out, SPEC_MAX, "mix,n=%llu,k=%u,seed=%llu,tr=%u", N, z6, sd, tr); break;
    }
}

// ------------------------------------------------------------------ reference oracles
// (1) BWT of T$ by sorting suffixes; row of T itself in last; out[last] is left as 0
static uint64_t ref_bwt(const Bytes &t, Bytes &out)
{
    size_t n = t.size();
    const uint8_t *T = t.data();
    std::vector<uint32_t> sa(n + 1);
    for (size_t i = 0; i <= n; i++) sa[i] = (uint32_t)i;
    std::sort(sa.begin(), sa.end(), [T, n](uint32_t a, uint32_t b) {
        if (a == b) return false;
        size_t la = n - a, lb = n - b, m = la < lb ? la : lb;
        int c = m ? memcmp(T + a, T + b, m) : 0;
        return c ? c < 0 : la < lb;
    });
    out.assign(n + 1, 0);
    uint64_t last = 0;
    for (size_t i = 0; i <= n; i++)
        if (sa[i] == 0) last = i; else out[i] = T[sa[i] - 1];
    return last;
}
// (2) inversion: does (B with the terminator in row last) decode to T with a single cycle of
// n+1 rows?  That is equivalent to B being the BWT of T$.  Returns NULL or a reason.
template <class IDX>
static const char *verify_by_inversion(const uint8_t *T, uint64_t n, const uint8_t *B, uint64_t last)
{
    if (last > n) return "terminator row out of range";
    uint64_t cnt[256];
    memset(cnt, 0, sizeof cnt);
    for (uint64_t i = 0; i <= n; i++) if (i != last) cnt[B[i]]++;
    uint64_t sum = 1;
    uint64_t pos[256];
    for (int c = 0; c < 256; c++) { pos[c] = sum; sum += cnt[c]; }
    std::vector<IDX> lf(n + 1);
    for (uint64_t i = 0; i <= n; i++) lf[i] = i == last ? 0 : (IDX)pos[B[i]]++;
    uint64_t row = 0;
    for (uint64_t k = n; k-- > 0;)
    {
        if (row == last) return "decoding reaches the terminator too early";
        if (B[row] != T[k]) return "decoded byte differs from the input";
        row = lf[row];
    }
    return row == last ? NULL : "decoding does not end at the terminator row";
}
static const char *verify_bwt(const uint8_t *T, uint64_t n, const uint8_t *B, uint64_t last)
{
    return n < 0xffffffffULL ? verify_by_inversion<uint32_t>(T, n, B, last) : verify_by_inversion<uint64_t>(T, n, B, last);
}

// (3) LMS decomposition by the textbook definition, on T$
struct Lms
{
    std::vector<uint8_t> stype; // 1 = S, size n+1
    std::vector<uint64_t> pos;  // LMS positions in 1..n-1, increasing
    uint64_t num, uniq, maxlen, len256; // len256: some substring length is a multiple of 256
    uint64_t sumlen_uniq;
    bool zero, ff;
    explicit Lms(const Bytes &t)
    {
        uint64_t n = t.size();
        stype.assign(n + 1, 0);
        stype[n] = 1;
        zero = ff = false;
        for (uint64_t i = n; i-- > 0;)
        {
            if (t[i] == 0) zero = true;
            if (t[i] == 255) ff = true;
            if (i == n - 1) stype[i] = 0;
            else stype[i] = t[i] < t[i + 1] ? 1 : t[i] > t[i + 1] ? 0 : stype[i + 1];
        }
        for (uint64_t i = 1; i < n; i++) if (stype[i] && !stype[i - 1]) pos.push_back(i);
        num = pos.size();
        maxlen = len256 = sumlen_uniq = 0;
        U64Set u;
        uniq = 0;
        Bytes tail;
        for (uint64_t i = 0; i < num; i++)
        {
            uint64_t len = length(i, n), h;
            if (i + 1 < num) h = hash_bytes(&t[pos[i]], len);
            else { tail.assign(t.begin() + pos[i], t.end()); tail.push_back(0); h = hash_bytes(&tail[0], len); }
            if (u.insert(h)) { uniq++; sumlen_uniq += len; }
            if (len > maxlen) maxlen = len;
            if (len % 256 == 0) len256++;
        }
        if (((pos.empty() ? n : pos[0]) + 1) % 256 == 0) len256++;
    }
    uint64_t length(uint64_t i, uint64_t n) const { return (i + 1 < num ? pos[i + 1] : n) - pos[i] + 1; }
    uint64_t head_end(uint64_t n) const { return pos.empty() ? n : pos[0]; }
};
static void note_features(const Bytes &t, const Lms &l)
{
    ctr("bytes") += t.size();
    COUNT("cases_with_zero_byte", l.zero);
    COUNT("cases_with_255_byte", l.ff);
    COUNT("cases_without_lms", l.num == 0);
    COUNT("cases_with_length_multiple_of_256", l.len256 > 0);
    COUNT("cases_with_repeated_substring", l.uniq < l.num);
    COUNT("cases_with_unique_names_over_255", l.uniq > 255);
    COUNT("cases_with_unique_names_over_65535", l.uniq > 65535);
    COUNT("cases_with_more_than_1024_lms", l.num > 1024);
    ctr_max("max_n", t.size());
    ctr_max("max_lms", l.num);
    ctr_max("max_lms_length", l.maxlen);
    ctr("lms_substrings") += l.num;
}

// ------------------------------------------------------------------ guarded input buffers
// T followed by its terminator, with the terminator as the last readable byte before a
// PROT_NONE page; optionally read-only.
struct Guarded
{
    uint8_t *map, *T;
    size_t len;
    Guarded(const uint8_t *src, uint64_t n, bool readonly, bool tight_front = false)
    {
        size_t pg = 4096, body = (n + 1 + pg - 1) / pg * pg;
        len = body + 2 * pg;
        map = (uint8_t *)mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (map == MAP_FAILED) harness_error("mmap failed");
        T = tight_front ? map + pg : map + pg + body - (n + 1);
        memcpy(T, src, n);
        T[n] = 0;
        mprotect(map, pg, PROT_NONE);
        mprotect(map + pg + body, pg, PROT_NONE);
        if (readonly) mprotect(map + pg, body, PROT_READ);
    }
    ~Guarded() { munmap(map, len); }
};

// Drives `run(spec)` over: one spec (--one), a spec file (--specs, this worker's part of it), or
// `g_cases` random specs of at most g_max bytes.
template <class F>
static void drive(F run)
{
    static char spec[SPEC_MAX];
    if (g_one) { set_case(g_one); run(g_one); return; }
    if (g_specs)
    {
        FILE *f = fopen(g_specs, "r");
        if (!f) harness_error("cannot open %s", g_specs);
        for (uint64_t i = 0; fgets(spec, sizeof spec, f); i++)
        {
            if (i % g_parts != g_part) continue;
            spec[strcspn(spec, "\n")] = 0;
            if (!spec[0]) continue;
            set_case(spec);
            run(spec);
        }
        fclose(f);
        return;
    }
    Rng r(g_seed * 1000003 + g_part);
    for (uint64_t i = 0; i < g_cases; i++)
    {
        random_spec(r, g_max ? g_max : 1000, spec);
        set_case(spec);
        run(spec);
    }
}

static void parse_args(int argc, char **argv)
{
    const char *status = NULL;
    if (argc > 1) g_mode = argv[1];
    for (int i = 2; i + 1 < argc; i += 2)
    {
        const char *k = argv[i], *v = argv[i + 1];
        if (!strcmp(k, "--seed")) g_seed = strtoull(v, NULL, 0);
        else if (!strcmp(k, "--cases")) g_cases = strtoull(v, NULL, 0);
        else if (!strcmp(k, "--max")) g_max = strtoull(v, NULL, 0);
        else if (!strcmp(k, "--thorough")) g_thorough = atoi(v);
        else if (!strcmp(k, "--one")) g_one = v;
        else if (!strcmp(k, "--tmp")) g_tmp = v;
        else if (!strcmp(k, "--cpu")) g_cpu_limit = atol(v);
        else if (!strcmp(k, "--status")) status = v;
        else if (!strcmp(k, "--part")) g_part = strtoull(v, NULL, 0);
        else if (!strcmp(k, "--parts")) g_parts = strtoull(v, NULL, 0);
        else if (!strcmp(k, "--specs")) g_specs = v;
        else if (!strcmp(k, "--ids")) g_ids = fopen(v, "wb");
        else if (!strcmp(k, "--out")) g_out = v;
        else harness_error("unknown option %s", k);
    }
    if (status)
    {
        int fd = open(status, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Status))) harness_error("status file");
        g_status = (Status *)mmap(NULL, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    else g_status = (Status *)mmap(NULL, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_status == MAP_FAILED) harness_error("status mmap");
    g_status->cases = 0;
    st_distinct = new U64Set;
    signal(SIGVTALRM, on_hang);
    signal(SIGPIPE, SIG_IGN);
}
#endif
