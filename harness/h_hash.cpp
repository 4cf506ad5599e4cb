// C16: the substring table against an exact dictionary, over random operation histories.
// spec: h,seed=..,ht=<table size>,nb=<name bytes>,ops=..,alpha=..,maxlen=..,long=<0..3>
#include "common.hpp"
#include "hashtable.hpp"
#include <map>

struct Entry { bool named; uint64_t name; };
typedef std::map<Bytes, Entry> Dict;

// visits every stored record the way the library does; returns how many there are
template <class F>
static uint64_t walk(flbwt::HashTable &h, F f)
{
    uint64_t cnt = 0, steps = 0;
    for (uint64_t i = 0; i < h.HTSIZE; i++)
    {
        uint64_t p = h.head[i];
        while (p != 0)
        {
            if (p >= h.bufsize) violation("chain", "bucket %llu leads outside the table's memory", (unsigned long long)i);
            if (steps++ > 100000000) violation("chain", "bucket %llu does not end", (unsigned long long)i);
            uint8_t *r = h.buf + p;
            uint64_t l = h.get_length(r);
            if (l == 0) break;
            if (l == 2) { p = h.get_pointer(r); continue; }
            f(r, l, i);
            cnt++;
            p += h.string_info_length(r, l);
        }
    }
    return cnt;
}
static bool lookup(flbwt::HashTable &h, const Bytes &k, uint64_t &name)
{
    Bytes c(k); // the caller's copy must not be needed later, nor be changed
    bool found;
    try { name = h.find_name(c.size(), c.data()); found = true; }
    catch (const std::exception &) { found = false; }
    if (c != k) violation("argument-modified", "lookup changed its argument");
    return found;
}
static void hist(const char *spec)
{
    Spec s(spec);
    Rng r(s.num("seed", 1));
    uint64_t ht = s.num("ht", 7), nb = s.num("nb", 1), ops = s.num("ops", 100), alpha = s.num("alpha", 2), maxlen = s.num("maxlen", 12), lng = s.num("long", 0), b = s.num("b", 97);
    // a table for an input of n bytes uses as many name bytes as n/2+1 has
    uint64_t n = nb >= 8 ? ~0ULL >> (r.below(2)) : (nb == 1 ? 4 + r.below(400) : ((2ULL << (8 * (nb - 1))) + r.below(1000)));
    flbwt::HashTable *h = new flbwt::HashTable(ht, n);
    if (h->NAME_BYTES < nb) violation("name-bytes", "table for n=%llu uses %d name bytes, needs %llu", (unsigned long long)n, h->NAME_BYTES, (unsigned long long)nb);
    uint64_t maxname = nb >= 8 ? ~0ULL : (1ULL << (8 * nb)) - 1;
    Dict d;
    std::vector<Bytes> keys;
    uint64_t inserts = 0, dups = 0, id = 0;
    // a crowd of distinct strings first (spec: bulk=..), the last ones inserted again at once
    uint64_t bulk = s.num("bulk", 0);
    while (d.size() < bulk)
    {
        Bytes k(3 + r.below(maxlen));
        for (size_t i = 0; i < k.size(); i++) k[i] = (uint8_t)(b + r.below(alpha));
        Entry e = {false, 0};
        if (!d.insert(std::make_pair(k, e)).second) continue;
        keys.push_back(k);
        if (h->insert_string(k.size(), k.data()) != 1) violation("insert-result", "insertion %llu of a string of length %zu that is new reported 0", (unsigned long long)inserts, k.size());
        inserts++;
        ctr_max("max_strings_in_one_bucket", d.size() / ht);
        if ((d.size() & 255) == 0)
        {
            if (h->insert_string(k.size(), k.data()) != 0) violation("insert-result", "a string of length %zu, the last of %zu, was inserted twice", k.size(), d.size());
            inserts++;
            dups++;
        }
    }
    for (uint64_t op = 0; op < ops; op++)
    {
        unsigned kind = (unsigned)r.below(100);
        if (kind < 78 || op == 0)
        { // insert: fresh, a copy, or a near copy of an earlier one
            Bytes k;
            if (!keys.empty() && r.chance(1, 3)) k = keys[r.below(keys.size())];
            else if (!keys.empty() && r.chance(1, 4))
            {
                k = keys[r.below(keys.size())];
                if (r.chance(1, 3) && k.size() > 3) k.pop_back();
                else if (r.chance(1, 2)) k.push_back((uint8_t)(b + r.below(alpha)));
                else k[r.below(k.size())] = (uint8_t)(b + r.below(alpha));
            }
            else
            {
                uint64_t len = 3 + r.below(maxlen);
                if (lng && r.chance(1, 6))
                {
                    static const uint64_t L[] = {255, 256, 257, 511, 512, 513, 1024, 65535, 65536, 65537, 131072, 65536 + 256};
                    len = lng == 1 ? L[r.below(7)] : lng == 2 ? L[r.below(12)] : (1 << 24) - 1 + r.below(3);
                }
                k.resize(len);
                for (uint64_t i = 0; i < len; i++) k[i] = (uint8_t)(b + r.below(alpha));
            }
            Bytes c(k);
            uint8_t got = h->insert_string(c.size(), c.data());
            if (c != k) violation("argument-modified", "insertion changed its argument");
            bool fresh = d.find(k) == d.end();
            if (got != (fresh ? 1 : 0))
                violation("insert-result", "insertion %llu of a string of length %zu that is %s reported %d", (unsigned long long)inserts, k.size(), fresh ? "new" : "present", got);
            if (fresh) { Entry e = {false, 0}; d[k] = e; keys.push_back(k); }
            else dups++;
            inserts++;
            id = hash_bytes(k.data(), k.size(), id);
            COUNT("long_strings_inserted", k.size() >= 256);
            COUNT("strings_with_length_multiple_of_256", k.size() % 256 == 0);
        }
        else if (kind < 90)
        { // lookup
            Bytes k;
            uint64_t name;
            if (r.chance(2, 3)) k = keys[r.below(keys.size())];
            else
            {
                k = keys[r.below(keys.size())];
                if (r.chance(1, 2)) k[r.below(k.size())] ^= (uint8_t)(1 + r.below(3));
                else k.push_back((uint8_t)(b + r.below(alpha)));
            }
            bool f = lookup(*h, k, name);
            Dict::iterator it = d.find(k);
            if (f && it == d.end()) violation("phantom", "lookup of a string of length %zu that was never inserted returned %llu", k.size(), (unsigned long long)name);
            if (!f && it != d.end()) violation("lost", "lookup of a stored string of length %zu threw", k.size());
            if (f && it->second.named && name != it->second.name)
                violation("name", "string of length %zu has name %llu, was given %llu", k.size(), (unsigned long long)name, (unsigned long long)it->second.name);
            COUNT("lookups_found", f);
            COUNT("lookups_absent", !f);
        }
        else if (kind < 96 || op + 1 == ops)
        { // name some or all stored strings through their records
            bool all = r.chance(1, 2);
            walk(*h, [&](uint8_t *p, uint64_t l, uint64_t) {
                const uint8_t *q = h->get_first_character_pointer(p);
                Bytes k(q, q + l);
                Dict::iterator it = d.find(k);
                if (it == d.end()) violation("phantom", "the table holds a string of length %llu that was never inserted", (unsigned long long)l);
                if (!all && r.chance(1, 2)) return;
                uint64_t nm = r.chance(1, 4) ? maxname : r.chance(1, 3) ? r.below(256) : nb >= 8 ? r.next() : r.below(maxname + 1);
                h->set_name(p, nm);
                it->second.named = true;
                it->second.name = nm;
                ctr("names_assigned")++;
            });
        }
        else
        { // every stored string is still there, once, with its bytes, length and name
            U64Set seen;
            uint64_t cnt = walk(*h, [&](uint8_t *p, uint64_t l, uint64_t bucket) {
                const uint8_t *q = h->get_first_character_pointer(p);
                Bytes k(q, q + l);
                Dict::iterator it = d.find(k);
                if (it == d.end()) violation("phantom", "the table holds a string of length %llu that was never inserted", (unsigned long long)l);
                if (!seen.insert(hash_bytes(k.data(), k.size()))) violation("duplicate", "the table holds a string of length %llu twice", (unsigned long long)l);
                if (it->second.named && h->get_name(p) != it->second.name)
                    violation("name", "string of length %llu has name %llu, was given %llu", (unsigned long long)l, (unsigned long long)h->get_name(p), (unsigned long long)it->second.name);
                (void)bucket;
            });
            if (cnt != d.size()) violation("lost", "the table holds %llu strings, %zu were inserted", (unsigned long long)cnt, d.size());
            ctr("table_scans")++;
        }
    }
    // closing sweep over everything that was ever inserted
    uint64_t nth = 0;
    for (Dict::iterator it = d.begin(); it != d.end(); ++it)
    {
        uint64_t name;
        if (bulk && nth++ % 3) continue;
        if (!lookup(*h, it->first, name)) violation("lost", "stored string of length %zu is no longer found", it->first.size());
        if (it->second.named && name != it->second.name)
            violation("name", "string of length %zu has name %llu, was given %llu", it->first.size(), (unsigned long long)name, (unsigned long long)it->second.name);
        ctr("lookups_found")++;
    }
    uint64_t cnt = walk(*h, [&](uint8_t *, uint64_t, uint64_t) {});
    if (cnt != d.size()) violation("lost", "the table holds %llu strings, %zu were inserted", (unsigned long long)cnt, d.size());
    ctr("insertions") += inserts;
    ctr("repeated_insertions") += dups;
    ctr_max("max_strings_in_one_table", d.size());
    ctr_max("max_table_bytes", h->bufsize);
    char nm[40];
    snprintf(nm, sizeof nm, "tables_with_%llu_name_bytes", (unsigned long long)nb);
    ctr(nm)++;
    COUNT("tables_of_size_1", ht == 1);
    COUNT("tables_with_several_blocks_per_bucket", h->bufsize > 2048 && d.size() > ht * 40);
    delete h;
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec), id), d.size() > 1 && dups);
    if (st_eval % 61 == 5) sample("%s -> %llu insertions, %zu distinct, all results as in the reference dictionary", spec, (unsigned long long)inserts, d.size());
}
// C26: the fields of one record, through the table's own accessors. spec: c,seed=..,nb=..,cnt=..
// Records of up to 2^33 bytes lie in a sparse mapping; longer ones are only measured.
#include <sys/mman.h>
static uint8_t *rec_mem;
static const uint64_t REC_MEM = 1ULL << 34;
static uint64_t near_power(Rng &r, unsigned top)
{
    uint64_t v = (1ULL << r.below(top)) - 3 + r.below(7);
    if (r.chance(1, 3)) v = r.next() >> (64 - top + r.below(top));
    if (r.chance(1, 4)) v &= ~0ULL << r.below(40); // zero low bytes
    if (r.chance(1, 6)) v &= ~(0xffULL << (8 * r.below(8))); // a zero byte inside
    return v;
}
static void codec(const char *spec)
{
    Spec s(spec);
    Rng r(s.num("seed", 1));
    uint64_t nb = s.num("nb", 1), cnt = s.num("cnt", 1000), n = nb >= 8 ? ~0ULL : nb == 1 ? 4 + r.below(400) : ((2ULL << (8 * (nb - 1))) + r.below(1000));
    flbwt::HashTable h(7, n);
    uint64_t NB = h.NAME_BYTES, id = 0;
    if (NB < nb) violation("name-bytes", "table for n=%llu uses %d name bytes, needs %llu", (unsigned long long)n, h.NAME_BYTES, (unsigned long long)nb);
    if (!rec_mem)
    {
        rec_mem = (uint8_t *)mmap(NULL, REC_MEM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (rec_mem == MAP_FAILED) harness_error("mmap");
    }
    const uint64_t G = 64; // guarded bytes around each field
    for (uint64_t k = 0; k < cnt; k++)
    {
        if (k % 2000 == 1999) madvise(rec_mem, REC_MEM, MADV_DONTNEED);
        uint64_t l = near_power(r, k % 3 ? 33 : 57);
        if (l == 0 || l == 2 || l > (1ULL << 56)) l = 1 + 2 * r.below(1000);
        uint8_t *p = rec_mem + G + r.below(8);
        uint8_t fill = (uint8_t)(1 + r.below(255));
        memset(p - G, fill, 2 * G + 16);
        unsigned xb = h.calculate_lenlen(l);
        h.set_length(p, l);
        if (h.get_length(p) != l) violation("length", "length %llu reads back as %llu", (unsigned long long)l, (unsigned long long)h.get_length(p));
        if (h.get_lenlen(p) != xb) violation("length-size", "length %llu: %u bytes were planned, %u are used", (unsigned long long)l, xb, h.get_lenlen(p));
        uint64_t before = (uint64_t)(h.get_first_character_pointer(p) - p), hdr = 1 + xb;
        if (before <= xb) violation("layout", "length %llu: the characters start at %llu, inside the length", (unsigned long long)l, (unsigned long long)before);
        for (uint64_t i = 0; i < 2 * G + 16; i++)
            if ((i < G || i >= G + hdr) && (p - G)[i] != fill) violation("overwrite", "writing length %llu changed the byte at offset %lld of the record", (unsigned long long)l, (long long)i - (long long)G);
        uint64_t total = h.string_info_length(p, l);
        if (total != before + l + NB) violation("record-size", "a record of %llu characters is reported to take %llu bytes, its parts take %llu", (unsigned long long)l, (unsigned long long)total, (unsigned long long)(before + l + NB));
        ctr("lengths")++;
        COUNT("lengths_over_2^32", l >> 32);
        COUNT("lengths_multiple_of_256", l % 256 == 0);
        if (l < (1ULL << 33))
        { // the name lies behind the characters
            uint64_t name = NB >= 8 ? near_power(r, 63) * (1 + r.below(2)) : near_power(r, 60) & ((1ULL << (8 * NB)) - 1);
            uint8_t *e = p + before + l;
            memset(e - (l < G ? l : G), fill, (l < G ? l : G) + NB + G);
            h.set_name(p, name);
            if (h.get_name(p) != name) violation("name", "name %llu of a record of %llu characters reads back as %llu (%llu name bytes)", (unsigned long long)name, (unsigned long long)l, (unsigned long long)h.get_name(p), (unsigned long long)NB);
            for (uint64_t i = 0; i < (l < G ? l : G); i++) if (e[-1 - (int64_t)i] != fill) violation("overwrite", "naming a record of %llu characters changed a character", (unsigned long long)l);
            for (uint64_t i = 0; i < G; i++) if (e[NB + i] != fill) violation("overwrite", "naming a record of %llu characters changed a byte behind it", (unsigned long long)l);
            if (h.get_length(p) != l) violation("overwrite", "naming a record changed its length");
            ctr("names")++;
            COUNT("names_over_2^32", name >> 32);
        }
        // a link to a continuing block
        uint64_t at = r.chance(1, 8) ? r.next() : near_power(r, 63);
        memset(p - G, fill, 2 * G + 16);
        h.set_pointer(p, at);
        if (h.get_pointer(p) != at) violation("link", "link %llx reads back as %llx", (unsigned long long)at, (unsigned long long)h.get_pointer(p));
        if (h.get_length(p) != 2) violation("link", "a link is not recognised as one");
        for (uint64_t i = 0; i < 2 * G + 16; i++)
            if ((i < G || i >= G + 12) && (p - G)[i] != fill) violation("overwrite", "writing a link changed the byte at offset %lld", (long long)i - (long long)G);
        ctr("links")++;
        COUNT("links_over_2^32", at >> 32);
        id = hash_bytes((uint8_t *)&l, 8, id);
    }
    evaluated(id, true);
    if (st_eval % 7 == 1) sample("%s -> %llu lengths, names and links read back", spec, (unsigned long long)cnt);
}
// Strings and tables beyond 2^32 bytes: a few strings that differ only at their ends, among ordinary
// ones. The strings are mostly never touched zero pages. spec: g,len=..,ht=..,nb=..,seed=..
static void huge(const char *spec)
{
    Spec s(spec);
    Rng r(s.num("seed", 1));
    uint64_t len = s.num("len", 1000), ht = s.num("ht", 1), nb = s.num("nb", 5);
    uint8_t *t = (uint8_t *)mmap(NULL, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t == MAP_FAILED) harness_error("mmap");
    flbwt::HashTable *h = new flbwt::HashTable(ht, (2ULL << (8 * (nb - 1))) + 1000);
    std::map<Bytes, uint64_t> d; // the ordinary strings and their names
    U64Set names;
    auto few = [&](unsigned k) {
        while (k--)
        {
            Bytes b(3 + r.below(20));
            for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)r.below(3);
            int got = h->insert_string(b.size(), b.data()), want = !d.count(b);
            if (got != want) violation("insert-result", "a string of length %zu that is %s reported %d, the table holding %llu bytes", b.size(), want ? "new" : "present", got, (unsigned long long)h->bufsize);
            d[b] = 0;
        }
    };
    auto put = [&](uint64_t l, int want, const char *what) {
        int got = h->insert_string(l, t);
        if (got != want) violation("insert-result", "%s of length %llu reported %d", what, (unsigned long long)l, got);
        COUNT("strings_over_2^32", l >> 32);
    };
    // A: len bytes; B: A with another last byte; D: B with another first byte; C: a proper prefix of A that is 2^32 shorter
    uint64_t C = len > (1ULL << 32) + 3 ? len - (1ULL << 32) : len / 2;
    few(30);
    t[len - 1] = 5;
    put(len, 1, "a new string");
    few(30);
    put(len, 0, "a stored string");
    t[len - 1] = 6;
    put(len, 1, "a string that differs from a stored one in its last byte");
    few(30);
    t[0] = 3;
    put(len, 1, "a string that differs from a stored one in its first byte");
    t[0] = 0;
    few(30);
    put(C, 1, "a proper prefix of a stored string");
    put(len, 0, "a stored string");
    few(30);
    uint64_t k = 1ULL << (8 * (nb - 1)), mark = 0, nA = 0, nB = 0, nC = 0, nD = 0;
    uint64_t cnt = walk(*h, [&](uint8_t *p, uint64_t l, uint64_t) {
        const uint8_t *q = h->get_first_character_pointer(p);
        h->set_name(p, ++k);
        if (l == len && q[0] == 3) { nD = k; mark |= 8; }
        else if (l == len && q[len - 1] == 5) { nA = k; mark |= 1; }
        else if (l == len && q[len - 1] == 6) { nB = k; mark |= 2; }
        else if (l == C && l > 23) { nC = k; mark |= 4; }
        else
        {
            if (l > 23) violation("phantom", "the table holds a string of length %llu that was never inserted", (unsigned long long)l);
            Bytes b(q, q + l);
            if (!d.count(b) || d[b]) violation("phantom", "the table holds a string of length %llu that was never inserted, or twice", (unsigned long long)l);
            d[b] = k;
        }
    });
    if (cnt != d.size() + 4 || mark != 15) violation("lost", "the table holds %llu strings, %zu were inserted", (unsigned long long)cnt, d.size() + 4);
    auto find = [&](const uint8_t *p, uint64_t l) -> uint64_t {
        try { return h->find_name(l, (uint8_t *)p); }
        catch (const std::exception &) { return 0; }
    };
    for (std::map<Bytes, uint64_t>::iterator it = d.begin(); it != d.end(); ++it)
        if (find(it->first.data(), it->first.size()) != it->second) violation("name", "a string of length %zu is not found under its name, the table holding %llu bytes", it->first.size(), (unsigned long long)h->bufsize);
    if (find(t, len) != nB) violation("name", "the second string of length %llu is not found under its name", (unsigned long long)len);
    t[0] = 3;
    if (find(t, len) != nD) violation("name", "the third string of length %llu is not found under its name", (unsigned long long)len);
    t[0] = 0;
    t[len - 1] = 5;
    if (find(t, len) != nA) violation("name", "the first string of length %llu is not found under its name", (unsigned long long)len);
    t[len - 1] = 7;
    if (find(t, len)) violation("phantom", "a string of length %llu that was never inserted was found", (unsigned long long)len);
    if (find(t, C) != nC) violation("name", "the prefix of length %llu is not found under its name", (unsigned long long)C);
    if (find(t, C + 1)) violation("phantom", "a string of length %llu that was never inserted was found", (unsigned long long)C + 1);
    ctr_max("max_table_bytes", h->bufsize);
    COUNT("tables_over_2^33_bytes", h->bufsize >> 33);
    delete h;
    munmap(t, len + 4096);
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), true);
    sample("%s -> %zu ordinary and four long strings kept apart", spec, d.size());
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    if (!strcmp(g_mode, "hist")) drive(hist);
    else if (!strcmp(g_mode, "codec")) drive(codec);
    else if (!strcmp(g_mode, "huge")) drive(huge);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
