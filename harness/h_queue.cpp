// C18: the queue against std::deque, with the allocation monitor watching the memory held.
// spec: q,w=..,ops=..,seed=..,peak=..
#include "alloc.hpp"
#include "queue.hpp"
#include <deque>

// One queue, or several of different widths that are used in turn ("k").
struct One
{
    unsigned w;
    flbwt::Queue *Q;
    std::deque<uint64_t> ref;
    unsigned phase;
    uint64_t left;
};
static void q(const char *spec)
{
    Spec s(spec);
    Rng r(s.num("seed", 1));
    unsigned w0 = (unsigned)s.num("w", 1), K = (unsigned)s.num("k", 1);
    uint64_t ops = s.num("ops", 1000), top = s.num("peak", 5000);
    std::vector<One> all(K);
    uint64_t total_in = 0, total_out = 0, emptied = 0, blocks_crossed = 0;
    al_reset();
    for (unsigned i = 0; i < K; i++)
    {
        One &o = all[i];
        o.w = i == 0 ? w0 : 1 + (unsigned)r.below(63);
        o.phase = 0;
        o.left = 0;
        al.on = true;
        o.Q = new flbwt::Queue((uint8_t)o.w);
        al.on = false;
    }
    auto check_mem = [&]() {
        // blocks of 1024 elements: the held ones, one partly used at each end, one spare
        uint64_t allow = 0, held = 0;
        for (One &o : all) { allow += 512 + (o.ref.size() / 1024 + 3) * (1024ull * o.w / 8 + 256); held += o.ref.size(); }
        if (al.live > allow) violation("memory", "w=%u: %llu bytes held for %llu elements", w0, (unsigned long long)al.live, (unsigned long long)held);
        ctr("memory_checks")++;
        ctr_max("max_bytes_held", al.live);
    };
    auto take = [&](One &o, const char *what) {
        al.on = true; int64_t g = o.Q->dequeue(); al.on = false;
        if ((uint64_t)g != o.ref.front())
            violation("order", "w=%u: %s %llu gave %llx, should be %llx (%zu held)", o.w, what, (unsigned long long)total_out, (unsigned long long)g, (unsigned long long)o.ref.front(), o.ref.size());
        o.ref.pop_front();
        total_out++;
        emptied += o.ref.empty();
    };
    unsigned cur = 0;
    for (uint64_t op = 0; op < ops; op++)
    {
        if (K > 1 && r.chance(1, 3)) cur = (unsigned)r.below(K);
        One &o = all[cur];
        std::deque<uint64_t> &ref = o.ref;
        uint64_t m = (1ULL << o.w) - 1;
        if (!o.left--) { o.phase = (unsigned)r.below(7); o.left = r.chance(1, 3) ? 1 + r.below(10) : r.chance(1, 2) ? 1020 + r.below(10) : 1 + r.below(2500); }
        // phases: grow at back, grow at front, mixed growth, shrink, sliding window, drain, balanced
        unsigned a;
        switch (o.phase)
        {
        case 0: a = 0; break;
        case 1: a = 1; break;
        case 2: a = (unsigned)r.below(2); break;
        case 3: case 5: a = 2; break;
        case 4: a = op & 1 ? 2 : 0; break;
        default: a = (unsigned)r.below(3);
        }
        if (ref.size() >= top) a = 2;
        bool e = o.Q->is_empty();
        if (e != ref.empty()) violation("emptiness", "w=%u: queue with %zu elements reports %s", o.w, ref.size(), e ? "empty" : "not empty");
        if (a == 2 && ref.empty()) { o.left = 0; continue; }
        uint64_t v = r.chance(1, 8) ? m : r.chance(1, 8) ? 0 : r.next() & m;
        if (a == 0)
        {
            al.on = true; o.Q->enqueue(v); al.on = false;
            ref.push_back(v);
            total_in++;
        }
        else if (a == 1)
        {
            al.on = true; o.Q->enqueue_l(v); al.on = false;
            ref.push_front(v);
            total_in++;
        }
        else take(o, "removal");
        if (ref.size() > 1024) blocks_crossed++;
        if (op % 16 == 0) check_mem();
    }
    check_mem();
    if (s.num("drain", 0))
        for (One &o : all)
            while (!o.ref.empty())
            {
                take(o, "drain");
                if (o.ref.size() % 64 == 0) check_mem();
            }
    for (One &o : all)
    {
        if (o.Q->is_empty() != o.ref.empty()) violation("emptiness", "w=%u: queue with %zu elements reports otherwise", o.w, o.ref.size());
        COUNT("destroyed_while_holding_elements", !o.ref.empty());
        COUNT("destroyed_while_empty", o.ref.empty());
        al.on = true;
        delete o.Q;
        al.on = false;
    }
    if (al.blocks || al.live) violation("leak", "w=%u: %llu bytes in %llu blocks remain after destruction with %zu elements", w0, (unsigned long long)al.live, (unsigned long long)al.blocks, all[0].ref.size());
    ctr("insertions") += total_in;
    ctr("removals") += total_out;
    ctr("times_emptied") += emptied;
    COUNT("several_queues_in_turn", K > 1);
    char nm[32];
    snprintf(nm, sizeof nm, "width_%02u", w0);
    ctr(nm)++;
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), total_out > 1 && blocks_crossed > 0);
    if (st_eval % 97 == 5) sample("%s -> %llu in, %llu out in order, emptied %llu times", spec, (unsigned long long)total_in, (unsigned long long)total_out, (unsigned long long)emptied);
}
// more elements than 32 bits can count; the values are a function of the position
static inline uint64_t bit_at(uint64_t i, uint64_t seed) { return (((i ^ seed) * 0x9e3779b97f4a7c15ULL) >> 60) & 1; }
static void many(const char *spec)
{
    Spec s(spec);
    uint64_t count = s.num("count", 1000), front = s.num("front", 0), seed = s.num("seed", 1);
    flbwt::Queue *Q = new flbwt::Queue(1);
    uint64_t next_check = 1;
    for (uint64_t i = 0; i < count; i++)
    {
        if (front) Q->enqueue_l(bit_at(i, seed));
        else Q->enqueue(bit_at(i, seed));
        if (i + 1 == next_check || ((i + 1) & 0xffffffff) < 3)
        {
            if (Q->is_empty()) violation("emptiness", "queue with %llu elements reports empty", (unsigned long long)i + 1);
            if (i + 1 == next_check) next_check *= 2;
        }
    }
    // the first ones that leave, then every block until fewer than 2^32 are left
    for (uint64_t k = 0; k < 100000 + (count & 0xffffffff) && k < count; k++)
    {
        uint64_t want = bit_at(front ? count - 1 - k : k, seed), got = (uint64_t)Q->dequeue();
        if (got != want) violation("order", "removal %llu of %llu gave %llx, should be %llx", (unsigned long long)k, (unsigned long long)count, (unsigned long long)got, (unsigned long long)want);
        if (Q->is_empty() != (k + 1 == count)) violation("emptiness", "queue with %llu elements reports otherwise", (unsigned long long)(count - 1 - k));
        ctr("removals")++;
    }
    ctr("insertions") += count;
    ctr_max("max_elements_in_one_queue", count);
    if (count < (1ULL << 32)) delete Q; // (the process ends: releasing millions of blocks shows nothing more)
    evaluated(hash_bytes((const uint8_t *)spec, strlen(spec)), count > 1024);
    sample("%s -> %llu elements held", spec, (unsigned long long)count);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    if (!strcmp(g_mode, "q")) drive(q);
    else if (!strcmp(g_mode, "many")) drive(many);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
