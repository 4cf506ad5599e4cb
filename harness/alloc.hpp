// Allocation monitor: sees every heap request made while `al.on` is set, and can
//   - account for live blocks, live bytes and their peak, and frees of blocks it does not know,
//   - fill fresh memory with a chosen pattern,
//   - make the k-th request fail (alone or with all later ones).
// Plain builds interpose malloc & co. for the whole process (libstdc++ and libc included);
// ASan builds wrap the calls made from the code under test (-Wl,--wrap) and operator new.
#ifndef VERIF_ALLOC_HPP
#define VERIF_ALLOC_HPP
#include "common.hpp"
#include <malloc.h>
#include <errno.h>
#include <new>

struct AllocMon
{
    bool on;
    uint64_t live, peak, blocks, nalloc, nfree, foreign_free;
    void *last_foreign;
    uint64_t fail_at; // 1-based index of the request that fails, 0: none
    bool persistent;
    uint64_t failed;
    int fill;         // -1: leave memory as it comes; 0..255: that byte; 256: pseudo-random
    uint64_t rnd;
    uint64_t biggest;
    uint64_t fail_above; // requests larger than this fail (0: off)
    uint64_t limit;      // requests beyond this total of live bytes fail (0: off)
};
static AllocMon al = {false, 0, 0, 0, 0, 0, 0, NULL, 0, false, 0, -1, 1, 0, 0, 0};

static void (*al_hook)(uint64_t n); // sees every request before it is served
#define AL_SLOTS (1u << 21)
struct AlSlot { void *p; uint64_t n; };
static AlSlot al_tab[AL_SLOTS];
static AlSlot al_tmp[AL_SLOTS];
static uint64_t al_used;
static uint32_t al_mask = 4095;
static inline uint32_t al_hash(void *p) { return (uint32_t)(((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 40) & al_mask; }
static void al_put(void *p, uint64_t n)
{
    if (al_used > (al_mask + 1) * 3ull / 4)
    {
        if (al_mask + 1 == AL_SLOTS) { static const char m[] = "allocation table full\n"; if (write(2, m, sizeof m - 1)) {} _exit(2); }
        uint32_t old = al_mask + 1;
        memcpy(al_tmp, al_tab, old * sizeof(AlSlot));
        al_mask = al_mask * 2 + 1;
        memset(al_tab, 0, (al_mask + 1ull) * sizeof(AlSlot));
        for (uint32_t k = 0; k < old; k++)
            if (al_tmp[k].p)
            {
                uint32_t i = al_hash(al_tmp[k].p);
                while (al_tab[i].p) i = (i + 1) & al_mask;
                al_tab[i] = al_tmp[k];
            }
    }
    uint32_t i = al_hash(p);
    while (al_tab[i].p) i = (i + 1) & al_mask;
    al_tab[i].p = p;
    al_tab[i].n = n;
    al_used++;
    al.blocks++;
    al.live += n;
    if (al.live > al.peak) al.peak = al.live;
}
static bool al_del(void *p, uint64_t *n)
{
    uint32_t i = al_hash(p);
    while (al_tab[i].p && al_tab[i].p != p) i = (i + 1) & al_mask;
    if (!al_tab[i].p) return false;
    *n = al_tab[i].n;
    al.live -= *n;
    al.blocks--;
    al_used--;
    for (uint32_t j = i;;)
    {
        j = (j + 1) & al_mask;
        if (!al_tab[j].p) break;
        uint32_t k = al_hash(al_tab[j].p);
        if (((j - k) & al_mask) < ((j - i) & al_mask)) continue;
        al_tab[i] = al_tab[j];
        i = j;
    }
    al_tab[i].p = NULL;
    return true;
}
// forget everything tracked (the blocks stay allocated)
static void al_reset()
{
    if (al_used) memset(al_tab, 0, (al_mask + 1ull) * sizeof(AlSlot));
    al_used = 0;
    al_mask = 4095;
    bool on = al.on;
    int fill = al.fill;
    memset(&al, 0, sizeof al);
    al.on = on;
    al.fill = fill;
    al.rnd = 12345;
}
static void al_fill(void *p, uint64_t n)
{
    if (al.fill < 0) return;
    if (al.fill < 256) { memset(p, al.fill, n); return; }
    uint8_t *b = (uint8_t *)p;
    for (uint64_t i = 0; i < n; i += 8)
    {
        al.rnd ^= al.rnd << 13; al.rnd ^= al.rnd >> 7; al.rnd ^= al.rnd << 17;
        memcpy(b + i, &al.rnd, n - i < 8 ? n - i : 8);
    }
}
static bool al_fail(uint64_t n)
{
    al.nalloc++;
    if (al_hook) al_hook(n);
    if (n > al.biggest) al.biggest = n;
    if ((al.fail_at && (al.nalloc == al.fail_at || (al.persistent && al.nalloc > al.fail_at))) || (al.fail_above && n > al.fail_above) || (al.limit && al.live + n > al.limit))
    {
        al.failed++;
        errno = ENOMEM;
        return true;
    }
    return false;
}

#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(address_sanitizer) && !defined(__SANITIZE_ADDRESS__)
#define __SANITIZE_ADDRESS__ 1
#endif
#if !(MSAN || __has_feature(thread_sanitizer) || defined(__SANITIZE_THREAD__)) // those keep their own allocator
#if defined(__SANITIZE_ADDRESS__)
#define AL_REAL(f) __real_##f
#define AL_DEF(f) __wrap_##f
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
}
#else
#define AL_REAL(f) __libc_##f
#define AL_DEF(f) f
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
}
#endif
extern "C" {
void *AL_DEF(malloc)(size_t n)
{
    if (!al.on) return AL_REAL(malloc)(n);
    if (al_fail(n)) return NULL;
    void *p = AL_REAL(malloc)(n);
    if (p) { al_put(p, n); al_fill(p, n); }
    return p;
}
void *AL_DEF(calloc)(size_t a, size_t b)
{
    if (!al.on) return AL_REAL(calloc)(a, b);
    if (al_fail(a * b)) return NULL;
    void *p = AL_REAL(calloc)(a, b);
    if (p) al_put(p, a * b);
    return p;
}
void AL_DEF(free)(void *p)
{
    if (al.on && p)
    {
        uint64_t n;
        al.nfree++;
        if (!al_del(p, &n)) { al.foreign_free++; al.last_foreign = p; }
    }
    else if (al_used && p)
    {
        uint64_t n;
        al_del(p, &n);
    }
    AL_REAL(free)(p);
}
void *AL_DEF(realloc)(void *q, size_t n)
{
    if (!al.on)
    {
        uint64_t d;
        if (q && al_used) al_del(q, &d);
        return AL_REAL(realloc)(q, n);
    }
    if (n && al_fail(n)) return NULL;
    uint64_t old = 0;
    if (q && !al_del(q, &old)) { al.foreign_free++; al.last_foreign = q; }
    void *p = AL_REAL(realloc)(q, n);
    if (p)
    {
        al_put(p, n);
        if (n > old) al_fill((uint8_t *)p + old, n - old);
    }
    return p;
}
}
#if defined(__SANITIZE_ADDRESS__)
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
#endif
#endif
#endif
