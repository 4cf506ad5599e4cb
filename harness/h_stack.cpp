// C24: stack used below the caller. Every call runs on a painted stack of its own; the lowest
// changed byte tells how deep it went. A call that needs more than that stack ends at a guard page.
#include "width.hpp"
#include <ucontext.h>
#include <fcntl.h>
static const size_t STACK = 4u << 20, BOUND = 64u << 10, PAGE = 4096;
static uint8_t *st_base;
static ucontext_t st_main, st_ctx;
static struct { int kind; uint8_t *T; uint64_t n; bool give; char in[600], out[600]; Outcome o; } job;
static void body()
{
    if (job.kind == 0) job.o = call_string(job.T, job.n, job.give);
    else
    {
        job.o.threw = false;
        job.o.r = NULL;
        try { flbwt::bwt_file(job.in, job.out); }
        catch (...) { job.o.threw = true; }
    }
}
static uint64_t measured()
{
    if (getcontext(&st_ctx)) harness_error("getcontext");
    st_ctx.uc_stack.ss_sp = st_base + PAGE;
    st_ctx.uc_stack.ss_size = STACK;
    st_ctx.uc_link = &st_main;
    makecontext(&st_ctx, body, 0);
    if (swapcontext(&st_main, &st_ctx)) harness_error("swapcontext");
    uint8_t *lo = st_base + PAGE, *hi = lo + STACK, *p = lo;
    while (p + 8 <= hi && *(uint64_t *)p == 0xa5a5a5a5a5a5a5a5ULL) p += 8;
    uint64_t used = (uint64_t)(hi - p);
    memset(p, 0xa5, used);
    return used;
}
static void judge(const char *what, uint64_t used, uint64_t n)
{
    if (job.o.threw) violation("stack-exception", "%s threw on a valid input (n=%llu)", what, (unsigned long long)n);
    if (used > BOUND) violation("stack", "%s used %llu bytes of stack (n=%llu)", what, (unsigned long long)used, (unsigned long long)n);
    ctr("calls_measured")++;
    ctr_max("max_stack_bytes", used);
    if (n > 1000000) ctr_max("max_stack_bytes_of_inputs_over_1MB", used);
    if (n < 64) ctr_max("max_stack_bytes_of_inputs_under_64_bytes", used);
}
static void stack(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    uint64_t n = t.size();
    uint64_t nat = 0;
    for (int k = 0; k < 5; k++)
    {
#ifndef FLBWT_VERIF_HOOKS
        if (k) break;
#endif
        w_target = k ? (1ULL << (26 + 8 * k)) : 0;
        if (k && w_target <= nat) continue;
        job.kind = 0;
        job.T = malloc_copy(t);
        job.n = n;
        job.give = (n + (uint64_t)k) % 2;
        bool give = job.give;
        char what[40];
        uint64_t used = measured();
        snprintf(what, sizeof what, "bwt_string (%d bit values)", k ? w_width(w_used) : 32);
        judge(what, used, n);
        if (!k) nat = w_natural;
        if (k) ctr("calls_at_rebased_widths")++;
        const char *e = verify_bwt(t.data(), n, job.o.r->BWT, job.o.r->last);
        if (e) violation("stack-mismatch", "%s: %s", what, e);
        release(job.o.r);
        if (!give) free(job.T);
    }
    w_target = 0;
    if (n < 3000000)
    {
        job.kind = 1;
        snprintf(job.in, sizeof job.in, "%s/in", g_tmp);
        snprintf(job.out, sizeof job.out, "%s/out", g_tmp);
        FILE *f = fopen(job.in, "wb");
        if (!f || fwrite(t.data(), 1, n, f) != n || fclose(f)) harness_error("cannot write %s", job.in);
        judge("bwt_file", measured(), n);
        ctr("file_calls")++;
    }
    Lms l(t);
    note_features(t, l);
    evaluated(hash_bytes(t.data(), n), l.num > 0);
    if (st_eval % 97 == 5) sample("%s -> n=%llu", spec, (unsigned long long)n);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    w_install();
    st_base = (uint8_t *)mmap(NULL, STACK + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (st_base == MAP_FAILED || mprotect(st_base, PAGE, PROT_NONE)) harness_error("stack");
    memset(st_base + PAGE, 0xa5, STACK);
    if (!strcmp(g_mode, "stack")) drive(stack);
    else harness_error("mode %s", g_mode);
    print_stats();
    return 0;
}
