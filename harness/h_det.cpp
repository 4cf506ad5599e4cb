// C04: results of the same inputs in differently built and configured processes, written to a
// file line by line for comparison ("spec hash-of-rows terminator-row", and for every fourth input
// the hash of the output file). VERIF_AMBIENT names what else is different about the process:
//  fp      rounding upwards, denormals flushed     thread  every call from a thread of its own
//  errno   another errno before every call           rand    rand() and random() in another state
//  fd0     standard input closed                   umask   another umask and working directory
//  signals a timer interrupts the calls            locale  whichever locale there is
#include "api.hpp"
#include <errno.h>
#include <fenv.h>
#include <locale.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <xmmintrin.h>
static FILE *fo;
static const char *amb = "";
static char p_in[700], p_out[700];
static bool is(const char *x) { return strstr(amb, x) != NULL; }
static void nothing(int) {}
struct Call { uint8_t *T; size_t n; bool file; Outcome o; };
static void *do_call(void *v)
{
    Call *c = (Call *)v;
    static unsigned turn;
    turn++;
    if (is("fp"))
    {
        fesetround(turn % 3 == 0 ? FE_DOWNWARD : turn % 3 == 1 ? FE_UPWARD : FE_TOWARDZERO);
        _mm_setcsr(_mm_getcsr() | 0x8040);
    }
    if (is("rand")) srand(turn * 977), srandom(turn * 991);
    if (is("errno")) errno = (int)(turn % 134);
    if (!c->file) c->o = call_string(c->T, c->n, false);
    else
    {
        c->o.threw = false;
        try { flbwt::bwt_file(p_in, p_out); }
        catch (...) { c->o.threw = true; }
    }
    if (is("fp")) fesetround(FE_TONEAREST), _mm_setcsr(_mm_getcsr() & ~0x8040u);
    return NULL;
}
static void perform(Call &c)
{
    if (!is("thread")) { do_call(&c); return; }
    pthread_t th;
    if (pthread_create(&th, NULL, do_call, &c)) harness_error("pthread_create");
    pthread_join(th, NULL);
}
static void digest(const char *spec)
{
    Bytes t;
    if (!gen_spec(spec, t)) harness_error("bad spec %s", spec);
    size_t n = t.size();
    uint8_t *T = malloc_copy(t);
    Call c = {T, n, false, {false, "", NULL}};
    perform(c);
    Outcome o = c.o;
    uint64_t h = 0, last = 0;
    if (o.r)
    {
        last = o.r->last;
        if (last <= n) o.r->BWT[last] = 0;
        h = hash_bytes(o.r->BWT, n + 1);
    }
    fprintf(fo, "%s %016llx %llu %d", spec, (unsigned long long)h, (unsigned long long)last, (int)o.threw);
    release(o.r);
    free(T);
    ctr("digests")++;
    if (hash_bytes(t.data(), n) % 4 == 0)
    {
        FILE *f = fopen(p_in, "wb");
        if (!f || fwrite(t.data(), 1, n, f) != n || fclose(f)) harness_error("cannot write %s", p_in);
        unlink(p_out);
        Call d = {NULL, 0, true, {false, "", NULL}};
        perform(d);
        Bytes got(n + 64);
        size_t k = 0;
        if ((f = fopen(p_out, "rb")))
        {
            k = fread(got.data(), 1, got.size(), f);
            fclose(f);
        }
        fprintf(fo, " file %zu %016llx %d", k, (unsigned long long)hash_bytes(got.data(), k), (int)d.o.threw);
        ctr("file_digests")++;
    }
    fputc('\n', fo);
    evaluated(hash_bytes(t.data(), n), n > 2);
}
int main(int argc, char **argv)
{
    parse_args(argc, argv);
    fo = g_out ? fopen(g_out, "w") : stdout;
    if (!fo) harness_error("cannot open %s", g_out);
    if (getenv("VERIF_AMBIENT")) amb = getenv("VERIF_AMBIENT");
    snprintf(p_in, sizeof p_in, "%s/det-%d.in", g_tmp, (int)getpid());
    snprintf(p_out, sizeof p_out, "%s/det-%d.out", g_tmp, (int)getpid());
    if (is("fd0")) close(0);
    if (is("umask") && (umask(027), chdir("/"))) harness_error("chdir");
    if (is("locale") && !setlocale(LC_ALL, "C.UTF-8")) setlocale(LC_ALL, "POSIX");
    if (is("signals"))
    {
        signal(SIGALRM, nothing); // restarting: only the computation is interrupted
        struct itimerval it = {{0, 700}, {0, 700}};
        setitimer(ITIMER_REAL, &it, NULL);
    }
    drive(digest);
    unlink(p_in);
    unlink(p_out);
    fflush(fo);
    print_stats();
    return 0;
}
