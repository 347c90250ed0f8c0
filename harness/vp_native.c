/* Native driver: replays a counterexample, or explores seeded inputs. */
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int vp_rejecting;
static int *vals, nvals, pos, explore;
static unsigned long long rng;
static jmp_buf top;
static int verdict; /* 0 held, 1 failed, 2 outside precondition, 3 ran out */
static const char *label = "";
static int seen[4096], nseen;
static unsigned rnd(void)
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return (unsigned) (rng >> 16);
}
static int rec(int v)
{
    if (nseen < 4096)
        seen[nseen++] = v;
    return v;
}
static int corner(void)
{
    static const unsigned c[] = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 127, 128, 255, 256,
        0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu,
        0xfffffff9u, 100, 1000, 4095, 4096, 2047, 2048, 0xfffff800u};
    switch (rnd() & 3) {
    case 0: return (int) c[rnd() % (sizeof(c) / sizeof(*c))];
    case 1: return (int) (rnd() & 255) - 128;
    case 2: return (int) (rnd() >> (rnd() & 31));
    default: return (int) (rnd() ^ (rnd() << 11));
    }
}
int vp_in_raw(void)
{
    if (explore)
        return rec(corner());
    if (pos >= nvals) { verdict = 3; longjmp(top, 1); }
    return vals[pos++];
}
int vp_in_range(int lo, int hi)
{
    if (explore) {
        unsigned long long w = (unsigned long long) ((long long) hi - lo) + 1;
        if (w > 64 && (rnd() & 3)) {
            int v = corner();
            if (v >= lo && v <= hi) return rec(v);
        }
        return rec((int) (lo + (long long) (((unsigned long long) rnd() << 20 ^ rnd()) % w)));
    }
    if (pos >= nvals) { verdict = 3; longjmp(top, 1); }
    int v = vals[pos++];
    if (v < lo || v > hi) { verdict = 2; longjmp(top, 1); }
    return v;
}
void vp_skip(const char *why) { verdict = 2; label = why; longjmp(top, 1); }
void vp_fail(const char *l) { verdict = 1; label = l; longjmp(top, 1); }
void vp_giveup(void)
{
    if (!vp_rejecting) { verdict = 1; label = "gives-up-on-valid-input"; }
    longjmp(top, 1);
}
static sigjmp_buf sj;
static volatile int crashed;
static void onsig(int s) { crashed = s; siglongjmp(sj, 1); }
extern void VP_ENTRY(void);
static void report(void)
{
    if (crashed) printf("VP-FAILED crash-signal-%d\n", (int) crashed);
    else if (verdict == 1) printf("VP-FAILED %s\n", label);
    else if (verdict == 2) printf("VP-OUTSIDE %s\n", label);
    else if (verdict == 3) printf("VP-SHORT\n");
    else printf("VP-HELD\n");
    fflush(stdout);
}
static void once(void)
{
    verdict = 0; crashed = 0; pos = 0; vp_rejecting = 0;
    if (sigsetjmp(sj, 1) == 0) {
        if (setjmp(top) == 0)
            VP_ENTRY();
    }
}

#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
int main(int argc, char **argv)
{
    stack_t ss;
    memset(&ss, 0, sizeof(ss));
    ss.ss_sp = malloc(1 << 16);
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = onsig;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGABRT, &sa, NULL);
    sigaction(SIGALRM, &sa, NULL);
    sigaction(SIGILL, &sa, NULL);
    if (argc > 4 && !strcmp(argv[1], "explore")) {
        int secs = atoi(argv[2]), per = atoi(argv[3]);
        unsigned long long seed = strtoull(argv[4], 0, 10);
        struct shared { int verdict, nseen, seen[4096]; char label[200]; } *sh;
        sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        long t0 = (long) time(NULL), n, held = 0, outside = 0;
        fflush(stdout);
        for (n = 0; (long) time(NULL) - t0 < secs; n++) {
            sh->verdict = -1;
            pid_t p = fork();
            if (p == 0) {
                int i;
                explore = 1;
                rng = (seed * 1000003ull + (unsigned long long) n + 1) * 0x9E3779B97F4A7C15ull;
                for (i = 0; i < 8; i++)
                    rnd();
                nseen = 0;
                alarm(per);
                once();
                alarm(0);
                sh->nseen = nseen;
                memcpy(sh->seen, seen, sizeof(int) * nseen);
                if (crashed) {
                    sprintf(sh->label, "crash-signal-%d", (int) crashed);
                    sh->verdict = 1;
                } else {
                    snprintf(sh->label, 200, "%s", label);
                    sh->verdict = verdict;
                }
                _exit(0);
            }
            int st;
            if (p < 0 || waitpid(p, &st, 0) < 0)
                break;
            if (sh->verdict == 1) {
                int i;
                printf("VP-FAILED %s\nVP-INPUTS", sh->label);
                for (i = 0; i < sh->nseen; i++)
                    printf(" %d", sh->seen[i]);
                printf("\n");
                return 1;
            }
            if (sh->verdict == 0)
                held++;
            else
                outside++;
        }
        printf("VP-EXPLORED %ld %ld\n", n, held);
        return 0;
    }
    vals = malloc(sizeof(int) * (argc + 1));
    for (int i = 1; i < argc; i++)
        vals[nvals++] = (int) strtoll(argv[i], 0, 0);
    alarm(20);
    once();
    report();
    return (crashed || verdict == 1) ? 1 : 0;
}
