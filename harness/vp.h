/* Obligation macros.  The same harness text is read twice:
 *  - by goto-cc/cbmc: inputs are arbitrary, REQUIRE assumes a precondition,
 *    ENSURE states a postcondition/invariant obligation, REACH is a vacuity
 *    canary (an assertion that must fail, i.e. be reachable);
 *  - by gcc (replay): inputs come from a counterexample (or from a seeded
 *    generator), ENSURE reports the first violated obligation.
 */
#ifndef VP_H
#define VP_H
typedef unsigned int vu32;
typedef int vi32;
typedef unsigned char vu8;
typedef unsigned long long vu64;
typedef long long vi64;

#ifdef VP_CBMC
int nondet_vp_int(void);
static int vp_in_raw(void)
{
    int v = nondet_vp_int();
    __CPROVER_input("vp", v);
    return v;
}
static int vp_in_range(int lo, int hi)
{
    int v = vp_in_raw();
    __CPROVER_assume(v >= lo && v <= hi);
    return v;
}
#define REQUIRE(c) __CPROVER_assume(c)
#define ENSURE(c, label) __CPROVER_assert((c), "VP:" label)
#define REACH(label) __CPROVER_assert(0, "VPREACH:" label)
#else
int vp_in_raw(void);
int vp_in_range(int lo, int hi);
void vp_skip(const char *why);
void vp_fail(const char *label);
#define REQUIRE(c)          \
    do {                    \
        if (!(c))           \
            vp_skip(#c);    \
    } while (0)
#define ENSURE(c, label)    \
    do {                    \
        if (!(c))           \
            vp_fail(label); \
    } while (0)
#define REACH(label) ((void) 0)
#endif

#define IN() vp_in_raw()
#define IN_RANGE(lo, hi) vp_in_range((lo), (hi))

/* What happens when the code under contract gives up (error(), abort(),
 * exit()): by default that is a violated obligation; a harness whose
 * precondition admits rejected inputs defines VP_REJECT_OK. */
#ifdef VP_CBMC
int vp_rejecting; /* 0: giving up is a violation, 1: it is an accepted outcome */
static void vp_giveup(void)
{
    __CPROVER_assert(vp_rejecting, "VP:gives-up-on-valid-input");
    __CPROVER_assume(0);
}
#else
extern int vp_rejecting;
void vp_giveup(void);
#endif
#endif
