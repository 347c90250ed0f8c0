/* Software division, remainder (ARM, RISC-V) and multiplication (RISC-V).
 *
 * The words emitted for the operation form a program with loops.  The loop
 * heads are found in the emitted words themselves (targets of backward
 * branches) and so is the tail after the last loop; the program is cut there and
 * each segment is executed under the ISA specification:
 *     entry -> head|tail, head -> head|next head|tail, tail -> end
 * with the inductive invariants below.  Ghost variables: k (bit position) and
 * G, the multiple of the divisor already taken out (G = Q * D by the recurrence
 * G += D << k whenever Q += 1 << k; the ring lemma is discharged in lemma_*.smt2).
 * All registers are enumerated, all operand values are symbolic, and there is
 * no bound on the number of iterations. */
#include "vp_tu.h"
#define CODEMAX 256
#define MEMLOG 2
#define STACKMEM 16
#define STACKBASE 0x40000000u
#include "exec.h"

static ph2_ir_t ir;
static vu32 W[64];
static int nw, heads[4], nh, tail;

#ifdef ARM
static int is_branch(vu32 w, int *delta)
{
    if ((w & 0x0f000000u) != 0x0a000000u)
        return 0;
    vu32 o = (w & 0xffffff) | ((w & 0x800000) ? 0xff000000u : 0);
    *delta = (vi32) o + 2;
    return 1;
}
#define DVD(rn) (rn)
#define DVS(rm) (rm)
#define QUO 8
#define BIT 9
#else
static int is_branch(vu32 w, int *delta)
{
    if ((w & 127) == 0x6f) {
        vu32 immJ = (((w >> 31) & 1) ? 0xfff00000u : 0) | (w & 0xff000u) | (((w >> 20) & 1) << 11) | (((w >> 21) & 1023) << 1);
        *delta = (vi32) immJ / 4;
        return 1;
    }
    if ((w & 127) == 0x63) {
        vu32 immB = (((w >> 31) & 1) ? 0xfffff000u : 0) | (((w >> 7) & 1) << 11) | (((w >> 25) & 63) << 5) | (((w >> 8) & 15) << 1);
        *delta = (vi32) immB / 4;
        return 1;
    }
    return 0;
}
#define DVD(rn) 7
#define DVS(rm) 28
#define QUO 5
#define BIT 6
#endif

static int head_of[64]; /* 1: a cut point */
static int is_head(int i) { return head_of[i]; }
static void load_program(void)
{
    int i, j, d;
    nw = elf_code_idx / 4;
    tail = 0;
    for (i = 0; i <= nw; i++)
        head_of[i] = 0;
    for (j = 0; j < nw; j++) {
        W[j] = code_word(j);
        if (is_branch(W[j], &d) && d <= 0) {
            tail = j + 1;
            head_of[j + d] = 1;
        }
    }
    nh = 0;
    for (i = 0; i < nw; i++)
        if (head_of[i] && nh < 4)
            heads[nh++] = i;
    head_of[tail] = 1;
}
static void seg(int start)
{
    int i;
    vu32 cur = P + 4 * (vu32) start;
    M.taken = 0;
    for (i = start; i < nw; i++)
        if ((i == start || !is_head(i)) && cur == P + 4 * (vu32) i) {
            M.pc = P + 4 * (vu32) i;
            isa_step(W[i]);
            cur = M.next;
        }
    M.next = cur;
}
#define AT(h) (P + 4 * (vu32) (h))
static vu32 EndA(void) { return P + 4 * (vu32) nw; }

static vu32 stk0[STACKMEM], stkh[STACKMEM];
static vu32 H[NREG];  /* registers at a cut point */
static vu32 RL[NREG]; /* arbitrary registers at a loop head */
static vu32 Hv[8];    /* ghosts and dead registers */
static vu32 LN, LD;   /* arbitrary magnitudes */
static void snap(void)
{
    int i;
    for (i = 0; i < NREG; i++)
        H[i] = M.r[i];
    for (i = 0; i < STACKMEM; i++)
        stkh[i] = stk[i];
}
static void havoc_flags(void)
{
#ifdef ARM
    M.n = IN_RANGE(0, 1);
    M.z = IN_RANGE(0, 1);
    M.c = IN_RANGE(0, 1);
    M.v = IN_RANGE(0, 1);
#endif
}
static void clear(void)
{
    M.ln = M.undef = M.svc = 0;
    M.pc = M.next = P;
}
static void restart(void)
{
    int i;
    for (i = 0; i < STACKMEM; i++)
        stk[i] = stk0[i];
    for (i = 0; i < NREG; i++)
        M.r[i] = R0[i];
    clear();
}
static void at_head(const vu32 *regs)
{
    int i;
    for (i = 0; i < NREG; i++)
        M.r[i] = regs[i];
    clear();
    havoc_flags();
}
/* everything but the loop's own registers is as it was at the head */
static void loop_frame(int a, int b, int c, int e)
{
    int i, ok = 1;
    for (i = 0; i < NREG; i++)
        if (i != a && i != b && i != c && i != e && !(i == 15 && NREG == 16) && M.r[i] != RL[i])
            ok = 0;
    for (i = 0; i < STACKMEM; i++)
        if (stk[i] != stk0[i])
            ok = 0;
    ENSURE(ok && M.ln == 0 && !M.undef && !M.svc, "loop-touches-only-its-registers");
}
static void post(int rd)
{
    int i, ok = M.ln == 0;
    ENSURE(M.next == EndA(), "falls-through-to-next-operation");
    frame(REG(rd), 0);
    ENSURE(!M.undef && !M.svc, "architecturally-defined");
    for (i = STACKMEM / 2; i < STACKMEM; i++)
        if (stk[i] != stk0[i])
            ok = 0;
    ENSURE(ok, "memory-at-and-above-the-stack-pointer-unchanged");
}
static vu32 mag(vu32 x) { return (x >> 31) ? 0u - x : x; }

/* words between the first head and the tail that are already proved */
static vu32 C[4][64];
static int Cn[4], Ch[4], nc;
static int proved(void)
{
    int i, j, n = tail - heads[0], same;
    for (j = 0; j < nc; j++) {
        same = Cn[j] == n && Ch[j] == (nh > 1 ? heads[1] - heads[0] : 0);
        for (i = 0; i < n; i++)
            if (C[j][i] != W[heads[0] + i])
                same = 0;
        if (same)
            return 1;
    }
    if (nc < 4) {
        for (i = 0; i < n; i++)
            C[nc][i] = W[heads[0] + i];
        Cn[nc] = n;
        Ch[nc] = nh > 1 ? heads[1] - heads[0] : 0;
        nc++;
    }
    return 0;
}

/* the two loops, for arbitrary magnitudes and arbitrary other registers */
static void loops(int d, int v)
{
    vu32 N = LN, D = LD, Q, G;
    int k = (int) Hv[0], i;
    if (proved())
        return;
    for (i = 0; i < STACKMEM; i++)
        stk[i] = stk0[i];
    /* the scaling loop: divisor = D << k, bit = 1 << k, no bit of D lost */
    at_head(RL);
    M.r[d] = N;
    M.r[v] = D << k;
    M.r[QUO] = 0;
    M.r[BIT] = 1u << k;
    seg(heads[0]);
    loop_frame(d, v, QUO, BIT);
    if ((((vu64) D << k) >> 32) == 0 && (k == 0 || ((vu64) D << (k - 1)) < N)) {
        ENSURE(M.next == AT(heads[0]) || M.next == AT(heads[1]), "scaling-loop-successors");
        if (M.next == AT(heads[0])) {
            ENSURE(k < 31 && M.r[d] == N && M.r[v] == D << (k + 1) && M.r[QUO] == 0 && M.r[BIT] == 2u << k &&
                       ((vu64) D << (k + 1)) >> 32 == 0 && ((vu64) D << k) < N,
                   "scaling-invariant-preserved");
        } else {
            ENSURE(M.r[d] == N && M.r[v] == D << k && M.r[QUO] == 0 && M.r[BIT] == 1u << k && (vu64) N < ((vu64) D << k) * 2,
                   "subtraction-invariant-initially");
        }
    }
    /* the subtraction loop: N = G + R, R < 2 * (D << k), G = Q * D (ghost) */
    Q = Hv[1];
    G = Hv[2];
    at_head(RL);
    M.r[d] = N - G;
    M.r[v] = D << k;
    M.r[QUO] = Q;
    M.r[BIT] = 1u << k;
    seg(heads[1]);
    loop_frame(d, v, QUO, BIT);
    if (G <= N && (((vu64) D << k) >> 32) == 0 && (vu64) (N - G) < ((vu64) D << k) * 2) {
        vu32 sh = D << k, bit = 1u << k, took, G2;
        ENSURE(M.next == AT(heads[1]) || M.next == AT(tail), "subtraction-loop-successors");
        took = M.r[QUO] != Q;
        G2 = took ? G + sh : G;
        ENSURE(M.r[QUO] == Q || M.r[QUO] == Q + bit, "quotient-grows-by-the-bit");
        ENSURE(!took || N - G >= sh, "taken-multiple-fits");
        ENSURE(M.r[d] == N - G2, "remainder-follows-the-multiple");
        if (M.next == AT(heads[1])) {
            ENSURE(k > 0, "subtraction-loop-terminates");
            ENSURE(M.r[v] == D << (k - 1) && M.r[BIT] == 1u << (k - 1) && (vu64) (N - G2) < (vu64) sh,
                   "subtraction-invariant-preserved");
        } else {
            ENSURE(N - G2 < D, "remainder-smaller-than-divisor");
        }
    }
}
#define CHECK(c, label) ENSURE(!valid || (c), label)
/* words of the entry segment whose obligations are already generated */
static vu32 EC[64];
static int En, Eop, Ern, Erm;
static int entry_proved(opcode_t op, int rn, int rm)
{
    int i, same = En == heads[0] && Eop == op + 1 && Ern == rn && Erm == rm && DVD(rn) != DVS(rm);
    for (i = 0; i < heads[0]; i++)
        if (EC[i] != W[i])
            same = 0;
    if (same)
        return 1;
    for (i = 0; i < heads[0]; i++)
        EC[i] = W[i];
    En = heads[0];
    Eop = op + 1;
    Ern = rn;
    Erm = rm;
    return 0;
}
static void tail_part(int rd, opcode_t op, int rn, int rm, int valid, vu32 neg)
{
    int d = DVD(rn), v = DVS(rm);
    /* the tail: quotient and remainder magnitudes in place, sign still to come */
    {
        vu32 x, R = Hv[5], Q = Hv[1];
        at_head(H);
        M.r[d] = R;
        M.r[v] = Hv[3];
        M.r[QUO] = Q;
        M.r[BIT] = Hv[4];
        seg(tail);
        x = M.r[REG(rd)];
        if (op == OP_div)
            CHECK(x == (neg ? 0u - Q : Q), "signed-quotient");
        else
            CHECK(x == (neg ? 0u - R : R), "signed-remainder");
        if (valid)
            post(rd);
    }
}
static void one(opcode_t op, int rd, int rn, int rm)
{
    vu32 a, b, N, D, neg;
    int valid, d = DVD(rn), v = DVS(rm);
    init_ir(&ir, op);
    ir.dest = rd;
    ir.src0 = rn;
    ir.src1 = rm;
    hard_mul_div = 0;
    place(0, P);
    emit_ph2_ir(&ir);
    load_program();
    ENSURE(nh == 2 && heads[0] < heads[1], "shape:two-loops");
    restart();
    a = R0[REG(rn)];
    b = R0[REG(rm)];
    N = mag(a);
    D = mag(b);
    neg = op == OP_div ? (a >> 31) ^ (b >> 31) : (a >> 31);
    /* otherwise undefined behaviour of the source program */
    valid = !(b == 0 || (a == 0x80000000u && b == 0xffffffffu));
    if (entry_proved(op, rn, rm)) {
        int i;
        for (i = 0; i < STACKMEM; i++)
            stk[i] = stkh[i];
        tail_part(rd, op, rn, rm, valid, neg);
        loops(d, v);
        return;
    }
    seg(0);
    if (d == v) {
        /* dividend and divisor share the register: at most two steps */
        int t, c;
        vu32 x;
        for (t = 0; t < 3; t++)
            for (c = 0; c < 3; c++) {
                int start = c == 2 ? tail : heads[c];
                if (M.next == AT(start))
                    seg(start);
            }
        x = M.r[REG(rd)];
        CHECK(M.next == EndA(), "self-division-terminates");
        if (M.next == EndA()) {
            CHECK(x == (op == OP_div ? 1u : 0u), "self-division-result");
            if (valid)
                post(rd);
        }
        return;
    }
    CHECK(!M.undef && !M.svc && M.ln == 0, "architecturally-defined");
    CHECK(M.next == AT(heads[0]) || M.next == AT(tail), "entry-reaches-a-cut-point");
    CHECK(M.r[d] == N && M.r[QUO] == 0, "dividend-magnitude-and-zero-quotient");
    if (M.next == AT(heads[0]))
        CHECK(M.r[v] == D && M.r[BIT] == 1, "scaling-invariant-initially");
    else
        CHECK(N < D, "short-cut-only-when-quotient-is-zero");
    snap();
    tail_part(rd, op, rn, rm, valid, neg);
    loops(d, v);
}
static void world(void)
{
    int i;
    init_machine();
    R0[SP] = M.r[SP] = STACKBASE; /* only ever used as a base address */
    P = 0x10000;
    for (i = 0; i < STACKMEM; i++)
        stk[i] = stk0[i] = (vu32) IN();
    for (i = 0; i < NREG; i++)
        RL[i] = (vu32) IN();
    RL[SP] = STACKBASE;
#ifdef RV
    RL[0] = 0;
#endif
    Hv[0] = (vu32) IN_RANGE(0, 31);
    for (i = 1; i < 8; i++)
        Hv[i] = (vu32) IN();
    LN = (vu32) IN();
    LD = (vu32) IN();
    REQUIRE(LD != 0 && LD <= 0x80000000u && LN <= 0x80000000u);
}
#ifndef RN
#define RN 0
#endif
/* quick tier: every aliasing class of the destination plus the extremes;
 * thorough tier: every destination */
#ifdef ALLRD
#define USE_RD(rd, rn, rm) 1
#else
#define USE_RD(rd, rn, rm) ((rd) == (rn) || (rd) == (rm) || (rd) == 0 || (rd) == 7)
#endif
#ifndef RM0
#define RM0 0
#define RM1 (REG_CNT - 1)
#endif
static void all(opcode_t op)
{
    int rd, rm;
    for (rm = RM0; rm <= RM1; rm++)
        for (rd = 0; rd < REG_CNT; rd++)
            if (USE_RD(rd, RN, rm))
                one(op, rd, RN, rm);
}
void ob_divmod(void)
{
    world();
    all(OP_div);
    all(OP_mod);
    REACH("end");
}

/* multiplication: t3 = A << k, t4 = B >> k, acc = G where G_0 = 0 and
 * G_{k+1} = G_k + (bit k of B ? A << k : 0), so G_32 = A * B (mod 2^32) */
#ifdef RV
static void one_mul(int rd, int rn, int rm)
{
    vu32 A, B, G, x3, x4;
    int k, bit;
    init_ir(&ir, OP_mul);
    ir.dest = rd;
    ir.src0 = rn;
    ir.src1 = rm;
    hard_mul_div = 0;
    place(0, P);
    emit_ph2_ir(&ir);
    load_program();
    ENSURE(nh == 1, "shape:one-loop");
    restart();
    A = R0[REG(rn)];
    B = R0[REG(rm)];
    seg(0);
    ENSURE(M.next == AT(heads[0]), "entry-reaches-the-loop");
    ENSURE(M.r[28] == A && M.r[29] == B && M.r[5] == 0, "invariant-initially");
    ENSURE(!M.undef && !M.svc && M.ln == 0, "architecturally-defined");
    snap();
    G = Hv[1];
    at_head(H);
    M.r[28] = Hv[3];
    M.r[29] = Hv[4];
    M.r[5] = G;
    M.r[6] = Hv[2];
    seg(tail);
    ENSURE(M.r[REG(rd)] == G, "product-delivered");
    post(rd);
    if (proved())
        return;
    k = (int) (Hv[0]) + (int) (Hv[7] & 1); /* 0..32 */
    A = LN;
    B = Hv[6];
    x3 = k < 32 ? A << k : 0;
    x4 = k < 32 ? B >> k : 0;
    bit = (int) (x4 & 1);
    for (int i = 0; i < STACKMEM; i++)
        stk[i] = stk0[i];
    at_head(RL);
    M.r[28] = x3;
    M.r[29] = x4;
    M.r[5] = G;
    M.r[6] = Hv[2];
    seg(heads[0]);
    loop_frame(5, 6, 28, 29);
    if (M.next == AT(heads[0])) {
        ENSURE(k < 32, "loop-terminates");
        ENSURE(M.r[28] == (k + 1 < 32 ? A << (k + 1) : 0) && M.r[29] == (k + 1 < 32 ? B >> (k + 1) : 0), "operands-shifted");
        ENSURE(M.r[5] == (bit ? G + x3 : G), "accumulator-follows-the-recurrence");
    } else {
        ENSURE(M.next == AT(tail), "loop-exit");
        ENSURE(M.r[5] == G && (x3 == 0 || x4 == 0), "nothing-left-to-add");
    }
}
void ob_mul(void)
{
    int rd, rm, rn = RN;
    world();
        for (rm = 0; rm < REG_CNT; rm++)
            for (rd = 0; rd < REG_CNT; rd++)
                if (USE_RD(rd, rn, rm))
                    one_mul(rd, rn, rm);
    REACH("end");
}
#endif

/* whole-run execution on concrete operands (native exploration / replay) */
static void whole(opcode_t op)
{
    int rd = IN_RANGE(0, REG_CNT - 1), rn = IN_RANGE(0, REG_CNT - 1), rm = IN_RANGE(0, REG_CNT - 1), steps;
    vu32 a, b, want;
    world();
    init_ir(&ir, op);
    ir.dest = rd;
    ir.src0 = rn;
    ir.src1 = rm;
    place(0, P);
    hard_mul_div = 0;
    emit_ph2_ir(&ir);
    load_program();
    a = R0[REG(rn)];
    b = R0[REG(rm)];
    if (op != OP_mul)
        REQUIRE(b != 0 && !(a == 0x80000000u && b == 0xffffffffu));
    want = op == OP_mul ? a * b : op == OP_div ? (vu32) ((vi32) a / (vi32) b) : (vu32) ((vi32) a % (vi32) b);
    for (steps = 0; steps < 2000 && M.next - P < 4 * (vu32) nw; steps++) {
        M.pc = M.next;
        M.ln = M.ln > MEMLOG - 8 ? M.ln : M.ln;
        isa_step(W[(M.pc - P) / 4]);
    }
    ENSURE(M.next == EndA(), "terminates-at-the-end");
    ENSURE(M.r[REG(rd)] == want, "result");
    post(rd);
}
void ob_run_divmod(void) { whole(IN_RANGE(0, 1) ? OP_div : OP_mod); }
void ob_run_mul(void) { whole(OP_mul); }
