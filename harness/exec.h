/* Harness support for executing emitted words.  Needs vp_tu.h and ARM or RV. */
#ifndef EXEC_H
#define EXEC_H
#ifdef ARM
#include "isa_arm.h"
#else
#include "isa_rv.h"
#endif
#ifndef CODEMAX
#define CODEMAX 64
#endif
static char codebuf[CODEMAX];
static vu32 R0[NREG];
static vu32 P; /* address of the first emitted word */
static int base_idx;

static vu32 code_word(int i)
{
    return (vu32) (vu8) codebuf[4 * i] | (vu32) (vu8) codebuf[4 * i + 1] << 8 |
           (vu32) (vu8) codebuf[4 * i + 2] << 16 | (vu32) (vu8) codebuf[4 * i + 3] << 24;
}
/* machine state before the operation: arbitrary */
static void init_machine(void)
{
    int i;
    for (i = 0; i < NREG; i++)
        R0[i] = (vu32) IN();
    R0[SP] &= ~3u; /* the stack and the global area are word aligned */
    R0[GP] &= ~3u;
#ifdef RV
    R0[0] = 0;
#endif
    for (i = 0; i < NREG; i++)
        M.r[i] = R0[i];
#ifdef ARM
    M.n = IN_RANGE(0, 1);
    M.z = IN_RANGE(0, 1);
    M.c = IN_RANGE(0, 1);
    M.v = IN_RANGE(0, 1);
#endif
}
static void place(int idx, vu32 addr)
{
    base_idx = idx;
    elf_code = codebuf - idx;
    elf_code_idx = idx;
    P = addr;
    M.pc = M.next = P;
}
static void init_ir(ph2_ir_t *ir, opcode_t op)
{
    ir->op = op;
    ir->dest = ir->src0 = ir->src1 = 0;
    ir->func_name[0] = 0;
    ir->next_bb = ir->then_bb = ir->else_bb = NULL;
    ir->next = NULL;
    ir->is_branch_detached = false;
}
/* run the words from index 'from' in order; forward branches skip */
static void run_from(int from, int maxwords)
{
    int i, n = (elf_code_idx - base_idx) / 4;
    vu32 cur = M.next;
    ENSURE(((elf_code_idx - base_idx) & 3) == 0 && n >= from && n <= maxwords, "emits-whole-words");
    for (i = from; i < maxwords; i++)
        if (i < n && cur == P + 4 * (vu32) i) {
            M.pc = P + 4 * (vu32) i;
            isa_step(code_word(i));
            cur = M.next;
        }
    M.next = cur;
}
#define run(m) run_from(0, m)
static vu32 END(void) { return P + (vu32) (elf_code_idx - base_idx); }

/* registers that may hold live variables, bases and the link register */
static void frame(int rd, int lr_may_change)
{
    int i, ok = 1;
    for (i = 0; i < NREG; i++)
        if (!SCRATCH(i) && i != rd && !(i == LR && lr_may_change) && i != 15 * (NREG == 16) && M.r[i] != R0[i])
            ok = 0;
    ENSURE(ok, "other-registers-unchanged");
}
#endif
