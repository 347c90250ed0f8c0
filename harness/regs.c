/* Register allocator: values are never lost, operands are where they are said
 * to be.  Ghost state: the value of every variable, the content of every
 * register and of every variable's memory slot; the emitted ph2 instructions
 * are executed on it. */
#include "vp_tu.h"
#ifndef K
#define K IN_RANGE(0, NVAR - 1)
#endif
#define NVAR 10 /* v[0..7] may sit in registers 0..7; v[8], v[9] only in memory */

static var_t v[NVAR], other;
static basic_block_t bb;
static fn_t fn;
static func_t func;
static insn_t insn;
static vi32 value[NVAR], slot[NVAR], reg[REG_CNT];
static int live[NVAR], out[NVAR], has_slot_before[NVAR];
static int stack0;
static int killed[NVAR];
static ph2_ir_t cur; /* the instruction being built */
static int pending;

/* the memory slot of variable i is its own: what is stored at an offset is
 * read back only by the variable with this offset */
static void exec(const ph2_ir_t *p)
{
    int i, hit = 0;
    int glob = p->op == OP_global_load || p->op == OP_global_store;
    if (p->op == OP_load || p->op == OP_global_load) {
        ENSURE(p->dest >= 0 && p->dest < REG_CNT, "register-number");
        for (i = 0; i < NVAR; i++)
            if (!hit && v[i].is_global == glob && v[i].offset == p->src0) {
                reg[p->dest] = slot[i];
                hit = 1;
            }
        ENSURE(hit, "loads-from-the-slot-of-a-variable");
    } else if (p->op == OP_store || p->op == OP_global_store) {
        ENSURE(p->src0 >= 0 && p->src0 < REG_CNT, "register-number");
        for (i = 0; i < NVAR; i++)
            if (v[i].is_global == glob && v[i].offset == p->src1) {
                slot[i] = reg[p->src0];
                hit = 1;
            }
        ENSURE(hit, "stores-to-the-slot-of-a-variable");
    } else
        ENSURE(0, "only-loads-and-stores");
}
#ifdef VP_CBMC
/* contract of bb_add_ph2_ir: appends one instruction, to be filled in by the
 * caller; an instruction is executed when the next one is begun */
ph2_ir_t *vp_bb_add(basic_block_t *b, opcode_t op)
{
    if (b != &bb)
        vp_giveup();
    if (pending)
        exec(&cur);
    cur.op = op;
    pending = 1;
    return &cur;
}
#endif
#ifdef VP_CBMC
/* contract of spill_var, proved by ob_spill_var */
void vp_spill_var(basic_block_t *b, var_t *x, int idx)
{
    int i;
    ENSURE(b == &bb && idx >= 0 && idx < REG_CNT, "spill-var-precondition");
    for (i = 0; i < REG_CNT; i++)
        if (i == idx) {
            ENSURE(x == &v[i] && REGS[i].var == x, "spill-var-precondition");
            if (REGS[i].polluted) {
                if (!v[i].offset) {
                    v[i].offset = func.stack_size;
                    func.stack_size += 4;
                }
                slot[i] = reg[i];
                REGS[i].polluted = 0;
            }
            REGS[i].var = NULL;
        }
}
/* contract of load_var, proved by ob_load_var */
void vp_load_var(basic_block_t *b, var_t *x, int idx)
{
    int i;
    ENSURE(b == &bb && idx >= 0 && idx < REG_CNT, "load-var-precondition");
    for (i = 0; i < REG_CNT; i++)
        if (i == idx) {
            REGS[i].var = x;
            REGS[i].polluted = 0;
            reg[i] = slot[K];
        }
    ENSURE(x == &v[K] && x->offset, "load-var-precondition");
}
#endif
static void run_code(void)
{
#ifdef VP_CBMC
    if (pending)
        exec(&cur);
#else
    ph2_ir_t *p;
    for (p = bb.ph2_ir_list.head; p; p = p->next)
        exec(p);
#endif
}

/* arbitrary allocator state satisfying the invariant:
 *   a live variable is in at most one register, which holds its value, or
 *   in its memory slot; a clean register agrees with the slot */
enum { ANY, ALIVE_AFTER, ALIVE_NOW, LIVE_OUT };
static void setup(int mode)
{
    int i;
#ifndef VP_CBMC
    global_init();
#endif
    bb.belong_to = &fn;
    fn.func = &func;
    fn.bbs = &bb;
    func.stack_size = stack0 = 48 + 4 * IN_RANGE(0, 1 << 20);
    insn.idx = IN_RANGE(0, 1 << 20);
    for (i = 0; i < NVAR; i++) {
        int where = IN_RANGE(0, 2); /* 0 local without slot, 1 local with slot, 2 global */
        int occupied = 0, need;
        v[i].consumed = IN_RANGE(-1, 1 << 20);
        out[i] = IN_RANGE(0, 1);
        killed[i] = IN_RANGE(0, 1);
        value[i] = IN();
        slot[i] = IN();
        live[i] = mode == ALIVE_AFTER ? out[i] || v[i].consumed > insn.idx
                  : mode == ALIVE_NOW ? out[i] || v[i].consumed >= insn.idx
                  : mode == LIVE_OUT  ? out[i]
                                      : IN_RANGE(0, 1);
        if (i < REG_CNT) {
            occupied = IN_RANGE(0, 1);
            REGS[i].var = occupied ? &v[i] : NULL;
            REGS[i].polluted = IN_RANGE(0, 1);
            reg[i] = IN();
            if (live[i] && occupied)
                reg[i] = value[i];
        }
        /* must memory hold the value? (a value computed in this block belongs
         * to a variable the block kills) */
        need = live[i] && (!occupied || !REGS[i].polluted || (mode == LIVE_OUT && !killed[i]));
        if (need) {
            slot[i] = value[i];
            if (where == 0)
                where = 1;
        }
        v[i].is_global = where == 2;
        v[i].offset = where == 0 ? 0 : 4 + 4 * i;
        has_slot_before[i] = where != 0;
        bb.live_out[bb.live_out_idx++] = out[i] ? &v[i] : &other;
        bb.live_kill[bb.live_kill_idx++] = killed[i] ? &v[i] : &other;
    }
}
static int nregs_of(var_t *x)
{
    int i, n = 0;
    for (i = 0; i < REG_CNT; i++)
        n += REGS[i].var == x;
    return n;
}
static int where_is(var_t *x)
{
    int i, r = -1;
    for (i = 0; i < REG_CNT; i++)
        if (REGS[i].var == x)
            r = i;
    return r;
}
/* every live variable but 'except' can still be found with its value */
static void check_state(int except)
{
    int i, j, r;
    for (i = 0; i < NVAR; i++) {
        r = where_is(&v[i]);
        ENSURE(nregs_of(&v[i]) <= 1, "a-variable-is-in-one-register");
        ENSURE(!has_slot_before[i] || v[i].offset == 4 + 4 * i, "slots-do-not-move");
        ENSURE(v[i].offset == 0 || v[i].is_global || (v[i].offset > 0 && v[i].offset + 4 <= func.stack_size), "slot-inside-the-frame");
        ENSURE(has_slot_before[i] || v[i].offset == 0 || v[i].offset >= stack0, "new-slot-overlaps-nothing");
        for (j = 0; j < i; j++)
            ENSURE(has_slot_before[i] || has_slot_before[j] || v[i].offset == 0 || v[i].offset != v[j].offset, "new-slots-are-different");
        if (!live[i] || i == except)
            continue;
        if (r >= 0)
            ENSURE(reg[r] == value[i], "register-holds-the-value");
        if (r < 0 || !REGS[r].polluted)
            ENSURE(v[i].offset != 0 && slot[i] == value[i], "value-not-in-a-register-is-in-memory");
    }
}

void ob_operand(void)
{
    int k, r, op0, op0val;
    var_t *held;
    setup(ANY);
    k = K;
    op0 = IN_RANGE(-1, REG_CNT - 1);
    REQUIRE(live[k]);
    held = op0 >= 0 ? REGS[op0].var : NULL;
    op0val = op0 >= 0 ? reg[op0] : 0;
    REQUIRE(op0 < 0 || held);
    r = prepare_operand(&bb, &v[k], op0);
    run_code();
    REACH("end");
    ENSURE(r >= 0 && r < REG_CNT, "register-number");
    ENSURE(REGS[r].var == &v[k] && reg[r] == value[k], "operand-is-in-the-returned-register");
    if (op0 >= 0)
        ENSURE(REGS[op0].var == held && reg[op0] == op0val, "first-operand-stays-in-its-register");
    check_state(-1);
}
void ob_dest(void)
{
    int k, r, i, op0, op1;
    vi32 before[REG_CNT];
    setup(ANY);
    k = K;
    op0 = IN_RANGE(-1, REG_CNT - 1);
    op1 = IN_RANGE(-1, REG_CNT - 1);
    for (i = 0; i < REG_CNT; i++)
        before[i] = reg[i];
    REQUIRE(op0 < 0 || REGS[op0].var);
    REQUIRE(op1 < 0 || REGS[op1].var);
    r = prepare_dest(&bb, &v[k], op0, op1);
    run_code();
    REACH("end");
    ENSURE(r >= 0 && r < REG_CNT, "register-number");
    ENSURE(REGS[r].var == &v[k] && REGS[r].polluted, "destination-is-marked-as-modified");
    for (i = 0; i < REG_CNT; i++)
        ENSURE(reg[i] == before[i], "operands-are-not-overwritten");
    check_state(k);
}
void ob_spill_alive(void)
{
    int i;
    setup(ALIVE_AFTER);
    spill_alive(&bb, &insn);
    run_code();
    REACH("end");
    for (i = 0; i < NVAR; i++)
        if (live[i])
            ENSURE(where_is(&v[i]) < 0 && v[i].offset != 0 && slot[i] == value[i], "everything-alive-is-in-memory");
    check_state(-1);
}
void ob_spill_live_out(void)
{
    int i;
    setup(LIVE_OUT);
    spill_live_out(&bb);
    run_code();
    REACH("end");
    for (i = 0; i < REG_CNT; i++)
        ENSURE(!REGS[i].var, "no-register-survives-the-block");
    check_state(-1);
}
void ob_refresh(void)
{
    setup(ALIVE_NOW);
    refresh(&bb, &insn);
    run_code();
    REACH("end");
    check_state(-1);
}
void ob_spill_var(void)
{
    int k, i, was_dirty, old;
    regfile_t before[REG_CNT];
    vi32 rbefore[REG_CNT], sbefore[NVAR], obefore[NVAR];
    setup(ANY);
    k = K;
    REQUIRE(REGS[k].var);
    was_dirty = REGS[k].polluted;
    old = v[k].offset;
    for (i = 0; i < REG_CNT; i++)
        before[i] = REGS[i], rbefore[i] = reg[i];
    for (i = 0; i < NVAR; i++)
        sbefore[i] = slot[i], obefore[i] = v[i].offset;
    spill_var(&bb, REGS[k].var, k);
    run_code();
    REACH("end");
    ENSURE(!REGS[k].var && (!was_dirty || !REGS[k].polluted), "register-is-free");
    ENSURE(func.stack_size == stack0 + (was_dirty && !old ? 4 : 0), "slot-allocated-when-needed");
    ENSURE(v[k].offset == (was_dirty && !old ? stack0 : old), "slot-allocated-when-needed");
    ENSURE(slot[k] == (was_dirty ? reg[k] : sbefore[k]), "value-written-to-its-slot");
    for (i = 0; i < NVAR; i++)
        ENSURE(i == k || (slot[i] == sbefore[i] && v[i].offset == obefore[i]), "other-slots-untouched");
    for (i = 0; i < REG_CNT; i++)
        ENSURE(reg[i] == rbefore[i] && (i == k || (REGS[i].var == before[i].var && REGS[i].polluted == before[i].polluted)), "other-registers-untouched");
    check_state(-1);
}
void ob_load_var(void)
{
    int k, r, i;
    regfile_t before[REG_CNT];
    vi32 rbefore[REG_CNT];
    setup(ANY);
    k = K;
    r = IN_RANGE(0, REG_CNT - 1);
    REQUIRE(v[k].offset);
    for (i = 0; i < REG_CNT; i++)
        before[i] = REGS[i], rbefore[i] = reg[i];
    load_var(&bb, &v[k], r);
    run_code();
    REACH("end");
    for (i = 0; i < REG_CNT; i++)
        if (i == r)
            ENSURE(REGS[i].var == &v[k] && !REGS[i].polluted && reg[i] == slot[k], "register-holds-the-slot");
        else
            ENSURE(reg[i] == rbefore[i] && REGS[i].var == before[i].var && REGS[i].polluted == before[i].polluted, "other-registers-untouched");
}
void ob_align(void)
{
    int n = IN_RANGE(0, 0x7ffffff0), r = align_size(n);
    REACH("end");
    ENSURE(r >= n && r >= 4 && r % 4 == 0 && (n <= 4 ? r == 4 : r < n + 4), "smallest-word-multiple");
}
