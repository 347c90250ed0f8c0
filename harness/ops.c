/* Contract of emit_ph2_ir: for each IR operation, the words appended to the
 * code section, executed under the ISA specification, compute the C result and
 * change nothing else. */
#include "vp_tu.h"
#ifdef REGOPS
#define ISA_NOMEM
#endif
#define ISA_NOMULTI
#ifndef MEMLOG
#define MEMLOG 8
#endif
#include "exec.h"
#define MAXW 8

static ph2_ir_t ir, ir2;
static basic_block_t bb_a, bb_b;
static func_t fun;
static fn_t fun_fn;

static vu32 asr(vu32 a, vu32 b) { return (a >> b) | ((a >> 31) && b ? ~(0xffffffffu >> b) : 0); }

static void finish(vu32 next)
{
    ENSURE(!M.undef, "architecturally-defined");
    ENSURE(!M.svc, "no-system-call");
    ENSURE(M.next == next, "continues-at-the-right-place");
}
#ifdef REGOPS
static void binop(opcode_t op)
{
    int rd, rn, rm;
    vu32 a, b, want = 0;
    init_ir(&ir, op);
    rd = ir.dest = IN_RANGE(0, REG_CNT - 1);
    rn = ir.src0 = IN_RANGE(0, REG_CNT - 1);
    rm = ir.src1 = IN_RANGE(0, REG_CNT - 1);
    init_machine();
    place(0, (vu32) IN() & ~3u);
    a = R0[REG(rn)];
    b = R0[REG(rm)];
    switch (op) {
    case OP_add: want = a + b; break;
    case OP_sub: want = a - b; break;
    case OP_mul: want = vp_mul(a, b); break;
    case OP_bit_and: want = a & b; break;
    case OP_bit_or: want = a | b; break;
    case OP_bit_xor: want = a ^ b; break;
    case OP_lshift: REQUIRE(b < 32); want = a << b; break;
    case OP_rshift: REQUIRE(b < 32); want = asr(a, b); break;
    case OP_eq: want = a == b; break;
    case OP_neq: want = a != b; break;
    case OP_lt: want = (vi32) a < (vi32) b; break;
    case OP_leq: want = (vi32) a <= (vi32) b; break;
    case OP_gt: want = (vi32) a > (vi32) b; break;
    case OP_geq: want = (vi32) a >= (vi32) b; break;
    case OP_negate: want = 0u - a; break;
    case OP_bit_not: want = ~a; break;
    case OP_log_not: want = a == 0; break;
    case OP_assign: want = a; break;
    case OP_div: REQUIRE(b != 0 && !(a == 0x80000000u && b == 0xffffffffu)); want = vp_sdiv(a, b); break;
    case OP_mod: REQUIRE(b != 0 && !(a == 0x80000000u && b == 0xffffffffu)); want = vp_srem(a, b); break;
    default: break;
    }
#ifdef HARD
    hard_mul_div = 1;
#else
    hard_mul_div = 0;
#endif
    emit_ph2_ir(&ir);
    run(MAXW);
    REACH("end");
    finish(END());
    ENSURE(M.r[REG(rd)] == want, "result");
    frame(REG(rd), 0);
}
#define B(x) void ob_##x(void) { binop(OP_##x); }
B(add) B(sub) B(mul) B(bit_and) B(bit_or) B(bit_xor) B(lshift) B(rshift)
B(eq) B(neq) B(lt) B(leq) B(gt) B(geq) B(negate) B(bit_not) B(log_not) B(assign) B(div) B(mod)

void ob_load_constant(void)
{
    int rd;
    init_ir(&ir, OP_load_constant);
    rd = ir.dest = IN_RANGE(0, REG_CNT - 1);
    ir.src0 = IN();
    init_machine();
    place(0, (vu32) IN() & ~3u);
    vu32 want = (vu32) ir.src0;
    emit_ph2_ir(&ir);
    run(MAXW);
    REACH("end");
    finish(END());
    ENSURE(M.r[REG(rd)] == want, "any-32-bit-constant");
    frame(REG(rd), 0);
}
static void addr_of(opcode_t op, int base)
{
    int rd;
    init_ir(&ir, op);
    rd = ir.dest = IN_RANGE(0, REG_CNT - 1);
    ir.src0 = IN_RANGE(0, 0x7fffffff);
    init_machine();
    place(0, (vu32) IN() & ~3u);
    vu32 want = R0[base] + (vu32) ir.src0;
    emit_ph2_ir(&ir);
    run(MAXW);
    REACH("end");
    finish(END());
    ENSURE(M.r[REG(rd)] == want, "base-plus-offset");
    frame(REG(rd), 0);
}
void ob_address_of(void) { addr_of(OP_address_of, SP); }
void ob_global_address_of(void) { addr_of(OP_global_address_of, GP); }

void ob_load_data_address(void)
{
    int rd;
    init_ir(&ir, OP_load_data_address);
    rd = ir.dest = IN_RANGE(0, REG_CNT - 1);
    ir.src0 = IN_RANGE(0, MAX_DATA);
    elf_data_start = IN();
    init_machine();
    place(0, (vu32) IN() & ~3u);
    vu32 want = (vu32) (elf_data_start + ir.src0);
    emit_ph2_ir(&ir);
    run(MAXW);
    REACH("end");
    finish(END());
    ENSURE(M.r[REG(rd)] == want, "data-section-plus-offset");
    frame(REG(rd), 0);
}
#define OFS() (IN_RANGE(0, MAX_CODE / 4) * 4)
/* control transfers: position and targets arbitrary, word aligned, within the
 * code capacity; the code is loaded at elf_code_start */
static vu32 T_a, T_b;
static void control_setup(void)
{
    elf_code_start = IN() & ~3;
    bb_a.elf_offset = OFS();
    bb_b.elf_offset = OFS();
    int at = OFS();
    init_machine();
    place(at, (vu32) (elf_code_start + at));
    T_a = (vu32) (elf_code_start + bb_a.elf_offset);
    T_b = (vu32) (elf_code_start + bb_b.elf_offset);
}
/* blocks start at operation boundaries: never inside this operation */
static void targets_outside(void)
{
    REQUIRE(T_a == P || T_a - P >= END() - P);
    REQUIRE(T_b == P || T_b - P >= END() - P);
}
void ob_jump(void)
{
    init_ir(&ir, OP_jump);
    control_setup();
    ir.next_bb = &bb_a;
    emit_ph2_ir(&ir);
    targets_outside();
    run(MAXW);
    REACH("end");
    finish(T_a);
    frame(-1, 0);
}
void ob_branch(void)
{
    int rn;
    init_ir(&ir, OP_branch);
    rn = ir.src0 = IN_RANGE(0, REG_CNT - 1);
    ir.is_branch_detached = IN_RANGE(0, 1);
    control_setup();
    ir.then_bb = &bb_a;
    ir.else_bb = &bb_b;
    vu32 c = R0[REG(rn)];
    emit_ph2_ir(&ir);
    targets_outside();
    /* the layout marks a branch as attached only if the else block follows it */
    if (!ir.is_branch_detached)
        REQUIRE(T_b == END());
    run(MAXW);
    REACH("end");
    finish(c ? T_a : T_b);
    frame(-1, 0);
}
static void functions(void)
{
    FUNCS_MAP = hashmap_create(4);
    fun.fn = &fun_fn;
    fun_fn.bbs = &bb_a;
    hashmap_put(FUNCS_MAP, "callee", &fun);
}
void ob_call(void)
{
    functions();
    init_ir(&ir, OP_call);
    strcpy(ir.func_name, "callee");
    control_setup();
    emit_ph2_ir(&ir);
    targets_outside();
    run(MAXW);
    REACH("end");
    finish(T_a);
    ENSURE(M.r[LR] == END(), "returns-after-the-call");
    frame(-1, 1);
}
void ob_indirect(void)
{
    int rn;
    init_ir(&ir, OP_load_func);
    init_ir(&ir2, OP_indirect);
    rn = ir.src0 = IN_RANGE(0, REG_CNT - 1);
    control_setup();
    REQUIRE((R0[REG(rn)] & 3) == 0);
    emit_ph2_ir(&ir);
    emit_ph2_ir(&ir2);
    run(MAXW);
    REACH("end");
    finish(R0[REG(rn)]);
    ENSURE(M.r[LR] == END(), "returns-after-the-call");
    frame(-1, 1);
}
#else
static void load(opcode_t op, int base)
{
    int rd;
    vu32 want;
    init_ir(&ir, op);
    rd = ir.dest = IN_RANGE(0, REG_CNT - 1);
    ir.src0 = IN_RANGE(0, 0x7fffffff);
    init_machine();
    place(0, (vu32) IN() & ~3u);
    want = mem_rd32(R0[base] + (vu32) ir.src0);
    emit_ph2_ir(&ir);
    run(MAXW);
    REACH("end");
    finish(END());
    ENSURE(M.r[REG(rd)] == want, "word-at-base-plus-offset");
    frame(REG(rd), 0);
    ENSURE(mem_frame(0, 0, R0[SP] - 64, 64), "memory-unchanged");
}
void ob_load(void) { load(OP_load, SP); }
void ob_global_load(void) { load(OP_global_load, GP); }
static void store(opcode_t op, int base)
{
    int rn;
    vu32 at;
    init_ir(&ir, op);
    rn = ir.src0 = IN_RANGE(0, REG_CNT - 1);
    ir.src1 = IN_RANGE(0, 0x7fffffff);
    init_machine();
    place(0, (vu32) IN() & ~3u);
    at = R0[base] + (vu32) ir.src1;
    emit_ph2_ir(&ir);
    run(MAXW);
    REACH("end");
    finish(END());
    ENSURE(mem_rd32(at) == R0[REG(rn)], "word-stored-at-base-plus-offset");
    frame(-1, 0);
    ENSURE(mem_frame(at, 4, R0[SP] - 64, 64), "other-memory-unchanged");
}
void ob_store(void) { store(OP_store, SP); }
void ob_global_store(void) { store(OP_global_store, GP); }
static void rd_mem(int size)
{
    int rd, rn;
    vu32 want;
    init_ir(&ir, OP_read);
    rd = ir.dest = IN_RANGE(0, REG_CNT - 1);
    rn = ir.src0 = IN_RANGE(0, REG_CNT - 1);
    ir.src1 = size;
    init_machine();
    place(0, (vu32) IN() & ~3u);
    want = size == 4 ? mem_rd32(R0[REG(rn)]) : mem_rd8(R0[REG(rn)]);
#ifdef RV
    if (size == 1 && (want & 0x80))
        want |= 0xffffff00u;
#endif
    emit_ph2_ir(&ir);
    run(MAXW);
    REACH("end");
    finish(END());
    ENSURE(M.r[REG(rd)] == want, "value-at-pointer");
    frame(REG(rd), 0);
    ENSURE(mem_frame(0, 0, R0[SP] - 64, 64), "memory-unchanged");
}
void ob_read1(void) { rd_mem(1); }
void ob_read4(void) { rd_mem(4); }
static void wr_mem(int size)
{
    int rn, rm;
    vu32 at, v;
    init_ir(&ir, OP_write);
    rn = ir.src0 = IN_RANGE(0, REG_CNT - 1);
    rm = ir.src1 = IN_RANGE(0, REG_CNT - 1);
    ir.dest = size;
    init_machine();
    place(0, (vu32) IN() & ~3u);
    at = R0[REG(rn)];
    v = R0[REG(rm)];
    emit_ph2_ir(&ir);
    run(MAXW);
    REACH("end");
    finish(END());
    ENSURE(size == 4 ? mem_rd32(at) == v : mem_rd8(at) == (vu8) v, "value-stored-at-pointer");
    frame(-1, 0);
    ENSURE(mem_frame(at, size, R0[SP] - 64, 64), "other-memory-unchanged");
}
void ob_write1(void) { wr_mem(1); }
void ob_write4(void) { wr_mem(4); }

void ob_address_of_func(void)
{
    int rn;
    FUNCS_MAP = hashmap_create(4);
    fun.fn = &fun_fn;
    fun_fn.bbs = &bb_a;
    hashmap_put(FUNCS_MAP, "callee", &fun);
    init_ir(&ir, OP_address_of_func);
    strcpy(ir.func_name, "callee");
    rn = ir.src0 = IN_RANGE(0, REG_CNT - 1);
    elf_code_start = IN() & ~3;
    bb_a.elf_offset = IN_RANGE(0, MAX_CODE / 4) * 4;
    init_machine();
    place(0, (vu32) IN() & ~3u);
    vu32 want = (vu32) (elf_code_start + bb_a.elf_offset), at = R0[REG(rn)];
    emit_ph2_ir(&ir);
    run(MAXW);
    REACH("end");
    finish(END());
    ENSURE(mem_rd32(at) == want, "entry-address-stored");
    frame(-1, 0);
    ENSURE(mem_frame(at, 4, R0[SP] - 64, 64), "other-memory-unchanged");
}
/* entry and return: whatever the body does to its own frame and to registers,
 * the caller's stack pointer comes back and control returns to the caller */
void ob_frame_discipline(void)
{
    int S, rv, i, slot;
    vu32 sp_in, val, v[REG_CNT];
    init_ir(&ir, OP_define);
    init_ir(&ir2, OP_return);
    S = IN_RANGE(1, 0x1000000) * 4; /* frame size: 4 + local slots */
    ir.src0 = S;
    ir2.src1 = S;
    rv = ir2.src0 = IN_RANGE(-1, REG_CNT - 1);
    init_machine();
    place(0, (vu32) IN() & ~3u);
    REQUIRE((R0[LR] & 3) == 0);
    REQUIRE(R0[SP] > 0x8000000u); /* there is room for the frame */
    emit_ph2_ir(&ir);
    run(MAXW);
    ENSURE(!M.undef && !M.svc && M.next == END(), "entry-falls-into-the-body");
    sp_in = M.r[SP];
    ENSURE(R0[SP] - sp_in >= (vu32) S && R0[SP] - sp_in < 0x8000000u && (sp_in & 3) == 0, "frame-has-room-for-all-locals");
    ENSURE(mem_frame(sp_in, R0[SP] - sp_in, 0, 0), "callers-memory-untouched");
    for (i = 0; i < REG_CNT; i++)
        ENSURE(M.r[REG(i)] == R0[REG(i)], "arguments-arrive-unchanged");
    ENSURE(M.r[GP] == R0[GP], "global-base-unchanged");
    /* the body: any store to any local slot, any register contents */
    slot = IN_RANGE(1, 0x1000000);
    if (slot * 4 < S)
        mem_wr32(sp_in + 4 * (vu32) slot, (vu32) IN());
    for (i = 0; i < NREG; i++)
        if (i != SP && i != GP && (i != 0 || NREG == 16))
            M.r[i] = (vu32) IN();
    for (i = 0; i < REG_CNT; i++)
        v[i] = M.r[REG(i)];
    val = rv >= 0 ? v[rv] : 0;
    int from = (elf_code_idx - base_idx) / 4;
    M.next = END();
    emit_ph2_ir(&ir2);
    run_from(from, 2 * MAXW);
    REACH("end");
    ENSURE(!M.undef && !M.svc, "architecturally-defined");
    ENSURE(M.next == R0[LR], "returns-to-the-caller");
    ENSURE(M.r[SP] == R0[SP], "stack-pointer-restored");
    ENSURE(M.r[GP] == R0[GP], "global-base-preserved");
    ENSURE(rv < 0 || M.r[REG(0)] == val, "return-value-delivered");
}
#endif
