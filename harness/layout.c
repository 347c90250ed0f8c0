/* Layout contract: the size reserved for an operation equals the size emitted,
 * block offsets equal emitted positions, and the start-up, exit and system-call
 * stubs hand control and arguments over correctly. */
#include "vp_tu.h"
#ifdef SIZES
#define CODEMAX 256
#else
#define CODEMAX 1024
#endif
#define ISA_NOMULTI
#ifndef MEMLOG
#define MEMLOG 12
#endif
#include "exec.h"

static ph2_ir_t pool[32];
static basic_block_t bb[8];
static func_t f_sys, f_main, f_other;
static fn_t n_glob, n_sys, n_main, n_other;

static ph2_ir_t *flatbuf[64];
/* contracts used in place of two callees (cbmc only): find_func delivers the
 * function of that name (C12), add_ph2_ir appends a fresh operation */
static ph2_ir_t fresh0, fresh1;
static int nfresh;
func_t *vp_find_func(char *name)
{
    return name[0] == '_' ? &f_sys : &f_other;
}
ph2_ir_t *vp_add_ph2_ir(opcode_t op)
{
    ph2_ir_t *p = nfresh ? &fresh1 : &fresh0;
    nfresh++;
    p->op = op;
    PH2_IR_FLATTEN[ph2_ir_idx++] = p;
    return p;
}
static void functions(void)
{
#ifndef VP_CBMC
    FUNCS_MAP = hashmap_create(4);
    hashmap_put(FUNCS_MAP, "__syscall", &f_sys);
    hashmap_put(FUNCS_MAP, "callee", &f_other);
    BB_ARENA = arena_init(4096);
#endif
    nfresh = 0;
    f_sys.fn = &n_sys;
    n_sys.func = &f_sys;
    n_sys.bbs = &bb[6];
    f_main.fn = &n_main;
    n_main.func = &f_main;
    f_other.fn = &n_other;
    n_other.func = &f_other;
    n_other.bbs = &bb[3];
    n_main.bbs = &bb[0];
    GLOBAL_FUNC.fn = &n_glob;
    n_glob.func = &GLOBAL_FUNC;
    n_glob.bbs = &bb[5];
    bb[5].belong_to = &n_glob;
    bb[0].belong_to = bb[1].belong_to = bb[2].belong_to = &n_main;
    bb[3].belong_to = &n_other;
    PH2_IR_FLATTEN = flatbuf;
    FUNC_LIST.head = FUNC_LIST.tail = NULL;
    ph2_ir_idx = 0;
}
/* contract of elf_write_code_int (C06): four bytes further; cbmc only */
void vp_emit4(int word)
{
    (void) word;
    elf_code_idx += 4;
}
/* contract of update_elf_offset and emit_ph2_ir (obligations size.*): the same
 * number of bytes for the same operation, whatever it is; cbmc only */
static int ghost_size[32];
static int ghost(ph2_ir_t *p)
{
    int k, s = 16; /* function entry */
    for (k = 0; k < 32; k++)
        if (p == &pool[k])
            s = ghost_size[k];
    return p->is_branch_detached ? s + 4 : s;
}
void vp_update(ph2_ir_t *p) { elf_offset += ghost(p); }
static ph2_ir_t *emitted[32];
static int emitted_at[32], nemitted;
void vp_emit_op(ph2_ir_t *p)
{
    emitted[nemitted] = p;
    emitted_at[nemitted] = elf_code_idx;
    nemitted++;
    elf_code_idx += ghost(p);
}
static int size_of_op(ph2_ir_t *p)
{
    int at = elf_code_idx;
    emit_ph2_ir(p);
    return elf_code_idx - at;
}

#ifdef SIZES
/* every operation: reserved size == emitted size */
void ob_size(void)
{
    int before, emitted;
    functions();
    init_ir(&pool[0], OPC);
    pool[0].dest = IN_RANGE(0, REG_CNT - 1);
    pool[0].src0 = IN_RANGE(0, REG_CNT - 1);
    pool[0].src1 = IN_RANGE(0, REG_CNT - 1);
    if (OPC == OP_load_constant)
        pool[0].src0 = IN();
    if (OPC == OP_address_of || OPC == OP_global_address_of || OPC == OP_load || OPC == OP_global_load || OPC == OP_load_data_address)
        pool[0].src0 = IN_RANGE(0, 0x7fffffff);
    if (OPC == OP_store || OPC == OP_global_store)
        pool[0].src1 = IN_RANGE(0, 0x7fffffff);
    if (OPC == OP_read)
        pool[0].src1 = IN_RANGE(0, 1) ? 4 : 1;
    if (OPC == OP_write)
        pool[0].dest = IN_RANGE(0, 1) ? 4 : 1;
    if (OPC == OP_return) {
        pool[0].src0 = IN_RANGE(-1, REG_CNT - 1);
        pool[0].src1 = IN_RANGE(4, 0x7ffffff);
    }
    strcpy(pool[0].func_name, "callee");
    pool[0].next_bb = &bb[0];
    pool[0].then_bb = &bb[0];
    pool[0].else_bb = &bb[1];
    bb[0].elf_offset = IN_RANGE(0, MAX_CODE / 4) * 4;
    bb[1].elf_offset = IN_RANGE(0, MAX_CODE / 4) * 4;
    bb[3].elf_offset = IN_RANGE(0, MAX_CODE / 4) * 4;
    pool[0].is_branch_detached = IN_RANGE(0, 1);
    hard_mul_div = IN_RANGE(0, 1);
    place(0, 0x10054);
    before = IN_RANGE(0, MAX_CODE);
    elf_offset = before;
    update_elf_offset(&pool[0]);
    emitted = size_of_op(&pool[0]);
    REACH("end");
    ENSURE(elf_offset - before == emitted, "reserved-size-equals-emitted-size");
}
/* function entry: 16 bytes, as cfg_flatten reserves */
void ob_size_define(void)
{
    functions();
    init_ir(&pool[0], OP_define);
    pool[0].src0 = IN_RANGE(0, 0x7fffff0);
    place(0, 0x10054);
    REACH("end");
    ENSURE(size_of_op(&pool[0]) == 16, "function-entry-takes-16-bytes");
}
#else
static ph2_ir_t *append(basic_block_t *b, int k, opcode_t op)
{
    init_ir(&pool[k], op);
    if (b->ph2_ir_list.tail)
        b->ph2_ir_list.tail->next = &pool[k];
    else
        b->ph2_ir_list.head = &pool[k];
    b->ph2_ir_list.tail = &pool[k];
    return &pool[k];
}
static void link_functions(void)
{
    FUNC_LIST.head = &n_main;
    n_main.next = &n_other;
    n_other.next = NULL;
    FUNC_LIST.tail = &n_other;
    bb[0].rpo_next = &bb[1];
    bb[1].rpo_next = &bb[2];
    bb[2].rpo_next = NULL;
    bb[3].rpo_next = NULL;
    MAIN_BB = &bb[0];
    f_main.stack_size = IN_RANGE(1, 4096) * 4;
    f_other.stack_size = IN_RANGE(1, 4096) * 4;
    GLOBAL_FUNC.stack_size = IN_RANGE(1, 0x100000) * 4;
}
/* block positions over a program with three size classes of everything */
void ob_positions(void)
{
    int i, total, flat;
    ph2_ir_t *p;
    functions();
    for (i = 0; i < 12; i++)
        ghost_size[i] = IN_RANGE(0, 64) * 4;
    link_functions();
    p = append(&bb[5], 0, OP_load_constant);
    p->src0 = IN();
    p = append(&bb[5], 1, OP_global_store);
    p->src1 = IN_RANGE(0, 0x100000);
    p = append(&bb[0], 2, OP_load_constant);
    p->src0 = IN();
    p = append(&bb[0], 3, OP_branch);
    i = IN_RANGE(0, 2);
    p->then_bb = &bb[i];
    i = IN_RANGE(0, 2);
    p->else_bb = &bb[i];
    p = append(&bb[1], 4, OP_assign);
    p->src0 = IN_RANGE(0, REG_CNT - 1);
    p->dest = IN_RANGE(0, REG_CNT - 1);
    p = append(&bb[1], 5, OP_jump);
    p->next_bb = &bb[0];
    p = append(&bb[2], 6, OP_call);
    strcpy(p->func_name, "callee");
    p = append(&bb[2], 7, OP_return);
    p->src0 = IN_RANGE(-1, REG_CNT - 1);
    p = append(&bb[3], 8, OP_load);
    p->src0 = IN_RANGE(0, 0x100000);
    p = append(&bb[3], 9, OP_return);
    p->src0 = -1;
    place(0, 0x10054);
    elf_code_start = 0x10054;
    cfg_flatten();
    ENSURE(ph2_ir_idx == 10, "every-operation-is-laid-out-once");
    ENSURE(pool[7].src1 == f_main.stack_size && pool[9].src1 == f_other.stack_size, "return-releases-its-function-frame");
    ENSURE(PH2_IR_FLATTEN[0]->op == OP_define && PH2_IR_FLATTEN[0]->src0 == f_main.stack_size, "entry-reserves-its-function-frame");
    ENSURE(PH2_IR_FLATTEN[7]->op == OP_define && PH2_IR_FLATTEN[7]->src0 == f_other.stack_size, "entry-reserves-its-function-frame");
    ENSURE(pool[3].else_bb == &bb[1] || pool[3].is_branch_detached || NREG == 32, "attached-only-when-the-else-block-follows");
    flat = elf_offset;
    code_generate();
    total = elf_code_idx;
    ENSURE(flat == total, "reserved-total-equals-emitted-total");
    ENSURE(elf_data_start == elf_code_start + total, "data-follows-code");
    ENSURE(PH2_IR_FLATTEN[7]->op == OP_define && PH2_IR_FLATTEN[1] == &pool[2] && PH2_IR_FLATTEN[3] == &pool[4] &&
           PH2_IR_FLATTEN[5] == &pool[6] && PH2_IR_FLATTEN[8] == &pool[8], "operations-in-program-order");
#ifndef VP_CBMC
    nemitted = 0;
    elf_code_idx = 0;
    for (i = 0; i < 10; i++)
        elf_code_idx += size_of_op(PH2_IR_FLATTEN[i]);
    elf_code_idx = total - elf_code_idx;
    nemitted = 2;
    for (i = 0; i < 10; i++) {
        emitted[nemitted] = PH2_IR_FLATTEN[i];
        emitted_at[nemitted++] = elf_code_idx;
        size_of_op(PH2_IR_FLATTEN[i]);
    }
#endif
    ENSURE(nemitted == 12, "every-operation-is-emitted-once");
    for (i = 2; i < 12; i++)
        ENSURE(emitted[i] == PH2_IR_FLATTEN[i - 2], "emitted-in-layout-order");
    ENSURE(bb[0].elf_offset == emitted_at[2], "function-entry-at-its-position");
    ENSURE(bb[1].elf_offset == emitted_at[5], "block-at-its-position");
    ENSURE(bb[2].elf_offset == emitted_at[7], "block-at-its-position");
    ENSURE(bb[3].elf_offset == emitted_at[9], "second-function-at-its-position");
    REACH("end");
}
/* execute the words from byte offset 'from' up to 'to' in order, control
 * moving forward through them; stops at a trap */
static void walk(int from, int to)
{
    int i;
    vu32 cur = M.next;
    M.svc = 0;
    for (i = from / 4; i < to / 4; i++)
        if (!M.svc && cur == P + 4 * (vu32) i) {
            M.pc = P + 4 * (vu32) i;
            M.next = M.pc + 4;
            isa_step(code_word(i));
            cur = M.next;
        }
    M.next = cur;
}
#ifdef ARM
#define SYSNO 7
#define EXITNO 1
#else
#define SYSNO 17
#define EXITNO 93
#endif
/* start -> global initialisation -> main(argc, argv) -> exit(status) */
static void build(int prog)
{
    functions();
    elf_code_start = 0x10054;
    init_machine();
    place(0, 0x10054);
    REQUIRE(R0[SP] > 0x8000000u && R0[SP] < 0xf0000000u);
    GLOBAL_FUNC.stack_size = IN_RANGE(1, 0x100000) * 4;
    if (prog) {
        append(&bb[5], 0, OP_assign);
        pool[0].src0 = 1;
        pool[0].dest = 2;
    }
    MAIN_BB = &bb[0];
    cfg_flatten();
    bb[0].elf_offset = elf_offset; /* main is the first function */
    code_generate();
}
void ob_startup(void)
{
    vu32 argc, sp, status, ret;
    int i;
    build(1);
    argc = mem_rd32(R0[SP]);
    walk(0, bb[5].elf_offset);
    ENSURE(M.next == P + (vu32) bb[5].elf_offset, "start-reaches-global-initialisation");
    ENSURE(!M.undef && !M.svc, "architecturally-defined");
    ret = M.r[LR];
    ENSURE((ret & 3) == 0 && ret - P < (vu32) bb[6].elf_offset, "main-returns-into-the-exit-stub");
    REQUIRE(ret - P < (vu32) bb[6].elf_offset);
    sp = M.r[SP];
    ENSURE(R0[SP] - sp == (vu32) GLOBAL_FUNC.stack_size && M.r[GP] == sp, "global-area-reserved-below-the-initial-stack");
    /* global initialisation code may use every data register */
    for (i = 0; i < REG_CNT; i++)
        M.r[REG(i)] = (vu32) IN();
    M.next = P + (vu32) bb[5].elf_offset;
    walk(bb[5].elf_offset, bb[0].elf_offset);
    ENSURE(M.next == P + (vu32) bb[0].elf_offset, "global-initialisation-continues-in-main");
    ENSURE(!M.undef && !M.svc, "architecturally-defined");
    ENSURE(M.r[REG(0)] == argc, "argc-is-the-word-at-the-initial-stack-pointer");
    ENSURE(M.r[REG(1)] == R0[SP] + 4, "argv-follows-argc");
    ENSURE(M.r[SP] == sp && M.r[GP] == sp && M.r[LR] == ret, "stack-global-base-and-return-address-set");
    ENSURE(mem_frame(sp, R0[SP] - sp, 0, 0), "initial-stack-untouched");
    /* main returns: any registers but stack and global base */
    for (i = 0; i < NREG; i++)
        if (i != SP && i != GP && (i != 0 || NREG == 16))
            M.r[i] = (vu32) IN();
    status = M.r[REG(0)];
    M.next = ret;
    walk(0, bb[6].elf_offset);
    REACH("end");
    ENSURE(M.svc && !M.undef, "returning-from-main-traps-into-the-kernel");
    ENSURE(M.r[SYSNO] == EXITNO && M.r[REG(0)] == status, "exit-with-the-value-main-returned");
    ENSURE(M.r[SP] == R0[SP], "initial-stack-restored");
}
/* __syscall(number, a1..a6): number and arguments reach the kernel's registers */
void ob_syscall(void)
{
    vu32 a[8];
    int i;
    build(0);
    M.next = P + (vu32) bb[6].elf_offset;
    for (i = 0; i < 7; i++)
        a[i] = R0[REG(i)];
    walk(bb[6].elf_offset, bb[5].elf_offset);
    REACH("end");
    ENSURE(M.svc && !M.undef, "traps-into-the-kernel");
    ENSURE(M.r[SYSNO] == a[0], "system-call-number");
    for (i = 0; i < 6; i++)
        ENSURE(M.r[REG(i)] == a[i + 1], "system-call-arguments");
    ENSURE(M.r[SP] == R0[SP] && M.r[GP] == R0[GP] && M.r[LR] == R0[LR], "stack-global-base-and-link-kept");
    ENSURE(M.ln == 0, "memory-untouched");
    /* the kernel's result comes back to the caller */
    M.r[REG(0)] = (vu32) IN();
    a[0] = M.r[REG(0)];
    REQUIRE((R0[LR] & 3) == 0);
    walk(bb[6].elf_offset, bb[5].elf_offset);
    ENSURE(M.next == R0[LR] && !M.undef && !M.svc, "returns-to-the-caller");
    ENSURE(M.r[REG(0)] == a[0] && M.r[SP] == R0[SP], "kernel-result-delivered");
}
#endif
