/* Constant evaluation: optimizer folding, global initializers, #if. */
#include "vp_tu.h"

#define INT_MIN_ (-2147483647 - 1)
/* 32-bit C semantics of one operator; defined() says whether C defines it */
static int shiftop(opcode_t o) { return o == OP_lshift || o == OP_rshift; }
static int divop(opcode_t o) { return o == OP_div || o == OP_mod; }
static int c_defined(opcode_t o, vi32 a, vi32 b)
{
    if (divop(o))
        return b != 0 && !(a == INT_MIN_ && b == -1);
    if (shiftop(o))
        return b >= 0 && b < 32;
    return 1;
}
static vi32 c_value(opcode_t o, vi32 a, vi32 b)
{
    switch (o) {
    case OP_add: return (vi32) ((vu32) a + (vu32) b);
    case OP_sub: return (vi32) ((vu32) a - (vu32) b);
    case OP_mul: return (vi32) ((vu32) a * (vu32) b);
    case OP_div: return b == -1 ? (vi32) (0u - (vu32) a) : a / b;
    case OP_mod: return b == -1 ? 0 : a % b;
    case OP_lshift: return (vi32) ((vu32) a << b);
    case OP_rshift: return a >> b;
    case OP_log_and: return a != 0 && b != 0;
    case OP_log_or: return a != 0 || b != 0;
    case OP_eq: return a == b;
    case OP_neq: return a != b;
    case OP_lt: return a < b;
    case OP_leq: return a <= b;
    case OP_gt: return a > b;
    case OP_geq: return a >= b;
    case OP_bit_or: return a | b;
    case OP_bit_and: return a & b;
    case OP_bit_xor: return a ^ b;
    default: return 0;
    }
}
/* ---- folding in the optimizer ---- */
static var_t v_rd, v_a, v_b, v_c;
static insn_t i_prev, i_cur, i_use;
static use_chain_t u_a, u_b;
static int same_insn(insn_t *p, insn_t *q)
{
    return p->opcode == q->opcode && p->rd == q->rd && p->rs1 == q->rs1 && p->rs2 == q->rs2 && p->next == q->next && p->prev == q->prev && p->sz == q->sz;
}
#ifndef FOLD_A
#define FOLD_A IN()
#define FOLD_B IN()
#endif
static void fold_setup(void)
{
    v_a.is_const = IN_RANGE(0, 1);
    v_b.is_const = IN_RANGE(0, 1);
    v_rd.is_const = 0;
    v_a.init_val = FOLD_A;
    v_b.init_val = FOLD_B;
    v_rd.init_val = IN();
    v_a.is_global = IN_RANGE(0, 1);
    v_rd.is_global = IN_RANGE(0, 1);
    /* uses: an ordinary one, and possibly a place that takes the address */
    i_use.opcode = IN_RANGE(0, 1) ? OP_address_of : OP_add;
    i_use.rs1 = &v_a;
    u_a.insn = &i_use;
    v_a.users_head = v_a.users_tail = IN_RANGE(0, 1) ? &u_a : NULL;
    u_b.insn = &i_use;
    v_b.users_head = v_b.users_tail = NULL;
    i_prev.opcode = IN_RANGE(0, 2) == 0 ? OP_load_constant : IN_RANGE(0, 1) ? OP_func_ret : OP_assign;
    i_prev.rd = IN_RANGE(0, 1) ? &v_a : &v_c;
    i_cur.prev = IN_RANGE(0, 1) ? &i_prev : NULL;
    i_cur.next = NULL;
    i_cur.sz = 0;
    i_cur.rd = &v_rd;
}
void ob_fold_binary(void)
{
    insn_t old;
    vi32 a, b;
    int done, oldrd;
    fold_setup();
    i_cur.opcode = OPC;
    i_cur.rs1 = IN_RANGE(0, 3) ? &v_a : NULL;
    i_cur.rs2 = IN_RANGE(0, 3) ? &v_b : NULL;
    a = v_a.init_val;
    b = v_b.init_val;
    oldrd = v_rd.init_val;
    old = i_cur;
    done = eval_const_arithmetic(&i_cur);
    REACH("end");
    if (done) {
        ENSURE(old.rs1 && old.rs2 && v_a.is_const && v_b.is_const, "folds-only-two-constants");
        ENSURE(i_cur.opcode == OP_load_constant && i_cur.rd == &v_rd && v_rd.is_const, "becomes-a-constant-load");
        ENSURE(!c_defined(OPC, a, b) || v_rd.init_val == c_value(OPC, a, b), "folded-value-is-the-C-value");
        ENSURE(!(divop(OPC) && b == 0), "division-by-zero-is-not-folded");
        ENSURE(!(v_a.users_head && i_use.opcode == OP_address_of), "address-taken-variable-is-not-a-constant");
    } else
        ENSURE(same_insn(&old, &i_cur) && v_rd.init_val == oldrd && !v_rd.is_const, "otherwise-unchanged");
    ENSURE(v_a.init_val == a && v_b.init_val == b, "operands-unchanged");
}
void ob_mark_const(void)
{
    insn_t old;
    vi32 a;
    int done, oldrd, known;
    fold_setup();
    i_cur.opcode = IN_RANGE(0, 2) == 0 ? OP_load_constant : IN_RANGE(0, 2) ? OP_assign : (opcode_t) IN_RANGE(OP_read, OP_negate);
    i_cur.rs1 = i_cur.opcode == OP_load_constant ? NULL : &v_a;
    i_cur.rs2 = NULL;
    REQUIRE(i_cur.opcode != OP_assign || v_a.is_const == 0 || !v_a.is_global);
    a = v_a.init_val;
    oldrd = v_rd.init_val;
    old = i_cur;
    /* the value of the source is known: it is a constant, or the instruction
     * just before loaded the constant into it */
    known = v_a.is_const || (i_cur.prev && i_prev.opcode == OP_load_constant && i_prev.rd == &v_a);
    done = mark_const(&i_cur);
    REACH("end");
    if (done) {
        ENSURE(old.opcode == OP_assign && known, "only-an-assignment-of-a-constant-is-propagated");
        ENSURE(!v_rd.is_global, "global-variables-are-not-treated-as-constants");
        ENSURE(!(v_a.users_head && i_use.opcode == OP_address_of), "address-taken-variable-is-not-a-constant");
        ENSURE(i_cur.opcode == OP_load_constant && v_rd.is_const && v_rd.init_val == a, "value-propagated");
    } else {
        ENSURE(same_insn(&old, &i_cur) && v_rd.init_val == oldrd, "otherwise-unchanged");
        ENSURE(!v_rd.is_const || old.opcode == OP_load_constant, "constant-only-if-loaded-as-one");
    }
}
/* ---- one operator in a global initializer ---- */
void ob_imm(void)
{
    vi32 a = IN(), b = IN(), r;
    REQUIRE(c_defined(OPC, a, b));
    r = eval_expression_imm(OPC, a, b);
    REACH("end");
    ENSURE(r == c_value(OPC, a, b), "value-is-the-C-value");
}
void ob_imm_zero(void)
{
    vi32 a = IN();
    opcode_t o = IN_RANGE(0, 1) ? OP_div : OP_mod;
    REACH("end");
    vp_rejecting = 1;
#ifndef VP_CBMC
    global_init();
#endif
    eval_expression_imm(o, a, 0);
    ENSURE(0, "division-by-zero-is-diagnosed");
}

/* ---- expressions: tokens  [-] v0 op0 [-] v1 op1 [-] v2 ... ---- */
#ifndef NV
#define NV 3
#endif
static vi32 val[NV];
static int neg[NV];
static opcode_t op[NV];
static int tk; /* token position: 3*i = unary, 3*i+1 = value, 3*i+2 = operator */
static int c_prio(opcode_t o)
{
    switch (o) {
    case OP_log_or: return 1;
    case OP_log_and: return 2;
    case OP_bit_or: return 3;
    case OP_bit_xor: return 4;
    case OP_bit_and: return 5;
    case OP_eq: case OP_neq: return 6;
    case OP_lt: case OP_leq: case OP_gt: case OP_geq: return 7;
    case OP_lshift: case OP_rshift: return 8;
    case OP_add: case OP_sub: return 9;
    default: return 10;
    }
}
/* the C value of the expression: leftmost operator of the tightest level first */
static vi32 c_expr(int *defined)
{
    vi32 v[NV];
    opcode_t o[NV];
    int i, n, p;
    *defined = 1;
    for (i = 0; i < NV; i++) {
        v[i] = neg[i] ? (vi32) (0u - (vu32) val[i]) : val[i];
        o[i] = op[i];
    }
    n = NV;
    for (p = NV; p > 1; p--) {
        int best = 0;
        for (i = 0; i < NV - 1; i++)
            if (i < n - 1 && c_prio(o[i]) > c_prio(o[best]))
                best = i;
        if (!c_defined(o[best], v[best], v[best + 1]))
            *defined = 0;
        else
            v[best] = c_value(o[best], v[best], v[best + 1]);
        for (i = 0; i < NV - 1; i++)
            if (i > best && i < n - 1)
                v[i] = v[i + 1];
        for (i = 0; i < NV - 2; i++)
            if (i >= best && i < n - 2)
                o[i] = o[i + 1];
        n--;
    }
    return v[0];
}
static opcode_t all_ops[] = {OP_add, OP_sub, OP_lt, OP_eq, OP_rshift, OP_log_and, OP_log_or, OP_lshift, OP_gt, OP_neq, OP_leq, OP_geq,
                         OP_mul, OP_div, OP_mod, OP_bit_and, OP_bit_or, OP_bit_xor};
/* the next combination of operators and signs; values are arbitrary */
static int expr_setup(int combo)
{
    int i, small = 0;
    for (i = 0; i < NV - 1; i++) {
        op[i] = all_ops[i == 0 ? OP0 : combo % NOPS];
        if (i > 0)
            combo /= NOPS;
        if (divop(op[i]) || op[i] == OP_mul)
            small = 1;
    }
    for (i = 0; i < NV; i++) {
        neg[i] = (combo ^ i) & 1;
        val[i] = IN_RANGE(0, small ? SMALL : VMAX);
    }
    combo /= 2;
    op[NV - 1] = OP_generic;
    tk = 0;
    return combo == 0;
}
#ifdef VP_CBMC
/* token-stream contracts of the callees (the lexer has its own, C11) */
opcode_t vp_get_operator(void)
{
    if (tk % 3 == 0 && neg[tk / 3]) {
        tk++;
        return OP_sub;
    }
    if (tk % 3 == 2) {
        opcode_t o = op[tk / 3];
        if (o != OP_generic)
            tk++;
        return o;
    }
    return OP_generic;
}
int vp_operand(void)
{
    int v;
    if (tk % 3 == 0 && !neg[tk / 3])
        tk++;
    if (tk % 3 != 1)
        vp_giveup();
    v = val[tk / 3];
    tk++;
    return v;
}
int vp_primary(void)
{
    int v;
    if (tk % 3 != 0)
        vp_giveup();
    v = neg[tk / 3] ? -1 * val[tk / 3] : val[tk / 3];
    tk += 2;
    return v;
}
static var_t gvar, tmpv[4];
static ph1_ir_t gir[4];
static int ngir, ntmp, got, gotn, assigned;
var_t *vp_find_global(char *n) { (void) n; return &gvar; }
ph1_ir_t *vp_add_gir(opcode_t o) { gir[ngir & 3].op = o; return &gir[ngir++ & 3]; }
var_t *vp_require(block_t *b) { (void) b; return &tmpv[ntmp++ & 3]; }
static char tname[] = ".t";
char *vp_gen(void) { return tname; }
var_t *vp_pop(void) { return &gvar; }
void vp_add_insn(block_t *b, basic_block_t *bb, opcode_t o, var_t *rd, var_t *rs1, var_t *rs2, int sz, char *str)
{
    (void) b; (void) bb; (void) rs2; (void) sz; (void) str;
    if (o == OP_load_constant) {
        got = rd->init_val;
        gotn++;
        tmpv[3].base = rd;
    }
    if (o == OP_assign && rd == &gvar && rs1 == tmpv[3].base)
        assigned++;
}
static fn_t gfn;
#else
static char text[400];
static void write_text(char *pre, char *post)
{
    static const char *sp[] = {[OP_add] = "+", [OP_sub] = "-", [OP_mul] = "*", [OP_div] = "/", [OP_mod] = "%", [OP_lshift] = "<<",
                               [OP_rshift] = ">>", [OP_log_and] = "&&", [OP_log_or] = "||", [OP_eq] = "==", [OP_neq] = "!=", [OP_lt] = "<",
                               [OP_leq] = "<=", [OP_gt] = ">", [OP_geq] = ">=", [OP_bit_or] = "|", [OP_bit_and] = "&", [OP_bit_xor] = "^"};
    int i, n = sprintf(text, "%s", pre);
    for (i = 0; i < NV; i++)
        n += sprintf(text + n, "%s%d %s ", neg[i] ? "-" : "", val[i], i < NV - 1 ? sp[op[i]] : "");
    sprintf(text + n, "%s", post);
    global_init();
    strcpy(SOURCE->elements, text);
}
#endif
static int one_if(void)
{
#ifndef VP_CBMC
    write_text("", "\n;");
    SOURCE->size = 0;
    next_char = SOURCE->elements[0];
    next_token = T_start;
    lex_expect(T_start);
#endif
    return read_constant_expr();
}
void ob_if(void)
{
    int defd, c;
    vi32 r, want;
    for (c = 0; expr_setup(c); c++) {
        want = c_expr(&defd);
        if (!defd)
            continue;
        r = one_if();
        ENSURE(r == want, "value-is-the-C-value");
#ifdef VP_CBMC
        ENSURE(tk == 3 * NV - 1, "whole-expression-consumed");
#endif
    }
    REACH("end");
}
static int one_global(void)
{
#ifndef VP_CBMC
    insn_t *i;
    int n = 0, r = 0;
    next_token = T_start;
    write_text("int g = ", ";\n");
    parse_internal();
    for (i = GLOBAL_FUNC.fn->bbs->insn_list.head; i; i = i->next)
        if (i->opcode == OP_load_constant) {
            r = i->rd->init_val;
            n++;
        }
    ENSURE(n == 1, "one-value-is-assigned");
    return r;
#else
    GLOBAL_FUNC.fn = &gfn;
    ngir = ntmp = gotn = assigned = 0;
    read_global_assignment("g");
    ENSURE(gotn == 1 && assigned == 1, "one-value-is-assigned");
    ENSURE(tk == 3 * NV - 1, "whole-expression-consumed");
    return got;
#endif
}
void ob_global(void)
{
    int defd, c;
    vi32 r, want;
    for (c = 0; expr_setup(c); c++) {
        want = c_expr(&defd);
        if (!defd)
            continue;
        r = one_global();
        ENSURE(r == want, "value-is-the-C-value");
    }
    REACH("end");
}
