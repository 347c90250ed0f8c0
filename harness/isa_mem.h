/* Memory and arithmetic shared by the two instruction-set specifications.
 * Included after the machine state M is declared. */
#ifndef ISA_MEM_H
#define ISA_MEM_H
/* 32-bit product and signed quotient.  For cbmc both are uninterpreted (the
 * product symmetric): the code under contract has to compute them with the
 * architectural instruction on the same operands. */
#ifdef VP_CBMC
vu32 __CPROVER_uninterpreted_vpmul(vu32 a, vu32 b);
vu32 __CPROVER_uninterpreted_vpdiv(vu32 a, vu32 b);
static vu32 vp_mul(vu32 a, vu32 b)
{
    return a < b ? __CPROVER_uninterpreted_vpmul(a, b) : __CPROVER_uninterpreted_vpmul(b, a);
}
static vu32 vp_sdiv(vu32 a, vu32 b) { return __CPROVER_uninterpreted_vpdiv(a, b); }
static vu32 vp_srem(vu32 a, vu32 b) { return a - vp_mul(b, vp_sdiv(a, b)); }
#else
static vu32 vp_mul(vu32 a, vu32 b) { return a * b; }
static vu32 vp_sdiv(vu32 a, vu32 b)
{
    return b == 0xffffffffu ? 0u - a : (vu32) ((vi32) a / (vi32) b);
}
static vu32 vp_srem(vu32 a, vu32 b) { return a - vp_mul(b, vp_sdiv(a, b)); }
#endif

/* memory content before execution: fresh bytes, recorded on first use */
static vu8 mem_rd8(vu32 a)
{
    int i;
    for (i = M.ln - 1; i >= 0; i--)
        if (M.la[i] == a)
            return M.lv[i];
    {
        vu8 v = (vu8) IN();
        if (M.ln < MEMLOG) {
            M.la[M.ln] = a;
            M.lv[M.ln] = v;
            M.lw[M.ln] = 0;
            M.ln++;
        } else
            M.undef = 1;
        return v;
    }
}
static void mem_wr8(vu32 a, vu8 v)
{
    if (M.ln < MEMLOG) {
        M.la[M.ln] = a;
        M.lv[M.ln] = v;
        M.lw[M.ln] = 1;
        M.ln++;
    } else
        M.undef = 1;
}
#ifdef STACKMEM
/* only the STACKMEM words around STACKBASE exist; anything else is undefined */
static vu32 stk[STACKMEM];
static vu32 mem_rd32(vu32 a)
{
    vu32 o = a - (STACKBASE - 2 * STACKMEM);
    if ((o & 3) || o >= 4 * STACKMEM) {
        M.undef = 1;
        return 0;
    }
    return stk[o / 4];
}
static void mem_wr32(vu32 a, vu32 v)
{
    vu32 o = a - (STACKBASE - 2 * STACKMEM);
    if ((o & 3) || o >= 4 * STACKMEM)
        M.undef = 1;
    else
        stk[o / 4] = v;
}
#else
static vu32 mem_rd32(vu32 a)
{
    vu32 v = mem_rd8(a);
    v |= (vu32) mem_rd8(a + 1) << 8;
    v |= (vu32) mem_rd8(a + 2) << 16;
    v |= (vu32) mem_rd8(a + 3) << 24;
    return v;
}
static void mem_wr32(vu32 a, vu32 v)
{
    mem_wr8(a, (vu8) v);
    mem_wr8(a + 1, (vu8) (v >> 8));
    mem_wr8(a + 2, (vu8) (v >> 16));
    mem_wr8(a + 3, (vu8) (v >> 24));
}
#endif
/* every written byte lies in one of two windows (n may be 0) */
static int mem_frame(vu32 a, vu32 an, vu32 b, vu32 bn)
{
    int i, ok = 1;
    for (i = 0; i < M.ln; i++)
        if (M.lw[i] && !(M.la[i] - a < an) && !(M.la[i] - b < bn))
            ok = 0;
    return ok;
}

#endif
