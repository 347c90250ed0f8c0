/* RV32IM execution semantics, written from the RISC-V Unprivileged ISA manual.
 * This file is specification: it never looks at the compiler's code. */
#ifndef ISA_RV_H
#define ISA_RV_H
#ifndef MEMLOG
#define MEMLOG 48
#endif
#define NREG 32
#define SP 2
#define GP 3
#define LR 1
#define REG(i) ((i) + 10)
#define SCRATCH(i) ((i) == 5 || (i) == 6 || (i) == 7 || (i) >= 28)
static struct {
    vu32 r[32];
    int undef, svc, taken;
    vu32 pc, next;
    vu32 la[MEMLOG];
    vu8 lv[MEMLOG];
    vu8 lw[MEMLOG];
    int ln;
} M;
#include "isa_mem.h"

static void isa_wr(vu32 i, vu32 v)
{
    if (i)
        M.r[i] = v;
}
static void isa_setpc(vu32 a)
{
    if (a & 3)
        M.undef = 1;
    M.next = a;
    M.taken = 1;
}
static vu32 isa_asr(vu32 a, vu32 n)
{
    return (a >> n) | ((a >> 31) && n ? ~(0xffffffffu >> n) : 0);
}
static void isa_step(vu32 w)
{
    vu32 rd = (w >> 7) & 31, f3 = (w >> 12) & 7, f7 = w >> 25;
    vu32 a = M.r[(w >> 15) & 31], b = M.r[(w >> 20) & 31];
    vu32 immI = (w >> 20) | ((w >> 31) ? 0xfffff000u : 0);
    vu32 immS = ((w >> 25) << 5) | ((w >> 7) & 31) | ((w >> 31) ? 0xfffff000u : 0);
    vu32 immB = (((w >> 31) & 1) ? 0xfffff000u : 0) | (((w >> 7) & 1) << 11) | (((w >> 25) & 63) << 5) | (((w >> 8) & 15) << 1);
    vu32 immJ = (((w >> 31) & 1) ? 0xfff00000u : 0) | (w & 0xff000u) | (((w >> 20) & 1) << 11) | (((w >> 21) & 1023) << 1);
    M.next = M.pc + 4;
    switch (w & 127) {
    case 0x37: isa_wr(rd, w & 0xfffff000u); return;
    case 0x17: isa_wr(rd, M.pc + (w & 0xfffff000u)); return;
    case 0x6f: isa_wr(rd, M.pc + 4); isa_setpc(M.pc + immJ); return;
    case 0x67:
        if (f3) { M.undef = 1; return; }
        isa_wr(rd, M.pc + 4);
        isa_setpc((a + immI) & ~1u);
        return;
    case 0x63: {
        int t = 0;
        switch (f3) {
        case 0: t = a == b; break;
        case 1: t = a != b; break;
        case 4: t = (vi32) a < (vi32) b; break;
        case 5: t = (vi32) a >= (vi32) b; break;
        case 6: t = a < b; break;
        case 7: t = a >= b; break;
        default: M.undef = 1; return;
        }
        if (t)
            isa_setpc(M.pc + immB);
        return;
    }
#ifndef ISA_NOMEM
    case 0x03: {
        vu32 ad = a + immI, v;
        switch (f3) {
        case 0: v = mem_rd8(ad); v |= (v & 0x80) ? 0xffffff00u : 0; break;
        case 2: v = mem_rd32(ad); break;
        case 4: v = mem_rd8(ad); break;
        default: M.undef = 1; return;
        }
        isa_wr(rd, v);
        return;
    }
    case 0x23: {
        vu32 ad = a + immS;
        switch (f3) {
        case 0: mem_wr8(ad, (vu8) b); break;
        case 2: mem_wr32(ad, b); break;
        default: M.undef = 1; return;
        }
        return;
    }
#endif
    case 0x13:
        switch (f3) {
        case 0: isa_wr(rd, a + immI); return;
        case 2: isa_wr(rd, (vi32) a < (vi32) immI); return;
        case 3: isa_wr(rd, a < immI); return;
        case 4: isa_wr(rd, a ^ immI); return;
        case 6: isa_wr(rd, a | immI); return;
        case 7: isa_wr(rd, a & immI); return;
        case 1:
            if (f7) { M.undef = 1; return; }
            isa_wr(rd, a << ((w >> 20) & 31));
            return;
        default:
            if (f7 == 0)
                isa_wr(rd, a >> ((w >> 20) & 31));
            else if (f7 == 32)
                isa_wr(rd, isa_asr(a, (w >> 20) & 31));
            else
                M.undef = 1;
            return;
        }
    case 0x33:
        if (f7 == 0) {
            switch (f3) {
            case 0: isa_wr(rd, a + b); return;
            case 1: isa_wr(rd, a << (b & 31)); return;
            case 2: isa_wr(rd, (vi32) a < (vi32) b); return;
            case 3: isa_wr(rd, a < b); return;
            case 4: isa_wr(rd, a ^ b); return;
            case 5: isa_wr(rd, a >> (b & 31)); return;
            case 6: isa_wr(rd, a | b); return;
            default: isa_wr(rd, a & b); return;
            }
        }
        if (f7 == 32) {
            if (f3 == 0) { isa_wr(rd, a - b); return; }
            if (f3 == 5) { isa_wr(rd, isa_asr(a, b & 31)); return; }
            M.undef = 1;
            return;
        }
        if (f7 == 1) {
            if (f3 == 0) { isa_wr(rd, vp_mul(a, b)); return; }
            if (f3 == 4) { isa_wr(rd, b == 0 ? 0xffffffffu : vp_sdiv(a, b)); return; }
            if (f3 == 6) { isa_wr(rd, b == 0 ? a : vp_srem(a, b)); return; }
        }
        M.undef = 1;
        return;
    case 0x73:
        if (w == 0x73) { M.svc = 1; return; }
        M.undef = 1;
        return;
    default:
        M.undef = 1;
        return;
    }
}
#endif
