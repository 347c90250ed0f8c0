/* ARMv7-A (A32) execution semantics for the instructions the specification
 * admits, written from the ARM Architecture Reference Manual (DDI 0406C).
 * This file is specification: it never looks at the compiler's code. */
#ifndef ISA_ARM_H
#define ISA_ARM_H
#ifndef MEMLOG
#define MEMLOG 48
#endif
#define NREG 16
#define SP 13
#define GP 12
#define LR 14
#define REG(i) (i)
/* may be clobbered freely between operations */
#define SCRATCH(i) ((i) == 8 || (i) == 9 || (i) == 10)
/* ISA_NOMEM / ISA_NOMULTI: data accesses / multiple transfers are treated as
 * unmodelled (M.undef), which fails the obligation that uses them */
static struct {
    vu32 r[16];
    int n, z, c, v;
    int undef;            /* an undefined / unpredictable / unmodelled word */
    int svc;              /* supervisor call executed */
    int taken;            /* control left the straight line */
    vu32 pc;              /* address of the current instruction */
    vu32 next;            /* address of the next instruction */
    /* byte-granular memory: log of (address, value), youngest last */
    vu32 la[MEMLOG];
    vu8 lv[MEMLOG];
    vu8 lw[MEMLOG];       /* 1: written by the code under contract */
    int ln;
} M;

#include "isa_mem.h"

static int isa_cond(vu32 cc)
{
    switch (cc) {
    case 0: return M.z;
    case 1: return !M.z;
    case 2: return M.c;
    case 3: return !M.c;
    case 4: return M.n;
    case 5: return !M.n;
    case 6: return M.v;
    case 7: return !M.v;
    case 8: return M.c && !M.z;
    case 9: return !M.c || M.z;
    case 10: return M.n == M.v;
    case 11: return M.n != M.v;
    case 12: return !M.z && M.n == M.v;
    case 13: return M.z || M.n != M.v;
    case 14: return 1;
    default: M.undef = 1; return 0;
    }
}
static vu32 isa_reg(vu32 i)
{
    return i == 15 ? M.pc + 8 : M.r[i];
}
static void isa_setpc(vu32 a)
{
    if (a & 3)
        M.undef = 1;
    M.next = a;
    M.taken = 1;
}
static void isa_wr(vu32 i, vu32 v)
{
    if (i == 15)
        isa_setpc(v);
    else
        M.r[i] = v;
}
/* ASR/ROR with explicit amounts 0..255; *co receives the carry out */
static vu32 isa_shift(vu32 v, vu32 type, vu32 n, int *co)
{
    if (n == 0)
        return v;
    switch (type) {
    case 0:
        *co = n <= 32 ? (n == 32 ? (int) (v & 1) : (int) ((v >> (32 - n)) & 1)) : 0;
        return n >= 32 ? 0 : v << n;
    case 1:
        *co = n <= 32 ? (int) ((v >> (n - 1)) & 1) : 0;
        return n >= 32 ? 0 : v >> n;
    case 2:
        if (n >= 32) {
            *co = (int) (v >> 31);
            return (v >> 31) ? 0xffffffffu : 0;
        }
        *co = (int) ((v >> (n - 1)) & 1);
        return (v >> n) | ((v >> 31) ? ~(0xffffffffu >> n) : 0);
    default: {
        vu32 m = n & 31;
        vu32 x = m ? (v >> m) | (v << (32 - m)) : v;
        *co = (int) (x >> 31);
        return x;
    }
    }
}
static void isa_dp(vu32 w)
{
    vu32 opc = (w >> 21) & 15, s = (w >> 20) & 1, rn = (w >> 16) & 15, rd = (w >> 12) & 15;
    vu32 op2, a, res;
    int co = M.c;
    if (w & 0x02000000u) {
        vu32 rot = ((w >> 8) & 15) * 2, imm = w & 255;
        op2 = rot ? (imm >> rot) | (imm << (32 - rot)) : imm;
        if (rot)
            co = (int) (op2 >> 31);
    } else if (w & 0x10) {
        vu32 rs = (w >> 8) & 15, rm = w & 15;
        if (rd == 15 || rn == 15 || rs == 15 || rm == 15)
            M.undef = 1;
        op2 = isa_shift(M.r[rm], (w >> 5) & 3, M.r[rs] & 255, &co);
    } else {
        vu32 n = (w >> 7) & 31, type = (w >> 5) & 3, rm = isa_reg(w & 15);
        if (n == 0 && (type == 1 || type == 2))
            n = 32;
        if (n == 0 && type == 3) { /* RRX */
            op2 = (rm >> 1) | (M.c ? 0x80000000u : 0);
            co = (int) (rm & 1);
        } else
            op2 = isa_shift(rm, type, n, &co);
    }
    a = isa_reg(rn);
    /* should-be-zero fields */
    if ((opc == 13 || opc == 15) && rn != 0)
        M.undef = 1;
    if (opc >= 8 && opc <= 11 && rd != 0)
        M.undef = 1;
    switch (opc) {
    case 0: case 8: res = a & op2; break;
    case 1: case 9: res = a ^ op2; break;
    case 2: case 10: res = a - op2; break;
    case 3: res = op2 - a; break;
    case 4: case 11: res = a + op2; break;
    case 5: res = a + op2 + (vu32) M.c; break;
    case 6: res = a - op2 - (vu32) !M.c; break;
    case 7: res = op2 - a - (vu32) !M.c; break;
    case 12: res = a | op2; break;
    case 13: res = op2; break;
    case 14: res = a & ~op2; break;
    default: res = ~op2; break;
    }
    if (s) {
        if (rd == 15 && !(opc >= 8 && opc <= 11))
            M.undef = 1;
        switch (opc) {
        case 2: case 10:
            co = a >= op2;
            M.v = (int) (((a ^ op2) & (a ^ res)) >> 31);
            break;
        case 3:
            co = op2 >= a;
            M.v = (int) (((a ^ op2) & (op2 ^ res)) >> 31);
            break;
        case 4: case 11:
            co = res < a;
            M.v = (int) ((~(a ^ op2) & (a ^ res)) >> 31);
            break;
        case 5: case 6: case 7:
            M.undef = 1; /* flag-setting ADC/SBC/RSC is not modelled */
            break;
        default:
            break;
        }
        M.n = (int) (res >> 31);
        M.z = res == 0;
        M.c = co;
    }
    if (!(opc >= 8 && opc <= 11))
        isa_wr(rd, res);
}
/* execute one word at M.pc; M.next receives the successor */
static void isa_step(vu32 w)
{
    vu32 rn = (w >> 16) & 15, rd = (w >> 12) & 15;
    M.next = M.pc + 4;
    if ((w >> 28) == 15) {
        M.undef = 1;
        return;
    }
    if (!isa_cond(w >> 28))
        return;
    switch ((w >> 25) & 7) {
    case 0:
        if ((w & 0x0fc000f0u) == 0x00000090u) { /* MUL */
            if (w & 0x00300000u) { M.undef = 1; return; }
            if (rd != 0 || rn == 15 || (w & 15) == 15 || ((w >> 8) & 15) == 15) { M.undef = 1; return; }
            M.r[rn] = vp_mul(M.r[w & 15], M.r[(w >> 8) & 15]);
            return;
        }
        if ((w & 0x0ffffff0u) == 0x012fff30u || (w & 0x0ffffff0u) == 0x012fff10u) { /* BLX/BX */
            vu32 t = isa_reg(w & 15);
            if ((w & 15) == 15) { M.undef = 1; return; }
            if ((w & 0xf0) == 0x30)
                M.r[14] = M.pc + 4;
            if (t & 1) /* Thumb */
                M.undef = 1;
            isa_setpc(t);
            return;
        }
        if ((w & 0x90) == 0x90) { M.undef = 1; return; } /* extra loads etc. */
        if ((w & 0x01900000u) == 0x01000000u) { M.undef = 1; return; } /* misc */
        isa_dp(w);
        return;
    case 1:
        if ((w & 0x01900000u) == 0x01000000u) {
            vu32 imm = ((w >> 4) & 0xf000) | (w & 0xfff);
            if (rd == 15) { M.undef = 1; return; }
            if ((w & 0x0ff00000u) == 0x03000000u)
                M.r[rd] = imm;
            else if ((w & 0x0ff00000u) == 0x03400000u)
                M.r[rd] = (M.r[rd] & 0xffff) | (imm << 16);
            else
                M.undef = 1;
            return;
        }
        isa_dp(w);
        return;
#ifndef ISA_NOMEM
    case 2: { /* LDR/STR immediate */
        vu32 off = w & 0xfff, base = isa_reg(rn), addr;
        int p = (w >> 24) & 1, u = (w >> 23) & 1, b = (w >> 22) & 1, wb = (w >> 21) & 1, l = (w >> 20) & 1;
        if (!p && wb) { M.undef = 1; return; }
        if ((wb || !p) && (rn == 15 || rn == rd)) { M.undef = 1; return; }
        addr = u ? base + off : base - off;
        if (!b && ((p ? addr : base) & 3)) { /* word accesses are kept aligned */ }
        if (wb || !p)
            M.r[rn] = addr;
        if (!p)
            addr = base;
        if (l) {
            vu32 v = b ? mem_rd8(addr) : mem_rd32(addr);
            if (b && rd == 15) { M.undef = 1; return; }
            isa_wr(rd, v);
        } else {
            vu32 v = isa_reg(rd);
            if (rd == 15) { M.undef = 1; return; }
            if (b)
                mem_wr8(addr, (vu8) v);
            else
                mem_wr32(addr, v);
        }
        return;
    }
#endif
    case 3:
        if ((w & 0x0ff0f0f0u) == 0x0710f010u) { /* SDIV rd=rn, rn=w[3:0], rm=w[11:8] */
            vi32 x = (vi32) M.r[w & 15], y = (vi32) M.r[(w >> 8) & 15];
            if (rn == 15 || (w & 15) == 15 || ((w >> 8) & 15) == 15) { M.undef = 1; return; }
            M.r[rn] = y == 0 ? 0 : vp_sdiv((vu32) x, (vu32) y);
            return;
        }
        M.undef = 1;
        return;
#ifndef ISA_NOMULTI
    case 4: { /* LDM/STM */
        int p = (w >> 24) & 1, u = (w >> 23) & 1, sbit = (w >> 22) & 1, wb = (w >> 21) & 1, l = (w >> 20) & 1;
        vu32 list = w & 0xffff, cnt = 0, addr, i, base;
        if (sbit || rn == 15 || list == 0 || (list & 0xe000)) { M.undef = 1; return; }
        base = M.r[rn];
        for (i = 0; i < 13; i++)
            cnt += (list >> i) & 1;
        if (wb && ((list >> rn) & 1)) { M.undef = 1; return; }
        addr = u ? (p ? base + 4 : base) : (p ? base - 4 * cnt : base - 4 * cnt + 4);
        for (i = 0; i < 13; i++)
            if ((list >> i) & 1) {
                if (l)
                    M.r[i] = mem_rd32(addr);
                else
                    mem_wr32(addr, M.r[i]);
                addr += 4;
            }
        if (wb)
            M.r[rn] = u ? base + 4 * cnt : base - 4 * cnt;
        return;
    }
#endif
    case 5: { /* B/BL */
        vu32 o = (w & 0xffffff) << 2;
        if (o & 0x02000000u)
            o |= 0xfc000000u;
        if (w & 0x01000000u)
            M.r[14] = M.pc + 4;
        isa_setpc(M.pc + 8 + o);
        return;
    }
    case 7:
        if ((w & 0x0f000000u) == 0x0f000000u) {
            M.svc = 1;
            return;
        }
        M.undef = 1;
        return;
    default:
        M.undef = 1;
        return;
    }
}
#endif
