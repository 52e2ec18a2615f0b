/* A MIPS64/MIPS32 release 2 user-mode emulator, big-endian, strict alignment, no floating point: a platform unlike the build host. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef int32_t s32;
enum { BAD, NOP, SLL, SRL, ROTR, SRA, SLLV, SRLV, ROTRV, SRAV, JR, JALR, MOVZ, MOVN, BREAK, MFHI, MTHI, MFLO, MTLO, DSLLV, DSRLV, DROTRV, DSRAV, MULT, MULTU, DIV, DIVU, DMULT, DMULTU, DDIV, DDIVU,
  ADD, ADDU, SUB, SUBU, AND, OR, XOR, NOR, SLT, SLTU, DADDU, DSUBU, TEQ, DSLL, DSRL, DROTR, DSRA, BLTZ, BGEZ, BLTZAL, BGEZAL, J, JAL, BEQ, BNE, BLEZ, BGTZ, ADDI, ADDIU, SLTI, SLTIU, ANDI, ORI, XORI, LUI,
  DADDIU, LDL, LDR, MADD, MADDU, MUL, MSUB, MSUBU, CLZ, CLO, DCLZ, DCLO, EXT, DEXT, INS, DINS, WSBH, SEB, SEH, DSBH, DSHD, LB, LH, LWL, LW, LBU, LHU, LWR, LWU, SB, SH, SWL, SW, SDL, SDR, SWR, LD, SD, SC, SCD };
typedef struct { uint8_t op, rs, rt, rd, a, b; s32 imm; } ins;
typedef struct { uint8_t *mem; u64 size, base, end; ins *code; u64 n, count, fault, pc; u32 raw; } emu;
static u32 be32(const uint8_t *p) { u32 v; memcpy(&v, p, 4); return __builtin_bswap32(v); }
static ins decode(u32 w, u64 idx, u64 base) {
    ins d = { BAD, w >> 21 & 31, w >> 16 & 31, w >> 11 & 31, w >> 6 & 31, 0, (int16_t)w }; u32 f = w & 63; s32 br = (s32)(idx + 1) + (int16_t)w;
    static const uint8_t sp[64] = { [0] = SLL, [2] = SRL, [3] = SRA, [4] = SLLV, [6] = SRLV, [7] = SRAV, [8] = JR, [9] = JALR, [0xa] = MOVZ, [0xb] = MOVN, [0xd] = BREAK, [0xf] = NOP, [0x10] = MFHI, [0x11] = MTHI, [0x12] = MFLO, [0x13] = MTLO,
      [0x14] = DSLLV, [0x16] = DSRLV, [0x17] = DSRAV, [0x18] = MULT, [0x19] = MULTU, [0x1a] = DIV, [0x1b] = DIVU, [0x1c] = DMULT, [0x1d] = DMULTU, [0x1e] = DDIV, [0x1f] = DDIVU, [0x20] = ADDU, [0x21] = ADDU, [0x22] = SUBU, [0x23] = SUBU,
      [0x24] = AND, [0x25] = OR, [0x26] = XOR, [0x27] = NOR, [0x2a] = SLT, [0x2b] = SLTU, [0x2c] = DADDU, [0x2d] = DADDU, [0x2e] = DSUBU, [0x2f] = DSUBU, [0x34] = TEQ, [0x38] = DSLL, [0x3a] = DSRL, [0x3b] = DSRA, [0x3c] = DSLL, [0x3e] = DSRL, [0x3f] = DSRA };
    static const uint8_t pl[64] = { [4] = BEQ, [5] = BNE, [6] = BLEZ, [7] = BGTZ, [8] = ADDIU, [9] = ADDIU, [0xa] = SLTI, [0xb] = SLTIU, [0xc] = ANDI, [0xd] = ORI, [0xe] = XORI, [0xf] = LUI, [0x18] = DADDIU, [0x19] = DADDIU, [0x1a] = LDL, [0x1b] = LDR,
      [0x20] = LB, [0x21] = LH, [0x22] = LWL, [0x23] = LW, [0x24] = LBU, [0x25] = LHU, [0x26] = LWR, [0x27] = LWU, [0x28] = SB, [0x29] = SH, [0x2a] = SWL, [0x2b] = SW, [0x2c] = SDL, [0x2d] = SDR, [0x2e] = SWR, [0x30] = LW, [0x33] = NOP, [0x34] = LD, [0x37] = LD, [0x38] = SC, [0x3c] = SCD, [0x3f] = SD };
    switch (w >> 26) {
    case 0: d.op = sp[f];
        if (f == 0x3c || f == 0x3e || f == 0x3f) d.a += 32;
        if (f == 2 && d.rs & 1) d.op = ROTR; if ((f == 0x3a || f == 0x3e) && d.rs & 1) d.op = DROTR;
        if (f == 6 && d.a & 1) d.op = ROTRV; if (f == 0x16 && d.a & 1) d.op = DROTRV;
        if (!w) d.op = NOP; break;
    case 1: d.op = d.rt == 0 ? BLTZ : d.rt == 1 ? BGEZ : d.rt == 16 ? BLTZAL : d.rt == 17 ? BGEZAL : BAD; d.imm = br; break;
    case 2: case 3: d.op = w >> 26 == 2 ? J : JAL; d.imm = (s32)(((w & 0x3ffffff) << 2) - base) >> 2; break;
    case 0x1c: d.op = f == 0 ? MADD : f == 1 ? MADDU : f == 2 ? MUL : f == 4 ? MSUB : f == 5 ? MSUBU : f == 0x20 ? CLZ : f == 0x21 ? CLO : f == 0x24 ? DCLZ : f == 0x25 ? DCLO : BAD; break;
    case 0x1f: { int rd = d.rd, sa = d.a; d.a = sa; d.b = 0;       /* a: lowest bit, b: size */
        switch (f) {
        case 0: d.op = EXT; d.b = rd + 1; break; case 1: d.op = DEXT; d.b = rd + 33; break; case 2: d.op = DEXT; d.a = sa + 32; d.b = rd + 1; break; case 3: d.op = DEXT; d.b = rd + 1; break;
        case 4: d.op = INS; d.b = rd - sa + 1; break; case 5: d.op = DINS; d.b = rd + 32 - sa + 1; break; case 6: d.op = DINS; d.a = sa + 32; d.b = rd + 32 - d.a + 1; break; case 7: d.op = DINS; d.b = rd - sa + 1; break;
        case 0x20: d.op = sa == 2 ? WSBH : sa == 0x10 ? SEB : sa == 0x18 ? SEH : BAD; break; case 0x24: d.op = sa == 2 ? DSBH : sa == 5 ? DSHD : BAD; break; } break; }
    default: d.op = pl[w >> 26]; if (d.op >= ANDI && d.op <= XORI) d.imm = (uint16_t)w; if (d.op == LUI) d.imm = (s32)(w << 16); if (d.op >= BEQ && d.op <= BGTZ) d.imm = br; }
    return d;
}
emu *emu_new(u64 size) { emu *e = calloc(1, sizeof *e); e->mem = calloc(1, size + 16); e->size = size; return e; }
void emu_free(emu *e) { free(e->mem); free(e->code); free(e); }
uint8_t *emu_mem(emu *e) { return e->mem; } u64 emu_count(emu *e) { return e->count; } u64 emu_fault(emu *e) { return e->fault; } u64 emu_pc(emu *e) { return e->pc; } u32 emu_raw(emu *e) { return e->raw; }
void emu_code(emu *e, u64 base, u64 len) {
    e->base = base; e->end = base + len; e->n = len / 4; e->code = malloc((e->n + 2) * sizeof(ins));
    for (u64 i = 0; i < e->n; i++) e->code[i] = decode(be32(e->mem + base + 4 * i), i, base);
    e->code[e->n].op = BREAK; e->code[e->n + 1].op = BREAK;
}
/* 0: returned, result in *res; 1 bad instruction, 2 bad address, 3 misaligned, 4 break or trap, 5 too long */
#define LO 0x10000u
#define ADR(k) u64 a = (u64)(u32)(R[d->rs] + d->imm); if ((R[d->rs] + d->imm) >> 32 && (R[d->rs] + d->imm) >> 31 != 0x1ffffffffu) { e->fault = R[d->rs] + d->imm; rc = 2; goto out; } if (a < LO || a + (k) > e->size) { e->fault = a; rc = 2; goto out; } if (a & ((k) - 1)) { e->fault = a; rc = 3; goto out; } uint8_t *p = m + a
#define ADRU u64 a = (u64)(u32)(R[d->rs] + d->imm); if (a < LO || a + 8 > e->size) { e->fault = a; rc = 2; goto out; } uint8_t *p = m + a
#define W(r, v) R[r] = (u64)(s64)(s32)(v)
int emu_run(emu *e, u64 pc0, u64 sp, u64 gp, u64 a0, u64 a1, u64 max, u64 *res) {
    u64 R[32] = {0}, hi = 0, lo = 0, cnt = 0; uint8_t *m = e->mem; u64 pc = (pc0 - e->base) / 4, npc = pc + 1, n = e->n; int rc = 5; const ins *code = e->code, *d; u64 cur = pc;
    R[29] = sp; R[28] = gp; R[4] = a0; R[5] = a1; R[25] = pc0; R[31] = e->end;       /* returns to the end of the text */
    for (; cnt < max; cnt++) {
        if (pc >= n) { rc = pc == n ? 0 : 2; if (rc) e->fault = e->base + 4 * pc; goto out; }
        cur = pc; d = code + pc; pc = npc; npc++; R[0] = 0;
        switch (d->op) {
        case NOP: break;
        case SLL: W(d->rd, (u32)R[d->rt] << d->a); break; case SRL: W(d->rd, (u32)R[d->rt] >> d->a); break; case SRA: W(d->rd, (s32)R[d->rt] >> d->a); break;
        case ROTR: { u32 v = R[d->rt]; W(d->rd, v >> d->a | v << (-d->a & 31)); break; } case ROTRV: { u32 v = R[d->rt]; int s = R[d->rs] & 31; W(d->rd, v >> s | v << (-s & 31)); break; }
        case SLLV: W(d->rd, (u32)R[d->rt] << (R[d->rs] & 31)); break; case SRLV: W(d->rd, (u32)R[d->rt] >> (R[d->rs] & 31)); break; case SRAV: W(d->rd, (s32)R[d->rt] >> (R[d->rs] & 31)); break;
        case DSLL: R[d->rd] = R[d->rt] << d->a; break; case DSRL: R[d->rd] = R[d->rt] >> d->a; break; case DSRA: R[d->rd] = (s64)R[d->rt] >> d->a; break;
        case DROTR: R[d->rd] = R[d->rt] >> d->a | R[d->rt] << (-d->a & 63); break; case DROTRV: { int s = R[d->rs] & 63; R[d->rd] = R[d->rt] >> s | R[d->rt] << (-s & 63); break; }
        case DSLLV: R[d->rd] = R[d->rt] << (R[d->rs] & 63); break; case DSRLV: R[d->rd] = R[d->rt] >> (R[d->rs] & 63); break; case DSRAV: R[d->rd] = (s64)R[d->rt] >> (R[d->rs] & 63); break;
        case JR: npc = ((u64)(u32)R[d->rs] - e->base) / 4; break; case JALR: { u64 t = R[d->rs]; R[d->rd] = e->base + 4 * npc; npc = ((u64)(u32)t - e->base) / 4; break; }
        case J: npc = d->imm; break; case JAL: R[31] = e->base + 4 * npc; npc = d->imm; break;
        case MOVZ: if (!R[d->rt]) R[d->rd] = R[d->rs]; break; case MOVN: if (R[d->rt]) R[d->rd] = R[d->rs]; break;
        case BREAK: e->fault = e->base + 4 * cur; rc = 4; goto out; case TEQ: if (R[d->rs] == R[d->rt]) { e->fault = e->base + 4 * cur; rc = 4; goto out; } break;
        case MFHI: R[d->rd] = hi; break; case MTHI: hi = R[d->rs]; break; case MFLO: R[d->rd] = lo; break; case MTLO: lo = R[d->rs]; break;
        case MULT: { s64 v = (s64)(s32)R[d->rs] * (s32)R[d->rt]; lo = (s64)(s32)v; hi = (s64)(s32)(v >> 32); break; } case MULTU: { u64 v = (u64)(u32)R[d->rs] * (u32)R[d->rt]; lo = (s64)(s32)v; hi = (s64)(s32)(v >> 32); break; }
        case MADD: case MADDU: case MSUB: case MSUBU: { u64 acc = hi << 32 | (u32)lo, v = d->op == MADD || d->op == MSUB ? (u64)((s64)(s32)R[d->rs] * (s32)R[d->rt]) : (u64)(u32)R[d->rs] * (u32)R[d->rt]; acc = d->op == MADD || d->op == MADDU ? acc + v : acc - v; lo = (s64)(s32)acc; hi = (s64)(s32)(acc >> 32); break; }
        case DIV: { s64 a = (s32)R[d->rs], b = (s32)R[d->rt]; if (b) { lo = (s64)(s32)(a / b); hi = (s64)(s32)(a % b); } break; } case DIVU: { u32 a = R[d->rs], b = R[d->rt]; if (b) { lo = (s64)(s32)(a / b); hi = (s64)(s32)(a % b); } break; }
        case DMULT: { __int128 v = (__int128)(s64)R[d->rs] * (s64)R[d->rt]; lo = v; hi = v >> 64; break; } case DMULTU: { unsigned __int128 v = (unsigned __int128)R[d->rs] * R[d->rt]; lo = v; hi = v >> 64; break; }
        case DDIV: { __int128 a = (s64)R[d->rs], b = (s64)R[d->rt]; if (b) { lo = a / b; hi = a % b; } break; } case DDIVU: if (R[d->rt]) { lo = R[d->rs] / R[d->rt]; hi = R[d->rs] % R[d->rt]; } break;
        case ADDU: W(d->rd, (u32)R[d->rs] + (u32)R[d->rt]); break; case SUBU: W(d->rd, (u32)R[d->rs] - (u32)R[d->rt]); break; case MUL: W(d->rd, (u32)R[d->rs] * (u32)R[d->rt]); break;
        case AND: R[d->rd] = R[d->rs] & R[d->rt]; break; case OR: R[d->rd] = R[d->rs] | R[d->rt]; break; case XOR: R[d->rd] = R[d->rs] ^ R[d->rt]; break; case NOR: R[d->rd] = ~(R[d->rs] | R[d->rt]); break;
        case SLT: R[d->rd] = (s64)R[d->rs] < (s64)R[d->rt]; break; case SLTU: R[d->rd] = R[d->rs] < R[d->rt]; break; case DADDU: R[d->rd] = R[d->rs] + R[d->rt]; break; case DSUBU: R[d->rd] = R[d->rs] - R[d->rt]; break;
        case BLTZ: if ((s64)R[d->rs] < 0) npc = d->imm; break; case BGEZ: if ((s64)R[d->rs] >= 0) npc = d->imm; break;
        case BLTZAL: { int t = (s64)R[d->rs] < 0; R[31] = e->base + 4 * npc; if (t) npc = d->imm; break; } case BGEZAL: { int t = (s64)R[d->rs] >= 0; R[31] = e->base + 4 * npc; if (t) npc = d->imm; break; }
        case BEQ: if (R[d->rs] == R[d->rt]) npc = d->imm; break; case BNE: if (R[d->rs] != R[d->rt]) npc = d->imm; break; case BLEZ: if ((s64)R[d->rs] <= 0) npc = d->imm; break; case BGTZ: if ((s64)R[d->rs] > 0) npc = d->imm; break;
        case ADDIU: W(d->rt, (u32)R[d->rs] + (u32)d->imm); break; case DADDIU: R[d->rt] = R[d->rs] + d->imm; break; case SLTI: R[d->rt] = (s64)R[d->rs] < d->imm; break; case SLTIU: R[d->rt] = R[d->rs] < (u64)(s64)d->imm; break;
        case ANDI: R[d->rt] = R[d->rs] & (u32)d->imm; break; case ORI: R[d->rt] = R[d->rs] | (u32)d->imm; break; case XORI: R[d->rt] = R[d->rs] ^ (u32)d->imm; break; case LUI: R[d->rt] = (s64)d->imm; break;
        case CLZ: { u32 v = R[d->rs]; R[d->rd] = v ? __builtin_clz(v) : 32; break; } case CLO: { u32 v = ~R[d->rs]; R[d->rd] = v ? __builtin_clz(v) : 32; break; } case DCLZ: R[d->rd] = R[d->rs] ? __builtin_clzll(R[d->rs]) : 64; break; case DCLO: R[d->rd] = ~R[d->rs] ? __builtin_clzll(~R[d->rs]) : 64; break;
        case EXT: W(d->rt, (u32)((u32)R[d->rs] >> d->a & (d->b == 32 ? ~0u : (1u << d->b) - 1))); break; case DEXT: R[d->rt] = R[d->rs] >> d->a & (d->b == 64 ? ~0ull : (1ull << d->b) - 1); break;
        case INS: { u32 k = d->b == 32 ? ~0u : ((1u << d->b) - 1) << d->a; W(d->rt, ((u32)R[d->rt] & ~k) | ((u32)R[d->rs] << d->a & k)); break; } case DINS: { u64 k = d->b == 64 ? ~0ull : ((1ull << d->b) - 1) << d->a; R[d->rt] = (R[d->rt] & ~k) | (R[d->rs] << d->a & k); break; }
        case WSBH: { u32 v = R[d->rt]; W(d->rd, (v & 0xff00ff00u) >> 8 | (v & 0xff00ffu) << 8); break; } case SEB: R[d->rd] = (s64)(int8_t)R[d->rt]; break; case SEH: R[d->rd] = (s64)(int16_t)R[d->rt]; break;
        case DSBH: { u64 v = R[d->rt]; R[d->rd] = (v & 0xff00ff00ff00ff00ull) >> 8 | (v & 0xff00ff00ff00ffull) << 8; break; } case DSHD: { u64 v = R[d->rt]; v = v >> 32 | v << 32; R[d->rd] = (v & 0xffff0000ffff0000ull) >> 16 | (v & 0xffff0000ffffull) << 16; break; }
        case LB: { ADR(1); R[d->rt] = (s64)(int8_t)*p; break; } case LBU: { ADR(1); R[d->rt] = *p; break; } case LH: { ADR(2); R[d->rt] = (s64)(int16_t)(p[0] << 8 | p[1]); break; } case LHU: { ADR(2); R[d->rt] = p[0] << 8 | p[1]; break; }
        case LW: { ADR(4); R[d->rt] = (s64)(s32)be32(p); break; } case LWU: { ADR(4); R[d->rt] = be32(p); break; } case LD: { ADR(8); u64 v; memcpy(&v, p, 8); R[d->rt] = __builtin_bswap64(v); break; }
        case SB: { ADR(1); *p = R[d->rt]; break; } case SH: { ADR(2); p[0] = R[d->rt] >> 8; p[1] = R[d->rt]; break; } case SW: { ADR(4); u32 v = __builtin_bswap32(R[d->rt]); memcpy(p, &v, 4); break; } case SD: { ADR(8); u64 v = __builtin_bswap64(R[d->rt]); memcpy(p, &v, 8); break; }
        case SC: { ADR(4); u32 v = __builtin_bswap32(R[d->rt]); memcpy(p, &v, 4); R[d->rt] = 1; break; } case SCD: { ADR(8); u64 v = __builtin_bswap64(R[d->rt]); memcpy(p, &v, 8); R[d->rt] = 1; break; }
        case LWL: { ADRU; int k = a & 3; u32 v = R[d->rt]; for (int i = 0; i < 4 - k; i++) { int s = 24 - 8 * i; v = (v & ~(255u << s)) | (u32)p[i] << s; } W(d->rt, v); break; }
        case LWR: { ADRU; int k = a & 3; u32 v = R[d->rt]; for (int i = 0; i <= k; i++) { int s = 8 * i; v = (v & ~(255u << s)) | (u32)p[-i] << s; } if (k == 3) W(d->rt, v); else W(d->rt, v); break; }
        case SWL: { ADRU; int k = a & 3; for (int i = 0; i < 4 - k; i++) p[i] = R[d->rt] >> (24 - 8 * i); break; } case SWR: { ADRU; int k = a & 3; for (int i = 0; i <= k; i++) p[-i] = R[d->rt] >> (8 * i); break; }
        case LDL: { ADRU; int k = a & 7; u64 v = R[d->rt]; for (int i = 0; i < 8 - k; i++) { int s = 56 - 8 * i; v = (v & ~(255ull << s)) | (u64)p[i] << s; } R[d->rt] = v; break; }
        case LDR: { ADRU; int k = a & 7; u64 v = R[d->rt]; for (int i = 0; i <= k; i++) { int s = 8 * i; v = (v & ~(255ull << s)) | (u64)p[-i] << s; } R[d->rt] = v; break; }
        case SDL: { ADRU; int k = a & 7; for (int i = 0; i < 8 - k; i++) p[i] = R[d->rt] >> (56 - 8 * i); break; } case SDR: { ADRU; int k = a & 7; for (int i = 0; i <= k; i++) p[-i] = R[d->rt] >> (8 * i); break; }
        default: e->raw = be32(m + e->base + 4 * cur); rc = 1; goto out;
        }
    }
out: e->pc = e->base + 4 * cur; e->count += cnt; *res = R[2]; return rc;
}
