// Relocation application: for every relocation type, any addresses, addend and prior contents of the place, the
// linker either writes exactly the field the ABI defines for the relocation's value or reports an error and writes
// nothing; it reports an error exactly when the value is not representable.
#include "vp.h"
#ifndef VP_NATIVE
#include <stdarg.h>
int vsnprintf(char *s, size_t n, const char *f, va_list a) { s[0] = 0; return 0; }
#endif
#include "src/ld/ld_elf_reloc.c"
#include "src/ld/ld_elf_riscv_uleb.c"
int ld_elf_fail(ld_elf_context_t *ctx, int code, const char *format, ...) { return code; }

#ifdef WIDE
typedef __int128 I; // any 64-bit address and addend
#define P2(n) ((I) 1 << (n))
#define BOUND(x) (x)
#else
typedef int64_t I; // addresses below 2^40, addends of 34 bits; sums cannot overflow, so 2^62 stands for every larger limit
#define P2(n) ((n) > 62 ? (I) 1 << 62 : (I) 1 << (n))
#define BOUND(x) ((x) & ((1ULL << 40) - 1))
#endif
#ifndef LO
#define LO 0
#define HI 1000
#endif
#define SOME(n, f) VP_CASES((n) < HI - LO ? (n) : HI - LO, f)
static ld_elf_object_t obj;
static ld_elf_reloc_values_t v;
static ld_elf_relocation_t r;
static uint8_t *buf;     // the place, PS bytes
static uint8_t old[16];
static size_t PS;
static int rc;

static uint64_t rd(const uint8_t *p, int w) {
    uint64_t x = 0;
    for (int i = 0; i < w; i++) x |= (uint64_t) p[i] << (8 * i);
    return x;
}
static int64_t sx(uint64_t x, int bits) { return (int64_t) (x << (64 - bits)) >> (64 - bits); }

static void setup(uint16_t machine, uint32_t type) {
    obj.header.e_machine = machine;
    r.type = type;
    r.addend = vp_i64();
#ifndef WIDE
    VP_ASSUME(r.addend >= -(1LL << 33) && r.addend < (1LL << 33));
#endif
    v.place_address = BOUND(vp_u64());
    v.symbol_address = BOUND(vp_u64());
    v.got_entry_address = BOUND(vp_u64());
    v.got_base_address = BOUND(vp_u64());
    v.symbol_size = BOUND(vp_u64());
    v.tls_block_address = BOUND(vp_u64());
    v.thread_pointer_address = BOUND(vp_u64());
    v.image_base_address = BOUND(vp_u64());
    PS = 12;
    buf = malloc(PS);
    vp_bytes(buf, PS);
}
static void apply(void) {
    for (size_t i = 0; i < PS; i++) old[i] = buf[i];
    rc = ld_elf_relocation_apply(NULL, &obj, NULL, &r, buf, PS, &v);
    if (rc != LD_OK) {
        for (size_t i = 0; i < PS; i++) VP_ASSERT(buf[i] == old[i], "a relocation that is refused leaves the place unchanged");
    }
}
static void same_from(size_t w) {
    for (size_t i = w; i < PS; i++) VP_ASSERT(buf[i] == old[i], "bytes behind the relocated field are unchanged");
}
// accepted exactly when representable: required inside [lo,hi], allowed only inside [alo,ahi], aligned
static void range(I x, I lo, I hi, I alo, I ahi, int align) {
    bool al = ((uint64_t) x & (uint64_t) (align - 1)) == 0;
    if (x >= lo && x <= hi && al) VP_ASSERT(rc == LD_OK, "a representable value is accepted");
    if (rc == LD_OK) VP_ASSERT(x >= alo && x <= ahi && al, "a value that is not representable is refused");
}
static void sgn(I x, int bits, int align) { range(x, -P2(bits - 1), P2(bits - 1) - 1, -P2(bits - 1), P2(bits - 1) - 1, align); }
static void any(void) { VP_ASSERT(rc == LD_OK, "a value that always fits is accepted"); }
static void data(I x, int w) {
    if (rc != LD_OK) return;
    VP_ASSERT(rd(buf, w) == (w == 8 ? (uint64_t) x : (uint64_t) x & ((1ULL << (8 * w)) - 1)), "the field holds the relocation value");
    same_from(w);
}
static void rangeu(I x, int bits) { range(x, 0, P2(bits) - 1, -P2(bits - 1), P2(bits) - 1, 1); }
static void ranges(I x, int bits) { range(x, -P2(bits - 1), P2(bits - 1) - 1, -P2(bits - 1), P2(bits) - 1, 1); }

#define S ((I) v.symbol_address)
#define A ((I) r.addend)
#define PL ((I) v.place_address)
#define G ((I) v.got_entry_address)
#define GB ((I) v.got_base_address)
#define TP ((I) v.thread_pointer_address)
#define DTP ((I) v.tls_block_address)

/* ---- x86-64 ---- */
static const uint16_t x86_types[] = {0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 17, 18, 21, 22, 23, 24, 25, 26, 27, 28, 29, 31, 32, 33, 41, 42};
static void c_x86(int k) {
    uint32_t t = x86_types[k + LO];
    setup(LD_ELF_EM_X86_64, t);
    apply();
    I x;
    switch (t) {
        case 0: any(); same_from(0); break;
        case 1: any(); data(S + A, 8); break;                                   // 64
        case 2: case 4: x = S + A - PL; sgn(x, 32, 1); data(x, 4); break;       // PC32 PLT32
        case 3: x = G + A - GB; sgn(x, 32, 1); data(x, 4); break;               // GOT32
        case 9: case 41: case 42: case 22: x = G + A - PL; sgn(x, 32, 1); data(x, 4); break;
        case 10: x = S + A; range(x, 0, P2(32) - 1, 0, P2(32) - 1, 1); data(x, 4); break; // 32: zero-extended
        case 11: x = S + A; sgn(x, 32, 1); data(x, 4); break;                   // 32S: sign-extended
        case 12: x = S + A; rangeu(x, 16); data(x, 2); break;
        case 13: x = S + A - PL; sgn(x, 16, 1); data(x, 2); break;
        case 14: x = S + A; ranges(x, 8); data(x, 1); break;
        case 15: x = S + A - PL; sgn(x, 8, 1); data(x, 1); break;
        case 17: x = S + A - DTP; sgn(x, 64, 1); data(x, 8); break;
        case 18: x = S + A - TP; sgn(x, 64, 1); data(x, 8); break;
        case 21: x = S + A - DTP; sgn(x, 32, 1); data(x, 4); break;
        case 23: x = S + A - TP; sgn(x, 32, 1); data(x, 4); break;
        case 24: x = S + A - PL; sgn(x, 64, 1); data(x, 8); break;
        case 25: case 31: x = S + A - GB; sgn(x, 64, 1); data(x, 8); break;
        case 26: x = GB + A - PL; sgn(x, 32, 1); data(x, 4); break;
        case 27: x = G + A - GB; sgn(x, 64, 1); data(x, 8); break;
        case 28: x = G + A - PL; sgn(x, 64, 1); data(x, 8); break;
        case 29: x = GB + A - PL; sgn(x, 64, 1); data(x, 8); break;
        case 32: x = (I) v.symbol_size + A; ranges(x, 32); data(x, 4); break;
        case 33: x = (I) v.symbol_size + A; range(x, -P2(63), P2(63) - 1, -P2(63), P2(64) - 1, 1); data(x, 8); break;
    }
    if (rc == LD_OK) VP_REACH("accepted");
}
void h_x86_reloc(void) { SOME((int) (sizeof(x86_types) / 2) - LO, c_x86); }

/* ---- AArch64 ---- */
static uint32_t insn(void) { return (uint32_t) rd(buf, 4); }
static uint32_t oinsn(void) { return (uint32_t) rd(old, 4); }
static void keep(uint32_t fieldmask) {
    VP_ASSERT(((insn() ^ oinsn()) & ~fieldmask) == 0, "the other bits of the instruction are unchanged");
    same_from(4);
}
static void adr(I imm) {
    if (rc != LD_OK) return;
    int64_t got = sx(((insn() >> 5) & 0x7ffff) << 2 | ((insn() >> 29) & 3), 21);
    VP_ASSERT((I) got == imm, "ADR/ADRP immediate");
    keep(0x60ffffe0);
}
static void br26(I x) { if (rc == LD_OK) { VP_ASSERT((I) sx((uint64_t) insn() & 0x3ffffff, 26) * 4 == x, "branch displacement"); keep(0x03ffffff); } }
static void br19(I x) { if (rc == LD_OK) { VP_ASSERT((I) sx((insn() >> 5) & 0x7ffff, 19) * 4 == x, "imm19 displacement"); keep(0x00ffffe0); } }
static void br14(I x) { if (rc == LD_OK) { VP_ASSERT((I) sx((insn() >> 5) & 0x3fff, 14) * 4 == x, "imm14 displacement"); keep(0x0007ffe0); } }
static void imm12(I x) { if (rc == LD_OK) { VP_ASSERT((I) ((insn() >> 10) & 0xfff) == x, "imm12"); keep(0x003ffc00); } }
static void movw(I x) { if (rc == LD_OK) { VP_ASSERT((I) ((insn() >> 5) & 0xffff) == x, "MOVW imm16"); keep(0x001fffe0); } }
static I page(I x) { return x >> 12; }
static const uint16_t a64_types[] = {0, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 273, 274, 275, 277, 279, 280, 282, 283, 309, 311, 312, 313, 513, 514, 541, 542};
static void c_a64(int k) {
    uint32_t t = a64_types[k + LO];
    setup(LD_ELF_EM_AARCH64, t);
    apply();
    I x;
    switch (t) {
        case 0: any(); same_from(0); break;
        case 257: any(); data(S + A, 8); break;
        case 258: x = S + A; rangeu(x, 32); data(x, 4); break;
        case 259: x = S + A; rangeu(x, 16); data(x, 2); break;
        case 260: x = S + A - PL; sgn(x, 64, 1); data(x, 8); break;
        case 261: x = S + A - PL; ranges(x, 32); data(x, 4); break;
        case 262: x = S + A - PL; ranges(x, 16); data(x, 2); break;
        case 263: x = S + A; range(x, 0, P2(16) - 1, 0, P2(16) - 1, 1); movw(x & 0xffff); break;
        case 264: x = S + A; any(); movw(x & 0xffff); break;
        case 265: x = S + A; range(x, 0, P2(32) - 1, 0, P2(32) - 1, 1); movw((x >> 16) & 0xffff); break;
        case 266: x = S + A; any(); movw((x >> 16) & 0xffff); break;
        case 267: x = S + A; range(x, 0, P2(48) - 1, 0, P2(48) - 1, 1); movw((x >> 32) & 0xffff); break;
        case 268: x = S + A; any(); movw((x >> 32) & 0xffff); break;
        case 269: x = S + A; range(x, 0, P2(64) - 1, -P2(63), P2(65), 1); movw((x >> 48) & 0xffff); break;
        case 273: x = S + A - PL; sgn(x, 21, 4); br19(x); break;
        case 274: x = S + A - PL; sgn(x, 21, 1); adr(x); break;
        case 275: x = page(S + A) - page(PL); sgn(x, 21, 1); adr(x); break;
        case 277: x = S + A; any(); imm12(x & 0xfff); break;
        case 279: x = S + A - PL; sgn(x, 16, 4); br14(x); break;
        case 280: x = S + A - PL; sgn(x, 21, 4); br19(x); break;
        case 282: case 283: x = S + A - PL; sgn(x, 28, 4); br26(x); break;
        case 309: x = G + A - PL; sgn(x, 21, 4); br19(x); break;
        case 311: case 513: case 541: x = page(G + A) - page(PL); sgn(x, 21, 1); adr(x); break;
        case 312: case 542: x = G + A; range(x, -P2(63), P2(66), -P2(63), P2(66), 8); imm12((x & 0xfff) / 8); break;
        case 313: x = G + A - (GB & ~(I) 0xfff); range(x, 0, P2(15) - 1, 0, P2(15) - 1, 8); imm12(x / 8); break;
        case 514: x = G + A; any(); imm12(x & 0xfff); break;
    }
    if (rc == LD_OK) VP_REACH("accepted");
}
void h_a64_reloc(void) { SOME((int) (sizeof(a64_types) / 2) - LO, c_a64); }

static const uint16_t a64_ls[] = {278, 284, 285, 286, 299};
static const uint16_t a64_tls_ls[] = {552, 554, 556, 558, 570};
static void c_a64_ls(int k) {
    uint32_t t = k < 5 ? a64_ls[k] : k < 15 ? a64_tls_ls[(k - 5) / 2] + (k - 5) % 2 : 549 + (k - 15);
    int scale = 1 << (k < 5 ? k : (k - 5) / 2);
    setup(LD_ELF_EM_AARCH64, t);
    I x;
    if (k >= 5) VP_ASSUME(S + A - TP >= 0); // a thread-local lies above the thread pointer on this target
    apply();
    if (k < 5) {
        x = S + A;
        range(x, -P2(63), P2(66), -P2(63), P2(66), scale);
        imm12((x & 0xfff) / scale);
    } else {
        x = S + A - TP;
        if (k == 15) { // ADD_TPREL_HI12 (values from 2^23 on may be refused)
            range(x, 0, P2(23) - 1, 0, P2(24) - 1, 1);
            imm12(x >> 12);
        } else if (k == 16) {
            range(x, 0, 0xfff, 0, 0xfff, 1);
            imm12(x);
        } else if (k == 17) {
            range(x, 0, P2(63) - 1, 0, P2(66), 1);
            imm12(x & 0xfff);
        } else if ((k - 5) % 2 == 0) {
            range(x, 0, 0xfff, 0, 0xfff, scale);
            imm12(x / scale);
        } else {
            range(x, 0, P2(63) - 1, 0, P2(66), scale);
            imm12((x & 0xfff) / scale);
        }
    }
    if (rc == LD_OK) VP_REACH("accepted");
}
void h_a64_loadstore(void) { VP_CASES(18, c_a64_ls); }

// TLS descriptor sequence relaxed to local-exec: x0 = offset of the variable from the thread pointer
static uint32_t apply1(uint32_t type, uint32_t ins, bool *ok) {
    r.type = type;
    for (int i = 0; i < 4; i++) buf[i] = ins >> (8 * i);
    apply();
    *ok = rc == LD_OK;
    return insn();
}
void h_a64_tlsdesc(void) {
    setup(LD_ELF_EM_AARCH64, 562);
    uint32_t i1 = 0x90000000 | (vp_u32() & 0x60ffffe0), i2 = 0xf9400000 | (vp_u32() & 0x3ffc1f), i3 = 0x91000000 | (vp_u32() & 0x3ffc00), i4 = 0xd63f0000 | (vp_u32() & 0x3e0);
    bool o1, o2, o3, o4;
    I x = S + A - TP;
    VP_ASSUME(x >= 0); // a thread-local lies above the thread pointer on this target
    uint32_t n1 = apply1(562, i1, &o1), n2 = apply1(563, i2, &o2), n3 = apply1(564, i3, &o3), n4 = apply1(569, i4, &o4);
    VP_ASSERT((x < P2(31)) == (o1 && o2 && o3 && o4), "accepted exactly when the offset fits");
    if (o1 && o2 && o3 && o4) {
        VP_ASSERT(n1 == 0xd503201f && n2 == 0xd503201f, "address computation of the descriptor becomes NOPs");
        VP_ASSERT((n3 & 0xffe0001f) == 0xd2a00000 && (n4 & 0xffe0001f) == 0xf2800000, "MOVZ x0, hi, lsl 16; MOVK x0, lo");
        VP_ASSERT((I) (((n3 >> 5) & 0xffff) << 16 | ((n4 >> 5) & 0xffff)) == x, "the sequence yields the thread-pointer offset");
        VP_REACH("tlsdesc");
    }
}

/* ---- RISC-V ---- */
static int64_t dec_i(uint32_t i) { return sx(i >> 20, 12); }
static int64_t dec_s(uint32_t i) { return sx((i >> 25) << 5 | ((i >> 7) & 0x1f), 12); }
static int64_t dec_b(uint32_t i) { return sx((uint64_t) (i >> 31) << 12 | (uint64_t) ((i >> 7) & 1) << 11 | ((i >> 25) & 0x3f) << 5 | ((i >> 8) & 0xf) << 1, 13); }
static int64_t dec_j(uint32_t i) { return sx((uint64_t) (i >> 31) << 20 | ((i >> 12) & 0xff) << 12 | ((i >> 20) & 1) << 11 | ((i >> 21) & 0x3ff) << 1, 21); }
static int64_t dec_u(uint32_t i) { return (int64_t) (int32_t) (i & 0xfffff000); }
static int64_t dec_cb(uint16_t i) { return sx((uint64_t) ((i >> 12) & 1) << 8 | ((i >> 10) & 3) << 3 | ((i >> 5) & 3) << 6 | ((i >> 3) & 3) << 1 | ((i >> 2) & 1) << 5, 9); }
static int64_t dec_cj(uint16_t i) {
    return sx((uint64_t) ((i >> 12) & 1) << 11 | ((i >> 11) & 1) << 4 | ((i >> 9) & 3) << 8 | ((i >> 8) & 1) << 10 | ((i >> 7) & 1) << 6 | ((i >> 6) & 1) << 7 | ((i >> 3) & 7) << 1 | ((i >> 2) & 1) << 5, 12);
}
static const uint8_t rv_data[] = {0, 1, 2, 3, 8, 9, 10, 11, 33, 34, 35, 36, 37, 38, 39, 40, 51, 52, 53, 54, 55, 56, 57};
static void c_rv_data(int k) {
    uint32_t t = rv_data[k];
    setup(LD_ELF_EM_RISCV, t);
    apply();
    I x = S + A;
    uint64_t o8 = rd(old, 8);
    switch (t) {
        case 0: case 51: any(); same_from(0); break;
        case 1: rangeu(x, 32); data(x, 4); break;
        case 2: any(); data(x, 8); break;
        case 3: any(); data((I) v.image_base_address + A, 8); break;
        case 8: x = S + A - (DTP + 0x800); if (DTP + 0x800 < P2(64)) sgn(x, 32, 1); data(x, 4); break;
        case 9: x = S + A - (DTP + 0x800); if (DTP + 0x800 < P2(64)) sgn(x, 64, 1); data(x, 8); break;
        case 10: x = S + A - TP; sgn(x, 32, 1); data(x, 4); break;
        case 11: x = S + A - TP; sgn(x, 64, 1); data(x, 8); break;
        case 33: any(); data((I) o8 + x, 1); break;
        case 34: any(); data((I) o8 + x, 2); break;
        case 35: any(); data((I) o8 + x, 4); break;
        case 36: any(); data((I) o8 + x, 8); break;
        case 37: any(); data((I) o8 - x, 1); break;
        case 38: any(); data((I) o8 - x, 2); break;
        case 39: any(); data((I) o8 - x, 4); break;
        case 40: any(); data((I) o8 - x, 8); break;
        case 52: any(); VP_ASSERT(buf[0] == (uint8_t) ((old[0] & 0xc0) | ((old[0] - (uint64_t) x) & 0x3f)), "SUB6"); same_from(1); break;
        case 53: any(); VP_ASSERT(buf[0] == (uint8_t) ((old[0] & 0xc0) | ((uint64_t) x & 0x3f)), "SET6"); same_from(1); break;
        case 54: any(); data(x, 1); break;
        case 55: any(); data(x, 2); break;
        case 56: any(); data(x, 4); break;
        case 57: x = S + A - PL; sgn(x, 32, 1); data(x, 4); break;
    }
    if (rc == LD_OK) VP_REACH("accepted");
}
void h_rv_data(void) { VP_CASES((int) sizeof(rv_data), c_rv_data); }

static bool itype(uint32_t i) { i &= 0x7f; return i == 3 || i == 7 || i == 0x13 || i == 0x1b || i == 0x67; }
static bool stype(uint32_t i) { i &= 0x7f; return i == 0x23 || i == 0x27; }
static const uint8_t rv_br[] = {16, 17, 44, 45};
static void c_rv_branch(int k) {
    uint32_t t = rv_br[k];
    setup(LD_ELF_EM_RISCV, t);
    uint32_t i0 = (uint32_t) rd(buf, 4);
    I x = S + A - PL;
    if (t == 16) VP_ASSUME((i0 & 0x7f) == 0x63);
    if (t == 17) VP_ASSUME((i0 & 0x7f) == 0x6f);
    if (t == 44) VP_ASSUME((i0 & 0xc003) == 0xc001);
    if (t == 45) VP_ASSUME((i0 & 0xe003) == 0xa001);
    apply();
    sgn(x, t == 16 ? 13 : t == 17 ? 21 : t == 44 ? 9 : 12, 2);
    if (rc == LD_OK) {
        if (t == 16) { VP_ASSERT((I) dec_b(insn()) == x, "branch displacement"); keep(0xfe000f80); }
        if (t == 17) { VP_ASSERT((I) dec_j(insn()) == x, "jump displacement"); keep(0xfffff000); }
        if (t == 44) { VP_ASSERT((I) dec_cb(insn()) == x, "compressed branch displacement"); keep(0x1c7c); }
        if (t == 45) { VP_ASSERT((I) dec_cj(insn()) == x, "compressed jump displacement"); keep(0x1ffc); }
        VP_REACH("accepted");
    }
}
void h_rv_branch(void) { VP_CASES(4, c_rv_branch); }

// High/low pairs: the upper instruction adds hi(x) << 12 and the lower one lo(x), and those two sum to exactly x.
static int64_t hi_of(I x) { return (int64_t) (int32_t) (uint32_t) ((x + 0x800) & 0xfffff000); }
static int64_t lo_of(I x) { return sx((uint64_t) x & 0xfff, 12); }
void h_rv_sum(void) {
    I x = vp_i64();
    VP_ASSUME(x >= -P2(31) && x <= P2(31) - 1 - 0x800);
    VP_ASSERT((I) hi_of(x) + lo_of(x) == x, "the two parts sum to the address");
    VP_REACH("sum");
}
static void c_rv_hi(int k) { // PCREL, GOT, TLS_GOT, TLS_GD, absolute, TPREL
    static const uint8_t ty[] = {23, 20, 21, 22, 26, 29};
    uint32_t t = ty[k];
    setup(LD_ELF_EM_RISCV, t);
    I x = t == 23 ? S + A - PL : t == 26 ? S + A : t == 29 ? S + A - TP : G + A - PL;
    VP_ASSUME(((uint32_t) rd(buf, 4) & 0x7f) == (t == 26 || t == 29 ? 0x37 : 0x17));
    apply();
    range(x, -P2(31), P2(31) - 1 - 0x800, -P2(31) - 0x800, P2(31) - 1 - 0x800, 1);
    if (rc == LD_OK) {
        VP_ASSERT(dec_u(insn()) == hi_of(x), "upper part of the address");
        keep(0xfffff000);
        VP_REACH("accepted");
    }
}
void h_rv_hi(void) { VP_CASES(6, c_rv_hi); }
static void c_rv_lo(int k) {
    static const uint8_t hi[] = {23, 20, 21, 22, 26, 29};
    k += LO;
    bool store = k & 1;
    uint32_t ht = hi[k / 2];
    setup(LD_ELF_EM_RISCV, ht == 26 ? 27 + store : ht == 29 ? 30 + store : 24 + store);
    I x = ht == 23 ? S + A - PL : ht == 26 ? S + A : ht == 29 ? S + A - TP : G + A - PL;
    if (ht < 26) {
        v.paired_hi.present = true;
        v.paired_hi.type = ht;
        v.paired_hi.place_address = v.place_address;
        v.paired_hi.symbol_address = v.symbol_address;
        v.paired_hi.got_entry_address = v.got_entry_address;
        v.paired_hi.addend = r.addend;
        v.symbol_address = v.place_address;
        v.place_address = vp_u64();
        v.got_entry_address = vp_u64();
        r.addend = 0;
    }
    VP_ASSUME(store ? stype((uint32_t) rd(buf, 4)) : itype((uint32_t) rd(buf, 4)));
    apply();
    if (x >= -P2(31) && x <= P2(31) - 1 - 0x800) VP_ASSERT(rc == LD_OK, "an address in reach is accepted");
    if (rc == LD_OK) {
        VP_ASSERT((store ? dec_s(insn()) : dec_i(insn())) == lo_of(x), "lower part of the address");
        keep(store ? 0xfe000f80 : 0xfff00000);
        VP_REACH("accepted");
    }
}
void h_rv_lo(void) { SOME(12 - LO, c_rv_lo); }
static void c_rv_call(int k) {
    setup(LD_ELF_EM_RISCV, 18 + k % 2);
    bool addi = k == 2;
    uint32_t i0 = (uint32_t) rd(buf, 4), i1 = (uint32_t) rd(buf + 4, 4), rdst = (i0 >> 7) & 31;
    VP_ASSUME((i0 & 0x7f) == 0x17 && ((i1 >> 15) & 31) == rdst);
    if (addi) VP_ASSUME((i1 & 0x707f) == 0x13 && ((i1 >> 7) & 31) == rdst);
    else VP_ASSUME((i1 & 0x707f) == 0x67);
    I x = S + A - PL;
    apply();
    if (x >= -P2(31) && x <= P2(31) - 1 - 0x800 && (addi || (x & 1) == 0)) VP_ASSERT(rc == LD_OK, "a target in reach is accepted");
    if (rc == LD_OK) {
        uint32_t n0 = (uint32_t) rd(buf, 4), n1 = (uint32_t) rd(buf + 4, 4);
        VP_ASSERT(dec_u(n0) == hi_of(x) && dec_i(n1) == lo_of(x) && x <= P2(31) - 1 - 0x800 && x >= -P2(31) - 0x800, "the call reaches its target");
        VP_ASSERT(((n0 ^ i0) & 0xfff) == 0 && ((n1 ^ i1) & 0xfffff) == 0, "the other bits are unchanged");
        same_from(8);
        VP_REACH("accepted");
    }
}
void h_rv_call(void) { VP_CASES(3, c_rv_call); }

// an instruction the relocation does not apply to is refused
static void c_rv_wrong(int k) {
    static const uint8_t ty[] = {16, 17, 18, 20, 23, 26, 27, 28, 29, 30, 31, 32, 44, 45};
    uint32_t t = ty[k];
    setup(LD_ELF_EM_RISCV, t);
    uint32_t i0 = (uint32_t) rd(buf, 4), op = i0 & 0x7f;
    apply();
    bool good = t == 16 ? op == 0x63 : t == 17 ? op == 0x6f : t == 18 || t == 20 || t == 23 ? op == 0x17 : t == 26 || t == 29 ? op == 0x37 :
                t == 27 || t == 30 ? itype(i0) : t == 28 || t == 31 ? stype(i0) : t == 32 ? (i0 & 0xfe00707f) == 0x33 : t == 44 ? (i0 & 0xc003) == 0xc001 : (i0 & 0xe003) == 0xa001;
    if (rc == LD_OK) { VP_ASSERT(good, "the relocation matches the instruction"); VP_REACH("accepted"); }
}
void h_rv_wrong(void) { VP_CASES(14, c_rv_wrong); }

// alignment directive: accepted only if the padding is NOPs and aligns what follows
static void c_rv_align(int k) {
    setup(LD_ELF_EM_RISCV, 43);
    if (k < 7) { r.addend = 2 * k; }
    else VP_ASSUME(r.addend < 0 || r.addend > 12);
    apply();
    same_from(0);
    if (rc == LD_OK) {
        VP_ASSERT(k < 7, "padding of an impossible size is refused");
        uint64_t pad = 2 * k, al = pad == 0 ? 1 : pad == 2 ? 4 : pad < 8 ? 8 : 16;
        VP_ASSERT(((v.place_address + pad) & (al - 1)) == 0, "what follows is aligned");
        VP_REACH("accepted");
    }
}
void h_rv_align(void) { VP_CASES(8, c_rv_align); }

// ULEB128 set/sub: the field keeps its width and terminator and holds the value truncated to it
static void c_rv_uleb(int k) {
    int w = 1 + k % 3;
    bool sub = k / 3 == 1, pair = k / 3 == 2;
    setup(LD_ELF_EM_RISCV, sub ? 61 : 60);
    if (sub) r.addend = 0;
    for (int i = 0; i < w; i++) buf[i] = i + 1 < w ? buf[i] | 0x80 : buf[i] & 0x7f;
    uint64_t cur = 0, res = 0, want, mask = (1ULL << (7 * w)) - 1;
    for (int i = 0; i < w; i++) cur |= (uint64_t) (buf[i] & 0x7f) << (7 * i);
    if (pair) {
        ld_elf_relocation_t r2 = r;
        ld_elf_reloc_values_t v2 = v;
        r2.type = 61;
        r2.addend = 0;
        v2.symbol_address = BOUND(vp_u64());
        for (size_t i = 0; i < PS; i++) old[i] = buf[i];
        rc = ld_elf_relocation_apply_riscv_uleb_pair(NULL, &obj, NULL, &r, &r2, buf, PS, &v, &v2);
        if (rc != LD_OK) for (size_t i = 0; i < PS; i++) VP_ASSERT(buf[i] == old[i], "a relocation that is refused leaves the place unchanged");
        want = (uint64_t) (S + A) - (v2.symbol_address - (uint64_t) r2.addend);
        if (S + A >= 0 && S + A < P2(64) && r2.addend == 0) VP_ASSERT(rc == LD_OK, "accepted");
    } else {
        apply();
        want = sub ? cur - (v.symbol_address - (uint64_t) r.addend) : (uint64_t) (S + A);
        if (A == 0) VP_ASSERT(rc == LD_OK, "accepted");
    }
    if (rc == LD_OK) {
        for (int i = 0; i < w; i++) res |= (uint64_t) (buf[i] & 0x7f) << (7 * i);
        VP_ASSERT(res == (want & mask), "the field holds the value");
        for (int i = 0; i < w; i++) VP_ASSERT((buf[i] >> 7) == (i + 1 < w), "the field keeps its width");
        same_from(w);
        VP_REACH("accepted");
    }
}
void h_rv_uleb(void) { VP_CASES(9, c_rv_uleb); }

// a place that is too small for the field is refused and not touched
#ifndef ARCH
#define ARCH 0
#endif
static void c_small(int k) {
    static const uint16_t m[] = {LD_ELF_EM_X86_64, LD_ELF_EM_AARCH64, LD_ELF_EM_RISCV};
    uint32_t t = vp_u32();
    setup(m[ARCH], 0);
    r.type = t;
    v.paired_hi.present = false;
    size_t w = ld_elf_relocation_write_width(ARCH == 0 ? LD_ARCH_AMD64 : ARCH == 1 ? LD_ARCH_ARM64 : LD_ARCH_RISCV64, t);
    VP_ASSUME(!(ARCH == 2 && t == 43));
    PS = k;
    buf = malloc(PS);
    apply();
    if (rc == LD_OK) { VP_ASSERT(w <= PS, "a field that does not fit its place is refused"); VP_REACH("accepted"); }
}
void h_small(void) { VP_CASES(4, c_small); }

/* ---- x86-64 instruction sequences rewritten for static linking ---- */
// what the rewritten bytes [at, end) compute, by the architecture: rax, or -1 if they are not one of the known instructions
static uint64_t m_rax, m_tp;
static bool is(const uint8_t *p, int n, uint64_t bytes) { return rd(p, n) == bytes; }
static uint64_t simm(const uint8_t *p) { return (uint64_t) (int64_t) (int32_t) (uint32_t) rd(p, 4); }
static int step(const uint8_t *p) {
    if (is(p, 1, 0x90)) return 1;
    if (is(p, 2, 0x9066)) return 2;
    if (is(p, 2, 0xc031)) { m_rax = 0; return 2; }
    if (is(p, 3, 0xc0c748)) { m_rax = simm(p + 3); return 7; }
    if (is(p, 3, 0xc08148)) { m_rax += simm(p + 3); return 7; }
    if (is(p, 3, 0xe88148)) { m_rax -= simm(p + 3); return 7; }
    if (is(p, 3, 0x808d48)) { m_rax += simm(p + 3); return 7; }
    if (is(p, 2, 0x0548)) { m_rax += simm(p + 2); return 6; }
    if (is(p, 2, 0x2d48)) { m_rax -= simm(p + 2); return 6; }
    if (is(p, 5, 0x25048b4864ULL) && is(p + 5, 4, 0)) { m_rax = m_tp; return 9; }
    if (is(p, 4, 0x008b4864)) { VP_ASSERT(m_rax == 0, "the thread pointer is read at offset 0"); m_rax = m_tp; return 4; }
    VP_ASSERT(false, "a known instruction is emitted");
    return 64;
}
static void run(const uint8_t *p, int n) {
    int at = 0;
    m_tp = v.thread_pointer_address;
    for (int i = 0; i < 5 && at < n; i++) at += step(p + at);
    VP_ASSERT(at == n, "the rewritten sequence has the size of the original one");
}
static ld_elf_symbol_t syms[2];
static void c_tls_pair(int k) { // general dynamic, local dynamic, descriptor; direct and GOT-indirect helper call
    static const uint16_t ty[] = {19, 20, 34}, hty[] = {2, 4, 9, 41};
    uint32_t t = ty[k / 4];
    bool ind = k % 4 >= 2;
    if (t == 34 && k % 4) return;
    int pre = t == 19 ? 4 : 3, len = t == 34 ? 9 : t == 19 ? 16 : ind ? 13 : 12, delta = t == 34 ? 4 : t == 19 ? 8 : ind ? 6 : 5;
    setup(LD_ELF_EM_X86_64, t);
    PS = 20;
    buf = malloc(PS);
    vp_bytes(buf, PS);
    syms[0].name = "x";
    syms[0].type = LD_ELF_STT_TLS;
    syms[1].name = "__tls_get_addr";
    obj.symbols = syms;
    obj.symbol_count = 2;
    r.addend = -4;
    r.offset = 100 + pre;
    r.symbol_index = 0;
    ld_elf_relocation_t h = r;
    h.type = t == 34 ? 35 : hty[k % 4];
    h.addend = t == 34 ? 0 : -4;
    h.symbol_index = t == 34 ? 0 : 1;
    h.offset = r.offset + delta;
    uint8_t ori[20];
    for (int i = 0; i < 20; i++) old[i % 16] = buf[i], ori[i] = buf[i];
    const uint8_t *q = buf + 2;
    bool form = t == 34 ? is(q, 3, 0x058d48) && is(q + 7, 2, 0x10ff)
              : t == 19 ? is(q, 4, 0x3d8d4866) && is(q + 8, 4, ind ? 0x15ff4866 : 0xe8486666)
                        : is(q, 3, 0x3d8d48) && (ind ? is(q + 7, 2, 0x15ff) : is(q + 7, 1, 0xe8));
    rc = ld_elf_relocation_apply_x86_tls_pair(NULL, &obj, NULL, &r, &h, buf, PS, 2 + pre, &v);
    I x = t == 20 ? TP - DTP : S - TP;
    bool fits = x >= -P2(31) && x < P2(31);
    VP_ASSERT((rc == LD_OK) == (form && fits), "rewritten exactly when the instructions are the expected ones and the offset fits");
    for (int i = 0; i < 20; i++) if (rc != LD_OK || i < 2 || i >= 2 + len) VP_ASSERT(buf[i] == ori[i], "bytes outside the sequence are unchanged");
    if (rc == LD_OK) {
        run(buf + 2, len);
        VP_ASSERT(m_rax == (t == 19 ? v.symbol_address : t == 20 ? v.tls_block_address : v.symbol_address - v.thread_pointer_address), "the sequence yields the address the original one would");
        VP_REACH("rewritten");
    }
}
void h_x86_tls_pair(void) { VP_CASES(9, c_tls_pair); }

void h_x86_gottpoff(void) {
    setup(LD_ELF_EM_X86_64, 22);
    r.addend = -4;
    uint8_t o[12];
    for (int i = 0; i < 12; i++) o[i] = buf[i];
    bool form = (o[1] == 0x48 || o[1] == 0x4c) && o[2] == 0x8b && (o[3] & 0xc7) == 5;
    int reg = (o[3] >> 3 & 7) | (o[1] & 4) << 1;
    rc = ld_elf_relocation_apply_x86_gottpoff(NULL, &obj, NULL, &r, buf, PS, 4, &v);
    I x = S - TP;
    VP_ASSERT((rc == LD_OK) == (form && x >= -P2(31) && x < P2(31)), "rewritten exactly when possible");
    for (int i = 0; i < 12; i++) if (rc != LD_OK || i < 1 || i >= 8) VP_ASSERT(buf[i] == o[i], "bytes outside the instruction are unchanged");
    if (rc == LD_OK) {
        VP_ASSERT((buf[1] & 0xfe) == 0x48 && buf[2] == 0xc7 && (buf[3] & 0xf8) == 0xc0, "MOV r64, imm32");
        VP_ASSERT(((buf[3] & 7) | (buf[1] & 1) << 3) == reg, "the same register is written");
        VP_ASSERT((I) (int64_t) simm(buf + 4) == x, "the thread-pointer offset is loaded");
        VP_REACH("rewritten");
    }
}
static void c_gotpcrelx(int k) {
    setup(LD_ELF_EM_X86_64, k ? 42 : 41);
    r.addend = -4;
    uint8_t o[12];
    for (int i = 0; i < 12; i++) o[i] = buf[i];
    bool mov = o[2] == 0x8b && (o[3] & 0xc7) == 5 && (!k || (o[1] & 0xf0) == 0x40), call = !k && o[2] == 0xff && o[3] == 0x15, jmp = !k && o[2] == 0xff && o[3] == 0x25;
    rc = ld_elf_relocation_apply_x86_gotpcrelx(NULL, &obj, NULL, &r, buf, PS, 4, &v);
    I x = S + A - PL;
    VP_ASSERT((rc == LD_OK) <= ((mov || call || jmp) && x >= -P2(31) - 1 && x < P2(31)), "only a known instruction in reach is rewritten");
    if ((mov || call || jmp) && x >= -P2(31) && x < P2(31)) VP_ASSERT(rc == LD_OK, "a known instruction in reach is rewritten");
    for (int i = 0; i < 12; i++) if (rc != LD_OK || i < 2 || i >= 8) VP_ASSERT(buf[i] == o[i], "bytes outside the instruction are unchanged");
    if (rc == LD_OK) {
        if (mov) {
            VP_ASSERT(buf[2] == 0x8d && buf[3] == o[3] && simm(buf + 4) + v.place_address + 4 == v.symbol_address, "LEA of the symbol into the same register");
        } else {
            uint8_t op = call ? 0xe8 : 0xe9;
            bool late = (buf[2] == 0x90 || buf[2] == 0x67) && buf[3] == op && simm(buf + 4) + v.place_address + 4 == v.symbol_address;
            bool early = buf[2] == op && simm(buf + 3) + v.place_address + 3 == v.symbol_address && buf[7] == 0x90;
            VP_ASSERT(late || early, "direct transfer to the symbol");
        }
        VP_REACH("rewritten");
    }
}
void h_x86_gotpcrelx(void) { VP_CASES(2, c_gotpcrelx); }
