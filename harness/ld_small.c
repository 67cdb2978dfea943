// Synthesised linker code and tables: branch thunks, indirect-function stubs, RISC-V alignment padding, the unwind
// search table, read-only-after-relocation range, unwind-header sharing.
#include "vp.h"
#include <stdlib.h>
#ifndef VP_NATIVE
// insertion sort standing in for the C library's qsort
static void vp_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0; j--) {
            uint64_t *x = (uint64_t *) ((uint8_t *) base + (j - 1) * sz), *y = (uint64_t *) ((uint8_t *) base + j * sz);
            bool gt = cmp(x, y) > 0;
            for (size_t w = 0; w < sz / 8; w++) {
                uint64_t p = x[w], q = y[w];
                x[w] = gt ? q : p;
                y[w] = gt ? p : q;
            }
        }
}
#define qsort vp_qsort
#endif
#include "src/ld/ld_elf_thunk.c"
#include "src/ld/ld_elf_ifunc.c"
#include "src/ld/ld_elf_riscv_relax.c"
#include "src/ld/ld_elf_eh_frame.c"
#include "src/ld/ld_elf_relro.c"
#include "src/ld/ld_elf_cie.c"

static uint32_t w32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t) p[3] << 24; }
static int64_t sx(uint64_t x, int bits) { return (int64_t) (x << (64 - bits)) >> (64 - bits); }
static uint64_t adrp_value(uint32_t i, uint64_t pc) {
    return (pc & ~0xfffULL) + (uint64_t) (sx(((uint64_t) (i >> 5) & 0x7ffff) << 2 | (i >> 29 & 3), 21) << 12);
}

void h_branch26(void) {
    uint64_t t = vp_u64(), p = vp_u64();
    int64_t d = 0;
    bool ok = ld_elf_aarch64_branch26_fits(t, p, &d);
    int64_t delta = (int64_t) (t - p);
    bool wrap = t >= p ? delta < 0 : delta >= 0;
    VP_ASSERT(ok == (!wrap && (t & 3) == 0 && (p & 3) == 0 && delta >= -(1LL << 27) && delta < (1LL << 27)), "in reach exactly when the branch can encode it");
    if (ok) { VP_ASSERT(d == delta, "displacement"); VP_REACH("fits"); }
}

void h_thunk(void) {
    uint8_t o[LD_ELF_AARCH64_THUNK_SIZE + 4], b[LD_ELF_AARCH64_THUNK_SIZE + 4];
    vp_bytes(o, sizeof o);
    for (size_t i = 0; i < sizeof o; i++) b[i] = o[i];
    uint64_t at = vp_u64(), target = vp_u64();
    VP_ASSUME(at < (1ULL << 48) && target < (1ULL << 48));
    int rc = ld_elf_aarch64_thunk_encode(o, at, target);
    int64_t pages = (int64_t) (target >> 12) - (int64_t) (at >> 12);
    VP_ASSERT((rc == LD_ELF_AARCH64_THUNK_ENCODE_OK) == (((at | target) & 3) == 0 && pages >= -(1 << 20) && pages < (1 << 20)), "encoded exactly when the target is in reach");
    for (size_t i = 0; i < sizeof o; i++)
        if (rc != LD_ELF_AARCH64_THUNK_ENCODE_OK || i >= LD_ELF_AARCH64_THUNK_SIZE) VP_ASSERT(o[i] == b[i], "nothing else is written");
    if (rc == LD_ELF_AARCH64_THUNK_ENCODE_OK) {
        uint32_t i0 = w32(o), i1 = w32(o + 4), i2 = w32(o + 8);
        uint32_t rd = i0 & 31;
        VP_ASSERT((i0 & 0x9f000000) == 0x90000000 && (rd == 16 || rd == 17), "ADRP into an intra-procedure-call register");
        VP_ASSERT((i1 & 0xffc00000) == 0x91000000 && (i1 >> 5 & 31) == rd && ((i1 & 31) == 16 || (i1 & 31) == 17), "ADD of the page offset");
        VP_ASSERT((i2 & 0xfffffc1f) == 0xd61f0000 && (i2 >> 5 & 31) == (i1 & 31), "BR to the computed address");
        VP_ASSERT(adrp_value(i0, at) + (i1 >> 10 & 0xfff) == target, "the thunk reaches its target");
        VP_REACH("encoded");
    }
}

static void c_ifunc(int k) {
    uint8_t o[LD_ELF_IFUNC_PLTGOT_ENTRY_SIZE + 4], b[LD_ELF_IFUNC_PLTGOT_ENTRY_SIZE + 4];
    vp_bytes(o, sizeof o);
    for (size_t i = 0; i < sizeof o; i++) b[i] = o[i];
    uint64_t at = vp_u64(), got = vp_u64();
    VP_ASSUME(at < (1ULL << 48) && got < (1ULL << 48));
    int rc = ld_elf_ifunc_encode_pltgot(k == 0 ? LD_ARCH_AMD64 : k == 1 ? LD_ARCH_ARM64 : LD_ARCH_RISCV64, o, at, got);
    int64_t d = (int64_t) (got - at), pages = (int64_t) (got >> 12) - (int64_t) (at >> 12);
    bool al = (at & 3) == 0 && (got & 7) == 0;
    if (k == 0 && d >= -(1LL << 31) + 64 && d < (1LL << 31) - 64) VP_ASSERT(rc == LD_ELF_IFUNC_OK, "encoded when in reach");
    if (k == 1 && al && pages >= -(1 << 20) && pages < (1 << 20)) VP_ASSERT(rc == LD_ELF_IFUNC_OK, "encoded when in reach");
    if (k == 2 && al && d >= -(1LL << 31) && d < (1LL << 31) - 0x800) VP_ASSERT(rc == LD_ELF_IFUNC_OK, "encoded when in reach");
    for (size_t i = 0; i < sizeof o; i++)
        if (rc != LD_ELF_IFUNC_OK || i >= LD_ELF_IFUNC_PLTGOT_ENTRY_SIZE) VP_ASSERT(o[i] == b[i], "nothing else is written");
    if (rc != LD_ELF_IFUNC_OK) return;
    if (k == 0) {
        int off = w32(o) == 0xfa1e0ff3 ? 4 : 0;
        VP_ASSERT(o[off] == 0xff && o[off + 1] == 0x25, "JMP through memory");
        VP_ASSERT(at + off + 6 + (uint64_t) sx(w32(o + off + 2), 32) == got, "the stub jumps through its table slot");
    } else if (k == 1) {
        uint32_t i0 = w32(o), i1 = w32(o + 4), i2 = w32(o + 8);
        VP_ASSERT((i0 & 0x9f000000) == 0x90000000 && (i1 & 0xffc00000) == 0xf9400000 && (i1 >> 5 & 31) == (i0 & 31), "ADRP; LDR");
        VP_ASSERT((i2 & 0xfffffc1f) == 0xd61f0000 && (i2 >> 5 & 31) == (i1 & 31), "BR");
        VP_ASSERT(((i0 & 31) == 16 || (i0 & 31) == 17) && ((i1 & 31) == 16 || (i1 & 31) == 17), "only the intra-procedure-call registers are used");
        VP_ASSERT(adrp_value(i0, at) + (i1 >> 10 & 0xfff) * 8 == got, "the stub jumps through its table slot");
    } else {
        uint32_t i0 = w32(o), i1 = w32(o + 4), i2 = w32(o + 8);
        VP_ASSERT((i0 & 0x7f) == 0x17 && (i1 & 0x707f) == 0x3003 && (i1 >> 15 & 31) == (i0 >> 7 & 31), "AUIPC; LD");
        VP_ASSERT((i2 & 0xfff0707f) == 0x67 && (i2 >> 15 & 31) == (i1 >> 7 & 31), "JALR");
        VP_ASSERT(at + (uint64_t) sx(i0 & 0xfffff000, 32) + (uint64_t) sx(i1 >> 20, 12) == got, "the stub jumps through its table slot");
    }
    VP_REACH("encoded");
}
void h_ifunc(void) { VP_CASES(3, c_ifunc); }

// alignment padding of RISC-V code: one or two padded places in a 16-byte section
static uint64_t pow2above(uint64_t x) { uint64_t a = 1; while (a <= x) a <<= 1; return a; }
static uint8_t in[16], out[20];
static const uint8_t off1[] = {0, 4, 2, 4}, pad1[] = {4, 4, 6, 2}, off2[] = {8, 12, 10, 8}, pad2[] = {4, 4, 6, 6};
static ld_elf_riscv_relax_plan_t plan;
static bool rvc;
static uint64_t k1, k2, del1, del2;
static int relax_layout(int k, bool swap, uint64_t base) {
    size_t err;
    rvc = k >= 2;
    vp_bytes(in, 16);
    for (int i = 0; i < pad1[k]; i++) in[off1[k] + i] = rvc ? (i % 2 == 0) : i % 4 == 0 ? 0x13 : 0;
    for (int i = 0; i < pad2[k]; i++) in[off2[k] + i] = rvc ? (i % 2 == 0) : i % 4 == 0 ? 0x13 : 0;
    ld_elf_riscv_align_input_t al[2] = {{swap ? off2[k] : off1[k], swap ? pad2[k] : pad1[k], 0}, {swap ? off1[k] : off2[k], swap ? pad1[k] : pad2[k], 1}};
    ld_elf_riscv_relax_plan_init(&plan);
    VP_ASSERT(ld_elf_riscv_relax_plan_build(&plan, in, 16, al, 2, rvc, &err) == LD_ELF_RISCV_RELAX_OK, "a well-formed section is accepted");
    int rc = ld_elf_riscv_relax_plan_layout(&plan, base, &err);
    // what must be kept of each padding, from the property alone
    uint64_t a1 = pow2above(pad1[k]), a2 = pow2above(pad2[k]);
    k1 = (a1 - ((base + off1[k]) & (a1 - 1))) & (a1 - 1), del1 = pad1[k] - k1;
    k2 = (a2 - ((base + off2[k] - del1) & (a2 - 1))) & (a2 - 1), del2 = pad2[k] - k2;
    bool possible = k1 <= pad1[k] && k2 <= pad2[k];
    VP_ASSERT((rc == LD_ELF_RISCV_RELAX_OK) == possible, "laid out exactly when the padding suffices");
    if (rc == LD_ELF_RISCV_RELAX_OK) VP_ASSERT(plan.output_size == 16 - del1 - del2, "only padding is removed");
    return rc;
}
static uint64_t moved(int k, uint64_t i) { return i - (i >= (uint64_t) off1[k] + pad1[k] ? del1 : 0) - (i >= (uint64_t) off2[k] + pad2[k] ? del2 : 0); }
static bool padding(int k, uint64_t i) { return (i >= off1[k] && i < (uint64_t) off1[k] + pad1[k]) || (i >= off2[k] && i < (uint64_t) off2[k] + pad2[k]); }
// any section address: the layout and the mapping of offsets
static void c_relax(int kc) {
    int k = kc;
    uint64_t base = vp_u64();
    VP_ASSUME(base < (1ULL << 48) && (base & (k >= 2 ? 1 : 3)) == 0);
    if (relax_layout(k, k == 1, base) != LD_ELF_RISCV_RELAX_OK) return;
    for (uint64_t i = 0; i < 16; i++) {
        uint64_t m = 0, avail;
        bool alive;
        if (!padding(k, i)) VP_ASSERT(ld_elf_riscv_relax_map(&plan, i, 1, &m, &alive, &avail) && alive && m == moved(k, i) && avail == plan.output_size - m, "an offset maps to where its byte went");
    }
    uint64_t m;
    VP_ASSERT(ld_elf_riscv_relax_map(&plan, 16, 0, &m, NULL, NULL) && m == plan.output_size, "the end maps to the end");
    VP_REACH("laid out");
}
#ifndef LAYOUT
#define LAYOUT 0
#endif
void h_relax(void) { c_relax(LAYOUT); }
// a laid-out plan: the bytes
static void c_relax_emit(int kc) {
    static const uint8_t kk[] = {0, 1, 2, 2, 3, 3}, r1[] = {4, 0, 6, 2, 0, 2}, r2[] = {0, 4, 0, 4, 6, 2};
    int k = kk[kc];
    rvc = k >= 2;
    vp_bytes(in, 16);
    vp_bytes(out, 20);
    k1 = r1[kc], k2 = r2[kc], del1 = pad1[k] - k1, del2 = pad2[k] - k2;
    ld_elf_riscv_align_region_t reg[2] = {{off1[k], pad1[k], pow2above(pad1[k]), off1[k], k1, 0}, {off2[k], pad2[k], pow2above(pad2[k]), off2[k] - del1, k2, 1}};
    ld_elf_riscv_relax_plan_t p = {reg, 2, 16, 16 - del1 - del2, rvc, true};
    VP_ASSERT(ld_elf_riscv_relax_emit(&p, out, 16 - del1 - del2, in, 16) == LD_ELF_RISCV_RELAX_OK, "emitted");
    for (uint64_t i = 0; i < 16; i++)
        if (!padding(k, i)) VP_ASSERT(out[moved(k, i)] == in[i], "code outside the padding is kept");
    for (uint64_t i = 0; i < k1; i += out[off1[k] + i] == 0x13 ? 4 : 2)
        VP_ASSERT(w32(out + off1[k] + i) == 0x13 ? i + 4 <= k1 : rvc && out[off1[k] + i] == 1 && out[off1[k] + i + 1] == 0, "kept padding is NOPs");
    for (uint64_t i = 0, o = off2[k] - del1; i < k2; i += out[o + i] == 0x13 ? 4 : 2)
        VP_ASSERT(w32(out + o + i) == 0x13 ? i + 4 <= k2 : rvc && out[o + i] == 1 && out[o + i + 1] == 0, "kept padding is NOPs");
    VP_REACH("emitted");
}
void h_relax_emit(void) { VP_CASES(6, c_relax_emit); }
static void c_relax_reject(int k) { // padding that is not NOPs or leaves the section is refused
    vp_bytes(in, 8);
    static const uint8_t off[] = {0, 4, 5, 8}, pad[] = {0, 3, 4, 8};
    ld_elf_riscv_align_input_t al = {off[k / 4 % 4], pad[k % 4], 0};
    if (k == 16) {
        al = (ld_elf_riscv_align_input_t) {vp_u64(), vp_i64(), 0};
        VP_ASSUME(al.offset > 8 || al.addend < 0 || al.addend > 8);
    }
    ld_elf_riscv_relax_plan_init(&plan);
    size_t err;
    int rc = ld_elf_riscv_relax_plan_build(&plan, in, 8, &al, 1, false, &err);
    if (rc == LD_ELF_RISCV_RELAX_OK) {
        VP_ASSERT(al.addend >= 0 && al.offset <= 8 && (uint64_t) al.addend <= 8 - al.offset && al.addend % 4 == 0, "padding lies inside the section");
        for (uint64_t i = 0; i < 8; i++) if (i < (uint64_t) al.addend) VP_ASSERT(in[al.offset + i] == (i % 4 == 0 ? 0x13 : 0), "padding is NOPs");
        VP_REACH("accepted");
    }
}
void h_relax_reject(void) { VP_CASES(17, c_relax_reject); }

// unwind search table: sorted, complete, relative to its own address
#ifndef NE
#define NE 2
#define AB 10
#endif
void h_eh_hdr(void) {
    ld_elf_eh_frame_hdr_entry_t e[NE];
    uint8_t o[12 + 8 * NE];
    uint64_t at = vp_u64(), frame = vp_u64();
    VP_ASSUME(at < (1ULL << AB) && frame < (1ULL << AB));
    for (int i = 0; i < NE; i++) {
        e[i].first_pc = vp_u64();
        e[i].fde_address = vp_u64();
        VP_ASSUME(e[i].first_pc < (1ULL << AB) && e[i].fde_address < (1ULL << AB));
    }
    size_t err, need;
    VP_ASSERT(ld_elf_eh_frame_hdr_size(NE, &need) == LD_ELF_EH_FRAME_HDR_OK && need == sizeof o, "size of the table");
    int rc = ld_elf_eh_frame_hdr_encode(o, sizeof o, at, frame, e, NE, &err);
#define IN32(d) ((d) >= -(1LL << 31) && (d) < (1LL << 31))
    bool fit = IN32((int64_t) (frame - at - 4));
    for (int i = 0; i < NE; i++) fit = fit && IN32((int64_t) (e[i].first_pc - at)) && IN32((int64_t) (e[i].fde_address - at));
    VP_ASSERT((rc == LD_ELF_EH_FRAME_HDR_OK) == fit, "built exactly when every distance fits");
    if (rc != LD_ELF_EH_FRAME_HDR_OK) return;
    VP_ASSERT(o[0] == 1 && o[1] == 0x1b && o[2] == 0x03 && o[3] == 0x3b && w32(o + 8) == NE, "header");
    VP_ASSERT(at + 4 + (uint64_t) sx(w32(o + 4), 32) == frame, "pointer to the frame data");
    for (int i = 0; i < NE; i++) {
        uint64_t pc = at + (uint64_t) sx(w32(o + 12 + 8 * i), 32);
        if (i) VP_ASSERT(at + (uint64_t) sx(w32(o + 4 + 8 * i), 32) <= pc, "sorted by code address");
        int in = 0, out = 0;
        for (int j = 0; j < NE; j++) {
            in += e[j].first_pc == e[i].first_pc && e[j].fde_address == e[i].fde_address;
            out += at + (uint64_t) sx(w32(o + 12 + 8 * j), 32) == e[i].first_pc && at + (uint64_t) sx(w32(o + 16 + 8 * j), 32) == e[i].fde_address;
        }
        VP_ASSERT(in == out, "every function occurs with its own frame description");
    }
    VP_REACH("built");
}

void h_relro(void) {
    ld_elf_relro_plan_t p;
    ld_elf_relro_plan_init(&p);
    uint64_t fo[2], ad[2], sz[2], fs[2], F = LD_ELF_SHF_ALLOC | LD_ELF_SHF_WRITE, page = 1ULL << (vp_u8() % 17), nf = 0, na = 0, fc = vp_u64(), ac = vp_u64();
    int ok = 1;
    for (int i = 0; i < 2; i++) {
        fo[i] = vp_u64(), ad[i] = vp_u64(), sz[i] = vp_u64(), fs[i] = vp_u64();
        if (ld_elf_relro_add_section(&p, i ? ".got" : ".data.rel.ro", 1, F, fo[i], ad[i], sz[i], fs[i]) != LD_ELF_RELRO_OK) ok = 0;
    }
    int rc = ld_elf_relro_finalize(&p, page, fc, ac, &nf, &na);
    if (!ok || rc != LD_ELF_RELRO_OK) return;
    VP_ASSERT(((p.address + p.memory_size) & (page - 1)) == 0 && p.protection_end == p.address + p.memory_size, "the protected range ends on a page boundary");
    VP_ASSERT(na >= p.protection_end && na >= ac && nf >= fc, "whatever follows lies behind the protected range");
    for (int i = 0; i < 2; i++) {
        VP_ASSERT(ad[i] >= p.address && ad[i] + sz[i] >= ad[i] && ad[i] + sz[i] <= p.protection_end, "every protected section lies inside the range");
        VP_ASSERT(fo[i] >= p.file_offset && fo[i] + fs[i] <= p.file_offset + p.file_size, "and inside the file range");
    }
    VP_REACH("laid out");
}
void h_cie(void) {
    uint8_t b[3][2];
    ld_elf_cie_relocation_t r[3];
    ld_elf_cie_entry_t e[3];
    size_t c[3], err;
    for (int i = 0; i < 3; i++) {
        vp_bytes(b[i], 2);
        r[i] = (ld_elf_cie_relocation_t) {vp_u64(), vp_u32(), vp_i64(), b[vp_u8() % 3], vp_u64()};
        e[i] = (ld_elf_cie_entry_t) {b[i], 1 + (vp_u8() & 1), &r[i], vp_u8() & 1};
    }
    VP_ASSERT(ld_elf_cie_deduplicate(e, 3, c, &err) == LD_ELF_CIE_OK, "accepted");
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            bool same = e[i].bytes_size == e[j].bytes_size && b[i][0] == b[j][0] && (e[i].bytes_size == 1 || b[i][1] == b[j][1]) && e[i].relocation_count == e[j].relocation_count &&
                        (e[i].relocation_count == 0 || (r[i].offset == r[j].offset && r[i].type == r[j].type && r[i].addend == r[j].addend && r[i].target_namespace == r[j].target_namespace && r[i].target_index == r[j].target_index));
            VP_ASSERT((c[i] == c[j]) == same, "entries are shared exactly when they are identical");
        }
    VP_REACH("shared");
}
