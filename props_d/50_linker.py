LDA = ["the values handed to the relocation code (symbol, place, table and thread-pointer addresses) are the addresses of the final layout"]
RB = "one relocation of each type, any addresses below 2^40, any addend of 34 bits, any prior contents of the place"
WIDE = {"WIDE": 1, "timeout": 880}

P("L01", "x86-64 relocations write the exact ABI value or are refused",
  "Applying an x86-64 ELF relocation either stores exactly the value the psABI defines for its type, in exactly the bytes of its field, or reports an error and leaves the bytes unchanged. "
  "It reports an error exactly when the value is not representable in the field, and never touches bytes beyond the field.",
  ["inputs"], "every supported relocation type except the paired thread-local forms, all symbol/place/GOT/TLS addresses and addends within the bound, all prior contents",
  "wrap-around and sign boundaries of each field are met only by particular address/addend combinations",
  ["src/ld/ld_elf_reloc.c"], [("field computation and range checks", "src/ld/ld_elf_reloc.c ld_elf_relocation_apply")],
  ["bytes of the place after relocation", "success or error"],
  "The real apply function runs symbolically; an independent table of psABI expressions, ranges and widths decides every byte.",
  [Ob("x86_%d" % i, "ld_reloc.c", "h_x86_reloc", mode="cc", unwind=40, defs={"LO": 4 * i, "HI": 4 * i + 4}, bounds=RB) for i in range(7)] +
  [Ob("x86_small", "ld_reloc.c", "h_small", mode="cc", unwind=40, defs={"ARCH": 0}, bounds="any type, places of 0..3 bytes")], LDA)

P("L02", "AArch64 relocations write the exact ABI value or are refused",
  "Applying an AArch64 ELF relocation either makes the instruction or data field encode exactly the address or displacement the ABI defines for its type, leaving all other bits unchanged, or reports an error and changes nothing. "
  "An error is reported exactly when the value is out of range or misaligned for the field; thread-local offsets are taken to lie above the thread pointer.",
  ["inputs"], "every supported relocation type, all addresses and addends within the bound, all prior instruction bits",
  "branch range ends, page-crossing deltas and scaled-offset alignment need particular address combinations",
  ["src/ld/ld_elf_reloc.c"], [("instruction field computation", "src/ld/ld_elf_reloc.c ld_elf_relocation_apply")],
  ["instruction bits after relocation", "success or error"],
  "The real apply function runs symbolically; the result is decoded with an independent decoder of the instruction fields and compared with the ABI expression.",
  [Ob("a64_%d" % i, "ld_reloc.c", "h_a64_reloc", mode="cc", unwind=40, defs={"LO": 5 * i, "HI": 5 * i + 5}, bounds=RB) for i in range(6)] +
  [Ob("a64_loadstore", "ld_reloc.c", "h_a64_loadstore", mode="cc", unwind=40, bounds=RB),
   Ob("a64_tlsdesc", "ld_reloc.c", "h_a64_tlsdesc", mode="cc", unwind=40, bounds="the four-instruction descriptor sequence, any address and offset"),
   Ob("a64_small", "ld_reloc.c", "h_small", mode="cc", unwind=40, defs={"ARCH": 1}, bounds="any type, places of 0..3 bytes")], LDA)

P("L03", "RISC-V relocations write the exact ABI value or are refused",
  "Applying a RISC-V ELF relocation either makes the instruction, instruction pair or data field encode exactly the value the psABI defines for its type, leaving all other bits unchanged, or reports an error and changes nothing. "
  "An upper/lower immediate pair that is accepted always adds up to the exact address; an instruction the relocation does not apply to, and a target out of reach, are refused.",
  ["inputs"], "every supported relocation type, all addresses and addends within the bound, all prior instruction bits",
  "sign-compensation at 0x800 and the ends of each range need particular addresses",
  ["src/ld/ld_elf_reloc.c", "src/ld/ld_elf_riscv_uleb.c"], [("instruction field computation", "src/ld/ld_elf_reloc.c"), ("variable-length fields", "src/ld/ld_elf_riscv_uleb.c")],
  ["instruction bits after relocation", "success or error"],
  "The real apply function runs symbolically; the result is decoded with an independent decoder and compared with the psABI expression. That the two halves sum to the address is a separate query.",
  [Ob("rv_data", "ld_reloc.c", "h_rv_data", mode="cc", unwind=40, bounds=RB),
   Ob("rv_branch", "ld_reloc.c", "h_rv_branch", mode="cc", unwind=40, bounds=RB),
   Ob("rv_hi", "ld_reloc.c", "h_rv_hi", mode="cc", unwind=40, bounds=RB),
   Ob("rv_lo_a", "ld_reloc.c", "h_rv_lo", mode="cc", unwind=40, defs={"LO": 0, "HI": 6}, bounds=RB),
   Ob("rv_lo_b", "ld_reloc.c", "h_rv_lo", mode="cc", unwind=40, defs={"LO": 6, "HI": 12}, bounds=RB),
   Ob("rv_sum", "ld_reloc.c", "h_rv_sum", mode="cc", unwind=4, bounds="every reachable 32-bit displacement"),
   Ob("rv_call", "ld_reloc.c", "h_rv_call", mode="cc", unwind=40, bounds=RB),
   Ob("rv_wrong", "ld_reloc.c", "h_rv_wrong", mode="cc", unwind=40, bounds="any instruction word at the place"),
   Ob("rv_align", "ld_reloc.c", "h_rv_align", mode="cc", unwind=40, bounds="any address, padding of any size in a 12-byte place"),
   Ob("rv_uleb", "ld_reloc.c", "h_rv_uleb", mode="cc", unwind=40, bounds="fields of 1..3 bytes; single and paired forms"),
   Ob("rv_small", "ld_reloc.c", "h_small", mode="cc", unwind=40, defs={"ARCH": 2}, bounds="any type, places of 0..3 bytes")], LDA)

P("L04", "Rewritten x86-64 thread-local and table accesses compute the same address",
  "When the linker rewrites a thread-local access sequence (general dynamic, local dynamic, descriptor, initial exec) or an access through the global offset table into a direct form, the rewritten instructions leave the same address or offset in the same register, or transfer control to the same place, as the original would have. "
  "The rewritten code occupies exactly the original bytes, and anything that is not the expected instruction sequence or does not fit is left unchanged and refused.",
  ["inputs"], "all instruction bytes at the place, all symbol, place and thread-pointer addresses within the bound",
  "needs specific register encodings and offsets; tests link a few fixed sequences",
  ["src/ld/ld_elf_reloc.c"], [("sequence rewriting", "src/ld/ld_elf_reloc.c ld_elf_relocation_apply_x86_tls_pair"), ("table access rewriting", "src/ld/ld_elf_reloc.c ld_elf_relocation_apply_x86_gotpcrelx")],
  ["bytes of the rewritten sequence", "success or error"],
  "The real rewriting functions run symbolically on arbitrary bytes; the output is executed by a small independent model of the x86-64 instructions concerned.",
  [Ob("tls_pair", "ld_reloc.c", "h_x86_tls_pair", mode="cc", unwind=40, bounds="all nine sequence forms"),
   Ob("gottpoff", "ld_reloc.c", "h_x86_gottpoff", mode="cc", unwind=40, bounds="any 7-byte instruction"),
   Ob("gotpcrelx", "ld_reloc.c", "h_x86_gotpcrelx", mode="cc", unwind=40, bounds="any instruction, addend -4")], LDA)

P("L05", "Linker-made branch thunks and stubs reach their target",
  "A branch is judged to be in reach exactly when its instruction can encode the distance. "
  "A thunk or indirect-function stub the linker synthesises transfers control to exactly the requested target (or through exactly the requested table slot) using only the registers reserved for that purpose; when the distance cannot be encoded it is refused and nothing is written.",
  ["inputs"], "all source and target addresses below 2^48, on AArch64, x86-64 and RISC-V",
  "range ends and page boundaries are not reached by linking small programs",
  ["src/ld/ld_elf_thunk.c", "src/ld/ld_elf_ifunc.c"], [("thunk encoding", "src/ld/ld_elf_thunk.c"), ("stub encoding", "src/ld/ld_elf_ifunc.c")],
  ["bytes of the stub"],
  "The real encoders run symbolically; an independent model of the emitted instructions computes where control goes.",
  [Ob("branch26", "ld_small.c", "h_branch26", mode="cc", unwind=4, bounds="any two 64-bit addresses"),
   Ob("thunk", "ld_small.c", "h_thunk", mode="cc", unwind=20, bounds="any two addresses below 2^48"),
   Ob("ifunc", "ld_small.c", "h_ifunc", mode="cc", unwind=24, bounds="any two addresses below 2^48, three architectures")], LDA)

P("L06", "RISC-V alignment padding is trimmed without disturbing the code",
  "When the linker trims alignment padding in RISC-V code, every instruction outside the padding is kept, what follows each padding is aligned as requested, the remaining padding consists of NOPs, and every offset is mapped to where its byte went. "
  "Padding that is not made of NOPs or does not lie inside the section is refused.",
  ["inputs"], "all section contents and section addresses below 2^48 for the listed padding layouts",
  "depends on the residue of the section address and on interaction between several paddings",
  ["src/ld/ld_elf_riscv_relax.c"], [("layout, mapping and emission", "src/ld/ld_elf_riscv_relax.c")],
  ["output bytes, offset mapping"],
  "Layout and mapping run symbolically over any section address; emission runs on arbitrary contents for several laid-out plans; all are compared with the definition of alignment.",
  [Ob("relax_layout%d" % i, "ld_small.c", "h_relax", mode="cc", unwind=18, defs={"LAYOUT": i}, bounds="16-byte section, a layout of two paddings, any section address") for i in range(4)] +
  [Ob("relax_emit", "ld_small.c", "h_relax_emit", mode="cc", unwind=21, bounds="16-byte sections, six laid-out plans, any contents"),
   Ob("relax_reject", "ld_small.c", "h_relax_reject", mode="cc", unwind=10, unwindset=["h_relax_reject.0:19"], bounds="8-byte sections, any contents")], LDA)

P("L07", "Unwind and relocation-protection tables cover what they must",
  "The unwind search table is sorted by code address, lists every function with its own frame description exactly once and is refused when a distance does not fit. "
  "The range made read-only after relocation contains every protected section, ends on a page boundary and contains nothing that follows. "
  "Unwind headers are shared exactly when they are identical.",
  ["inputs"], "all addresses and sizes within the bounds",
  "orderings, ties, overflow and page residues are not covered by fixed link tests",
  ["src/ld/ld_elf_eh_frame.c", "src/ld/ld_elf_relro.c", "src/ld/ld_elf_cie.c"],
  [("search table", "src/ld/ld_elf_eh_frame.c"), ("protected range", "src/ld/ld_elf_relro.c"), ("header sharing", "src/ld/ld_elf_cie.c")],
  ["table bytes, range"],
  "The real functions run symbolically and the results are compared with the definitions.",
  [Ob("eh_hdr", "ld_small.c", "h_eh_hdr", mode="cc", unwind=14, bounds="2 functions, addresses below 2^10"),
   Ob("eh_hdr_range", "ld_small.c", "h_eh_hdr", mode="cc", unwind=14, defs={"NE": 1, "AB": 34}, bounds="1 function, addresses below 2^34"),
   Ob("relro", "ld_small.c", "h_relro", mode="cc", unwind=16, bounds="2 sections, any 64-bit offsets and sizes, page sizes 1..65536"),
   Ob("cie", "ld_small.c", "h_cie", mode="cc", unwind=8, bounds="3 headers of 1..2 bytes with 0..1 relocations")],
  LDA + ["the C library's qsort sorts (an insertion sort stands in for it)"])
