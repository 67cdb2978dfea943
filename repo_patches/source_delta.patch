From b68cccd266529bf20927379e705ecd046186637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:09 +0000
Subject: [PATCH 01/20] fix: do not read past the zero word when a vec is
 created from a wide default value

---
 runtime/nutils/vec.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index 706de90..061b64c 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -103,8 +103,7 @@ n_vec_t rt_vec_new(int64_t hash, int64_t element_hash, int64_t length, void *val
         vec.data = rti_array_new(element_rtype, capacity);
 
         if (length > 0) {
-            uint64_t zero = 0;
-            if (memcmp(value_ref, &zero, element_size) != 0) {
+            if (!memory_empty(value_ref, element_size)) {
                 DEBUGF("[rt_vec_new] will set default value_ref=%p, element_size=%lu", value_ref, element_size);
 
                 for (int64_t i = 0; i < length; i++) {
-- 
2.43.0


From 72eb35513420208c5374d0f0f0b8b100fa8dbd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:44 +0000
Subject: [PATCH 02/20] fix: compare map and set keys by all of their bytes
 instead of up to the first NUL

---
 runtime/nutils/hash.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index 72d986b..24bb828 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -40,21 +40,31 @@ static inline uint64_t extract_data_index(uint64_t hash_value) {
     return hash_value << 2 >> 2;
 }
 
+// key 参与 hash 和比较的字节: string 为其内容，其余类型为其存储的全部字节(可能包含 \0)
+static inline uint8_t *key_bytes(rtype_t *rtype, void *key_ref, uint64_t *size) {
+    if (rtype->kind == TYPE_STRING) {
+        n_string_t *str = key_ref;
+        *size = str->length;
+        return str->data;
+    }
+
+    *size = rtype->storage_size;
+    return key_ref;
+}
+
 static inline uint64_t key_hash(rtype_t *rtype, void *key_ref) {
-    char *str = rtype_value_to_str(rtype, key_ref);
-    uint64_t result = hash_string(str);
-    free((void *) str);
-    return result;
+    uint64_t size;
+    uint8_t *bytes = key_bytes(rtype, key_ref, &size);
+    return size == 0 ? 0 : hash_data(bytes, size);
 }
 
 static inline bool key_equal(rtype_t *rtype, void *actual, void *expect) {
     DEBUGF("[key_equal] actual=%p, expect=%p", actual, expect);
-    char *actual_str = rtype_value_to_str(rtype, actual);
-    char *expect_str = rtype_value_to_str(rtype, expect);
-    bool result = str_equal(actual_str, expect_str);
-    free((void *) actual_str);
-    free((void *) expect_str);
-    return result;
+    uint64_t actual_size;
+    uint64_t expect_size;
+    uint8_t *actual_bytes = key_bytes(rtype, actual, &actual_size);
+    uint8_t *expect_bytes = key_bytes(rtype, expect, &expect_size);
+    return actual_size == expect_size && (actual_size == 0 || memcmp(actual_bytes, expect_bytes, actual_size) == 0);
 }
 
 /**
-- 
2.43.0


From 993519f55a20c48373c3281f3bc150c625f21a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:44 +0000
Subject: [PATCH 03/20] fix: reuse a deleted slot when a hash table has no
 empty slot left

---
 runtime/nutils/hash.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index 24bb828..0067fbf 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -92,6 +92,10 @@ static uint64_t find_hash_slot(uint64_t *hash_table, uint64_t capacity, uint8_t
 
     while (true) {
         if (attempts >= capacity) { // 防止无限循环
+            // 没有 empty slot 但存在 deleted slot, key 不存在且可以复用该 slot
+            if (first_deleted_index != -1) {
+                return first_deleted_index;
+            }
             // 哈希表已满，需要扩容
             assert(false && "hash table is full, need to grow");
             return -1;
-- 
2.43.0


From 5e105ea762a302647014bc4dc28c451af25a2c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:44 +0000
Subject: [PATCH 04/20] fix: keep the remaining elements of a set when an
 element is deleted

---
 runtime/nutils/set.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/runtime/nutils/set.c b/runtime/nutils/set.c
index 5349ee0..f90cc78 100644
--- a/runtime/nutils/set.c
+++ b/runtime/nutils/set.c
@@ -37,9 +37,8 @@ static bool _rt_set_add(n_set_t *m, void *key_ref) {
         key_index = m->length++;
         added = true;
     } else if (hash_value_deleted(hash_value)) {
-        m->length++;
+        key_index = m->length++;
         added = true;
-        key_index = extract_data_index(hash_value);
     } else {
         // 绝对的修改
         key_index = extract_data_index(hash_value);
@@ -183,7 +182,25 @@ void rt_set_delete(n_set_t *m, void *key_ref) {
         return;
     }
     uint64_t hash_index = find_hash_slot(m->hash_table, m->capacity, m->key_data, m->key_rtype_hash, key_ref);
-    uint64_t *hash_value = &m->hash_table[hash_index];
-    *hash_value &= 1ULL << HASH_DELETED; // 配置删除标志即可
+    uint64_t hash_value = m->hash_table[hash_index];
+    if (hash_value_empty(hash_value) || hash_value_deleted(hash_value)) {
+        return;
+    }
+
+    rtype_t *key_rtype = rt_find_rtype(m->key_rtype_hash);
+    uint64_t key_size = key_rtype->storage_size;
+    uint64_t key_index = extract_data_index(hash_value);
+    uint64_t last_key_index = m->length - 1;
+
+    // 使用最后一个 key 填充空位，保证 key_data 连续
+    if (key_index != last_key_index) {
+        void *last_key_ref = m->key_data + last_key_index * key_size;
+        uint64_t last_hash_index = find_hash_slot(m->hash_table, m->capacity, m->key_data, m->key_rtype_hash, last_key_ref);
+        rti_write_barrier_rtype(m->key_data + key_index * key_size, last_key_ref, key_rtype);
+        rt_set_data_index(m, last_hash_index, key_index);
+    }
+
+    m->hash_table[hash_index] = (1ULL << HASH_SET) | (1ULL << HASH_DELETED);
+    memset(m->key_data + last_key_index * key_size, 0, key_size);
     m->length--;
 }
-- 
2.43.0


From 7749de9c2c44922711c864a9447595531399dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:33 +0000
Subject: [PATCH 05/20] fix: compare struct and array keys part by part so that
 padding does not matter

---
 runtime/nutils/hash.h | 85 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 69 insertions(+), 16 deletions(-)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index 0067fbf..dc4d189 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -40,31 +40,84 @@ static inline uint64_t extract_data_index(uint64_t hash_value) {
     return hash_value << 2 >> 2;
 }
 
-// key 参与 hash 和比较的字节: string 为其内容，其余类型为其存储的全部字节(可能包含 \0)
-static inline uint8_t *key_bytes(rtype_t *rtype, void *key_ref, uint64_t *size) {
-    if (rtype->kind == TYPE_STRING) {
-        n_string_t *str = key_ref;
-        *size = str->length;
-        return str->data;
+// struct 字段或者 array 元素的 rtype 和偏移
+static inline rtype_t *key_part(rtype_t *rtype, uint64_t index, uint64_t *offset) {
+    if (rtype->kind == TYPE_STRUCT) {
+        rtype_field_t *field = (rtype_field_t *) RTDATA(rtype->hashes_offset) + index;
+        *offset = field->offset;
+        return rt_find_rtype(field->hash);
     }
 
-    *size = rtype->storage_size;
-    return key_ref;
+    rtype_t *element_rtype = rt_find_rtype(((int64_t *) RTDATA(rtype->hashes_offset))[0]);
+    *offset = element_rtype ? index * element_rtype->storage_size : 0;
+    return element_rtype;
+}
+
+// 可以逐个处理的部分数量，为 0 则按照存储的全部字节处理
+static inline uint64_t key_part_count(rtype_t *rtype) {
+    uint64_t offset = 0;
+    if (rtype->hashes_offset == -1) {
+        return 0;
+    }
+
+    if (rtype->kind == TYPE_ARR) {
+        rtype_t *element_rtype = key_part(rtype, 0, &offset);
+        return element_rtype && element_rtype->storage_size > 0 ? rtype->storage_size / element_rtype->storage_size : 0;
+    }
+
+    if (rtype->kind != TYPE_STRUCT) {
+        return 0;
+    }
+    for (uint64_t i = 0; i < rtype->length; ++i) {
+        if (!key_part(rtype, i, &offset)) {
+            return 0;
+        }
+    }
+    return rtype->length;
 }
 
 static inline uint64_t key_hash(rtype_t *rtype, void *key_ref) {
-    uint64_t size;
-    uint8_t *bytes = key_bytes(rtype, key_ref, &size);
-    return size == 0 ? 0 : hash_data(bytes, size);
+    if (rtype->kind == TYPE_STRING) {
+        n_string_t *str = key_ref;
+        return str->length == 0 ? 0 : hash_data(str->data, str->length);
+    }
+
+    uint64_t count = key_part_count(rtype);
+    if (count == 0) {
+        return hash_data(key_ref, rtype->storage_size);
+    }
+
+    // 字段之间对齐产生的空隙不属于 key
+    uint64_t result = 0;
+    for (uint64_t i = 0; i < count; ++i) {
+        uint64_t offset = 0;
+        rtype_t *part = key_part(rtype, i, &offset);
+        result = result * 31 + key_hash(part, (uint8_t *) key_ref + offset);
+    }
+    return result;
 }
 
 static inline bool key_equal(rtype_t *rtype, void *actual, void *expect) {
     DEBUGF("[key_equal] actual=%p, expect=%p", actual, expect);
-    uint64_t actual_size;
-    uint64_t expect_size;
-    uint8_t *actual_bytes = key_bytes(rtype, actual, &actual_size);
-    uint8_t *expect_bytes = key_bytes(rtype, expect, &expect_size);
-    return actual_size == expect_size && (actual_size == 0 || memcmp(actual_bytes, expect_bytes, actual_size) == 0);
+    if (rtype->kind == TYPE_STRING) {
+        n_string_t *a = actual;
+        n_string_t *b = expect;
+        return a->length == b->length && (a->length == 0 || memcmp(a->data, b->data, a->length) == 0);
+    }
+
+    uint64_t count = key_part_count(rtype);
+    if (count == 0) {
+        return memcmp(actual, expect, rtype->storage_size) == 0;
+    }
+
+    for (uint64_t i = 0; i < count; ++i) {
+        uint64_t offset = 0;
+        rtype_t *part = key_part(rtype, i, &offset);
+        if (!key_equal(part, (uint8_t *) actual + offset, (uint8_t *) expect + offset)) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /**
-- 
2.43.0


From 01709c7ed046fc6602cde1efa9f4bf829dcd4fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:34 +0000
Subject: [PATCH 06/20] fix: refuse RISC-V upper-immediate relocations whose
 rounded value does not fit

---
 src/ld/ld_elf_reloc.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/ld/ld_elf_reloc.c b/src/ld/ld_elf_reloc.c
index 5bd089c..94023f5 100644
--- a/src/ld/ld_elf_reloc.c
+++ b/src/ld/ld_elf_reloc.c
@@ -2749,6 +2749,12 @@ static int ld_elf_reloc_riscv_require_u32(
             description, instruction);
 }
 
+/* The upper immediate is rounded by 0x800 and must stay a signed 20-bit value. */
+static bool ld_elf_reloc_riscv_hi20_fits(int64_t value) {
+    return ld_elf_reloc_signed_fits(value, 32U) &&
+           value <= INT64_C(0x7ffff7ff);
+}
+
 static void ld_elf_reloc_riscv_write_u_type(uint8_t *place,
                                             int64_t value) {
     uint32_t instruction = ld_elf_reloc_read_u32(place);
@@ -3024,7 +3030,8 @@ static int ld_elf_reloc_apply_riscv64(
         case LD_R_RISCV_TLS_GD_HI20:
             if (!ld_elf_reloc_expression_signed(
                         values->got_entry_address, relocation->addend,
-                        values->place_address, 32U, &delta)) {
+                        values->place_address, 32U, &delta) ||
+                !ld_elf_reloc_riscv_hi20_fits(delta)) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
@@ -3120,7 +3127,9 @@ static int ld_elf_reloc_apply_riscv64(
         case LD_R_RISCV_LO12_S:
             if (!ld_elf_reloc_expression_signed(
                         values->symbol_address, relocation->addend, 0U, 32U,
-                        &delta)) {
+                        &delta) ||
+                (relocation->type == LD_R_RISCV_HI20 &&
+                 !ld_elf_reloc_riscv_hi20_fits(delta))) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
@@ -3163,7 +3172,9 @@ static int ld_elf_reloc_apply_riscv64(
         case LD_R_RISCV_TPREL_LO12_S:
             if (!ld_elf_reloc_expression_signed(
                         values->symbol_address, relocation->addend,
-                        values->thread_pointer_address, 32U, &delta)) {
+                        values->thread_pointer_address, 32U, &delta) ||
+                (relocation->type == LD_R_RISCV_TPREL_HI20 &&
+                 !ld_elf_reloc_riscv_hi20_fits(delta))) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
@@ -3401,7 +3412,7 @@ static int ld_elf_reloc_apply_riscv64(
                     "0x%08x",
                     low);
         }
-        if (!ld_elf_reloc_signed_fits(delta, 32U)) {
+        if (!ld_elf_reloc_riscv_hi20_fits(delta)) {
             return ld_elf_reloc_fail(
                     ctx, object, section, relocation, arch,
                     values->symbol_name,
@@ -3419,7 +3430,7 @@ static int ld_elf_reloc_apply_riscv64(
         return LD_OK;
     }
     if (relocation->type == LD_R_RISCV_PCREL_HI20) {
-        if (!ld_elf_reloc_signed_fits(delta, 32U)) {
+        if (!ld_elf_reloc_riscv_hi20_fits(delta)) {
             return ld_elf_reloc_fail(
                     ctx, object, section, relocation, arch,
                     values->symbol_name,
-- 
2.43.0


From fc73fa3d70f22e7b05a3c5e15441cb0874953c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:13 +0000
Subject: [PATCH 07/20] fix: sign-extend the dividend before signed division on
 amd64

idiv divides a double-width value. The upper half was cleared instead of being
filled with the sign, so -7 / 2 and -7 % 2 were wrong.
---
 src/binary/encoding/amd64/opcode.c |  9 +++++++++
 src/native/amd64.c                 | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index be7573c..c1280cf 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -89,6 +89,11 @@ amd64_opcode_inst_t idiv_rm64 = {"idiv", "idiv", 0, {0xF7}, {OPCODE_EXT_REX_W, O
 amd64_opcode_inst_t div_rm8 = {"div", "div", 0, {0xF6}, {OPCODE_EXT_SLASH6}, {
                                                                                      {OPERAND_TYPE_RM8, ENCODING_TYPE_MODRM_RM},
                                                                              }};
+// 有符号除法前将被除数符号扩展到 ah/dx/edx/rdx
+amd64_opcode_inst_t cbw = {"cbw", "cbw", 0x66, {0x98}, {}, {}};
+amd64_opcode_inst_t cwd = {"cwd", "cwd", 0x66, {0x99}, {}, {}};
+amd64_opcode_inst_t cdq = {"cdq", "cdq", 0, {0x99}, {}, {}};
+amd64_opcode_inst_t cqo = {"cqo", "cqo", 0, {0x99}, {OPCODE_EXT_REX_W}, {}};
 amd64_opcode_inst_t div_rex_rm8 = {"div", "div", 0, {0xF6}, {OPCODE_EXT_REX, OPCODE_EXT_SLASH6}, {
                                                                                                          {OPERAND_TYPE_RM8, ENCODING_TYPE_MODRM_RM},
                                                                                                  }};
@@ -622,6 +627,10 @@ void amd64_opcode_init() {
     opcode_tree_build(&idiv_rm32);
     opcode_tree_build(&idiv_rm64);
 
+    opcode_tree_build(&cbw);
+    opcode_tree_build(&cwd);
+    opcode_tree_build(&cdq);
+    opcode_tree_build(&cqo);
     // 注册无符号除法指令
     opcode_tree_build(&div_rex_rm8);
     opcode_tree_build(&div_rm8);
diff --git a/src/native/amd64.c b/src/native/amd64.c
index 0a8c791..5a39214 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -396,6 +396,16 @@ static slice_t *amd64_native_div(closure_t *c, lir_op_t *op) {
         amd64_asm_operand_t *second = lir_operand_trans_amd64(c, op, op->second);
 
         if (op->code == LIR_OPCODE_SDIV) {
+            // idiv 的被除数是双倍宽度，高半部分必须是低半部分的符号扩展
+            char *sign_extend = "cqo";
+            if (output_reg->size == BYTE) {
+                sign_extend = "cbw";
+            } else if (output_reg->size == WORD) {
+                sign_extend = "cwd";
+            } else if (output_reg->size == DWORD) {
+                sign_extend = "cdq";
+            }
+            slice_push(operations, AMD64_INST(sign_extend));
             slice_push(operations, AMD64_INST("idiv", second));
         } else {
             slice_push(operations, AMD64_INST("div", second));
-- 
2.43.0


From e71fe63ee805146ef221fc9995bfbcbaddb207d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:13 +0000
Subject: [PATCH 08/20] fix: convert negative i8 and i16 values to float on
 amd64

The value was zero-extended before the conversion.
---
 src/native/amd64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index 5a39214..366d2e7 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -879,8 +879,8 @@ static slice_t *amd64_native_sitof(closure_t *c, lir_op_t *op) {
         reg_t *first_reg = first->value;
         amd64_asm_operand_t *new_first = AMD64_REG(reg_select(first_reg->index, TYPE_UINT32));
 
-        // 清空寄存器的高位部分
-        slice_push(operations, AMD64_INST("movzx", new_first, first));
+        // 有符号数需要符号扩展到寄存器的高位部分
+        slice_push(operations, AMD64_INST("movsx", new_first, first));
         first = new_first;
     }
 
-- 
2.43.0


From c0d4891eb677f4b89207d2cd532927b6b657b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:13 +0000
Subject: [PATCH 09/20] fix: convert u64 to float without losing the low bit on
 amd64

The value was always halved and doubled again, which dropped bit 0 and rounded
wrongly. Values below 2^63 are now converted directly; for larger ones the
dropped bit is kept as a sticky bit.
---
 src/native/amd64.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index 366d2e7..9336e9f 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -936,15 +936,23 @@ static slice_t *amd64_native_uitof(closure_t *c, lir_op_t *op) {
             slice_push(operations, AMD64_INST("cvtsi2sd", output, first));
         }
     } else {
-        // 64位：统一使用右移-转换-乘2
+        // 小于 2^63 直接转换；否则右移-转换-乘2，右移丢失的位并入最低位以保证舍入正确
+        char *convert = output->size == DWORD ? "cvtsi2ss" : "cvtsi2sd";
+        char *small_ident = label_ident_with_unique(local_sym_with_fn(c, ".u2f.small"));
+        char *even_ident = label_ident_with_unique(local_sym_with_fn(c, ".u2f.even"));
+        char *end_ident = label_ident_with_unique(local_sym_with_fn(c, ".u2f.end"));
+        slice_push(operations, AMD64_INST("test", first, first));
+        slice_push(operations, AMD64_INST("jge", AMD64_SYMBOL(small_ident, true)));
         slice_push(operations, AMD64_INST("shr", first, AMD64_UINT8(1)));
-        if (output->size == DWORD) {
-            slice_push(operations, AMD64_INST("cvtsi2ss", output, first));
-            slice_push(operations, AMD64_INST("add", output, output));
-        } else {
-            slice_push(operations, AMD64_INST("cvtsi2sd", output, first));
-            slice_push(operations, AMD64_INST("add", output, output));
-        }
+        slice_push(operations, AMD64_INST("jae", AMD64_SYMBOL(even_ident, true)));
+        slice_push(operations, AMD64_INST("or", first, AMD64_UINT32(1)));
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(even_ident, true)));
+        slice_push(operations, AMD64_INST(convert, output, first));
+        slice_push(operations, AMD64_INST("add", output, output));
+        slice_push(operations, AMD64_INST("jmp", AMD64_SYMBOL(end_ident, true)));
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(small_ident, true)));
+        slice_push(operations, AMD64_INST(convert, output, first));
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(end_ident, true)));
     }
 
     return operations;
-- 
2.43.0


From 52fb00d76cb97fc87cd2c4adf9fe120019354d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:13 +0000
Subject: [PATCH 10/20] fix: comparisons with NaN on amd64

<, <= and == were true and != was false when an operand was NaN. A negated
float comparison is also no longer turned into the opposite comparison.
---
 src/binary/encoding/amd64/opcode.c | 6 ++++++
 src/linear.c                       | 4 +++-
 src/native/amd64.c                 | 8 ++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index c1280cf..2c9ba0d 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -26,6 +26,10 @@ amd64_opcode_inst_t je_rel8 = {"je", "je", 0, {0x74}, {OPCODE_EXT_IMM_BYTE}, {OP
 amd64_opcode_inst_t je_rel32 = {"je", "je", 0, {0x0F, 0x84}, {OPCODE_EXT_IMM_DWORD}, {OPERAND_TYPE_REL32, ENCODING_TYPE_IMM}};
 
 // jne (jump if not equal) instructions
+amd64_opcode_inst_t jnp_rel8 = {"jnp", "jnp", 0, {0x7B}, {OPCODE_EXT_IMM_BYTE}, {OPERAND_TYPE_REL8, ENCODING_TYPE_IMM}};
+
+amd64_opcode_inst_t jnp_rel32 = {"jnp", "jnp", 0, {0x0F, 0x8B}, {OPCODE_EXT_IMM_DWORD}, {OPERAND_TYPE_REL32, ENCODING_TYPE_IMM}};
+
 amd64_opcode_inst_t jne_rel8 = {"jne", "jne", 0, {0x75}, {OPCODE_EXT_IMM_BYTE}, {OPERAND_TYPE_REL8, ENCODING_TYPE_IMM}};
 
 amd64_opcode_inst_t jne_rel32 = {"jne", "jne", 0, {0x0F, 0x85}, {OPCODE_EXT_IMM_DWORD}, {OPERAND_TYPE_REL32, ENCODING_TYPE_IMM}};
@@ -564,6 +568,8 @@ void amd64_opcode_init() {
     opcode_tree_build(&jmp_rel32);
     opcode_tree_build(&je_rel8);
     opcode_tree_build(&je_rel32);
+    opcode_tree_build(&jnp_rel8);
+    opcode_tree_build(&jnp_rel32);
     opcode_tree_build(&jne_rel8);
     opcode_tree_build(&jne_rel32);
     opcode_tree_build(&ja_rel8);
diff --git a/src/linear.c b/src/linear.c
index 95dd3b1..ae958c6 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1546,7 +1546,9 @@ static void linear_cmp_neg(module_t *m, ast_expr_t *cond, lir_operand_t *cmp_tar
     bool binary_optimize = false;
     if (cond->assert_type == AST_EXPR_BINARY) {
         ast_binary_expr_t *binary_expr = cond->value;
-        if (ast_op_is_cmp(binary_expr->op) && binary_expr->left.type.kind != TYPE_STRING) {
+        // 浮点数比较不能取反，NaN 参与的 < 和 >= 同为 false
+        if (ast_op_is_cmp(binary_expr->op) && binary_expr->left.type.kind != TYPE_STRING &&
+            !is_float(binary_expr->left.type.kind)) {
             binary_optimize = true;
         }
     }
diff --git a/src/native/amd64.c b/src/native/amd64.c
index 9336e9f..b261c93 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -1009,6 +1009,14 @@ static slice_t *amd64_native_scc(closure_t *c, lir_op_t *op) {
     assertf(asm_code, "not found op_code map asm_code");
     slice_push(operations, AMD64_INST(asm_code, result));
 
+    // 任意操作数为 NaN 时 ZF = PF = CF = 1，此时 < <= == 必须为 false，!= 必须为 true
+    if (!amd64_is_integer_operand(op->first) && op->code != LIR_OPCODE_SGT && op->code != LIR_OPCODE_SGE) {
+        char *ordered_ident = label_ident_with_unique(local_sym_with_fn(c, ".ordered"));
+        slice_push(operations, AMD64_INST("jnp", AMD64_SYMBOL(ordered_ident, true)));
+        slice_push(operations, AMD64_INST("mov", result, AMD64_UINT8(op->code == LIR_OPCODE_SNE)));
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(ordered_ident, true)));
+    }
+
     return operations;
 }
 
-- 
2.43.0


From cff32f19dd843a254a5ebf688433c1f53c6b1bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:13 +0000
Subject: [PATCH 11/20] fix: keep loads and stores of global variables in order

The instruction scheduler did not treat global variables as memory, so a load
could move across a store to the same variable.
---
 src/schedule.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/schedule.c b/src/schedule.c
index aec24b7..7904851 100644
--- a/src/schedule.c
+++ b/src/schedule.c
@@ -39,6 +39,13 @@ bool schedule_is_mem_read(lir_op_t *op) {
     if (op->second && op->second->assert_type == LIR_OPERAND_INDIRECT_ADDR) {
         return true;
     }
+    // 全局变量同样位于内存中
+    if (op->first && op->first->assert_type == LIR_OPERAND_SYMBOL_VAR) {
+        return true;
+    }
+    if (op->second && op->second->assert_type == LIR_OPERAND_SYMBOL_VAR) {
+        return true;
+    }
     // CALL 和 RT_CALL 可能读取内存
     if (op->code == LIR_OPCODE_CALL || op->code == LIR_OPCODE_RT_CALL) {
         return true;
@@ -54,6 +61,10 @@ bool schedule_is_mem_write(lir_op_t *op) {
     if (op->output && op->output->assert_type == LIR_OPERAND_INDIRECT_ADDR) {
         return true;
     }
+    // 写入全局变量
+    if (op->output && op->output->assert_type == LIR_OPERAND_SYMBOL_VAR) {
+        return true;
+    }
     // CALL 和 RT_CALL 可能写入内存
     if (op->code == LIR_OPCODE_CALL || op->code == LIR_OPCODE_RT_CALL) {
         return true;
-- 
2.43.0


From 5934143069088b8b044ac6ff6c571dc0b8bbebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:13 +0000
Subject: [PATCH 12/20] fix: do not share one constant between f32 and f64

Float constants were pooled by bit pattern only, so the 8-byte constant 0.0
could be read from the 4-byte constant 0.0 of an f32.
---
 src/lower/lower.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lower/lower.h b/src/lower/lower.h
index 7c6d943..941dc1c 100644
--- a/src/lower/lower.h
+++ b/src/lower/lower.h
@@ -11,7 +11,8 @@ static inline void lower_imm_symbol(closure_t *c, lir_operand_t *imm_operand, li
     if (imm->kind == TYPE_RAW_STRING) {
         key = str_connect("s:", imm->string_value);
     } else {
-        key = str_connect("f:", itoa(imm->int_value));
+        // f32 和 f64 的位模式可能相同(如 0.0)，但宽度不同，不能共用同一个符号
+        key = str_connect(imm->kind == TYPE_FLOAT32 ? "f32:" : "f64:", itoa(imm->int_value));
     }
 
     asm_global_symbol_t *global_symbol = table_get(c->module->global_symbol_table, key);
-- 
2.43.0


From bdd240f4173bb2b2aaab1fab91192cc6bf8942fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:13 +0000
Subject: [PATCH 13/20] fix: pool string literals by all of their bytes

Literals that contain a NUL byte were compared only up to it, so 'a\0b' and
'a\0c' became the same string.
---
 src/lower/lower.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lower/lower.h b/src/lower/lower.h
index 941dc1c..578a2a1 100644
--- a/src/lower/lower.h
+++ b/src/lower/lower.h
@@ -9,7 +9,16 @@ static inline void lower_imm_symbol(closure_t *c, lir_operand_t *imm_operand, li
     // and change op use imm to var ident
     char *key;
     if (imm->kind == TYPE_RAW_STRING) {
-        key = str_connect("s:", imm->string_value);
+        if (memchr(imm->string_value, 0, imm->strlen)) {
+            // 内容包含 \0 时按全部字节区分
+            char *hex = mallocz(imm->strlen * 2 + 1);
+            for (size_t i = 0; i < imm->strlen; i++) {
+                snprintf(hex + i * 2, 3, "%02x", (uint8_t) imm->string_value[i]);
+            }
+            key = str_connect("x:", hex);
+        } else {
+            key = str_connect("s:", imm->string_value);
+        }
     } else {
         // f32 和 f64 的位模式可能相同(如 0.0)，但宽度不同，不能共用同一个符号
         key = str_connect(imm->kind == TYPE_FLOAT32 ? "f32:" : "f64:", itoa(imm->int_value));
-- 
2.43.0


From fe0b5dfdfef4313a4219ef482fba8ff33df1e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:37 +0000
Subject: [PATCH 14/20] fix: fuse mul and add into lea only for 64-bit integers

Only the 64-bit lea is encodable. An expression such as x * 4 + 1 on a
narrower integer made the compiler abort.
---
 src/peephole/amd64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/peephole/amd64.c b/src/peephole/amd64.c
index 4f91267..45d5993 100644
--- a/src/peephole/amd64.c
+++ b/src/peephole/amd64.c
@@ -58,7 +58,8 @@ static bool peephole_lea_fusion(closure_t *c, basic_block_t *block, slice_t *ops
 
     // 只处理整数类型
     type_t mul_type = lir_operand_type(mul_op->output);
-    if (!is_integer(mul_type.map_imm_kind)) {
+    // only lea r64 can be encoded, narrower results keep mul + add
+    if (!is_qword_int(mul_type.map_imm_kind)) {
         return false;
     }
 
-- 
2.43.0


From dc6554ae9b9c3101e0aa928f7a2268669bcb62f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:28 +0000
Subject: [PATCH 15/20] fix: compile bitwise not into a field or a global

The result of not was written straight to memory while the operand could be
in memory as well, and the compiler aborted.
---
 src/lower/amd64.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lower/amd64.c b/src/lower/amd64.c
index 653bacb..89f5b1a 100644
--- a/src/lower/amd64.c
+++ b/src/lower/amd64.c
@@ -385,6 +385,16 @@ static void amd64_lower_block(closure_t *c, basic_block_t *block) {
             continue;
         }
 
+        if (op->code == LIR_OPCODE_NOT && op->output->assert_type != LIR_OPERAND_VAR) {
+            // not 需要先 mov first -> output, 所以 output 必须能够分配到寄存器
+            lir_operand_t *temp = temp_var_operand_with_alloc(c->module, lir_operand_type(op->output));
+            lir_operand_t *output = op->output;
+            op->output = lir_reset_operand(temp, output->pos);
+            linked_push(operations, op);
+            linked_push(operations, lir_op_move(output, temp));
+            continue;
+        }
+
         if (op->code == LIR_OPCODE_FN_BEGIN) {
             linked_t *fn_begin_operations = amd64_lower_fn_begin(c, op);
             for (linked_node *fn_begin_node = fn_begin_operations->front; fn_begin_node != fn_begin_operations->rear;
-- 
2.43.0


From a31337b09c3064fa29a55d025b52ef4a14f28ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:14 +0000
Subject: [PATCH 16/20] fix: keep saved registers inside the amd64 frame

Callee-saved registers were pushed below the reserved frame. An odd number
of them misaligned the stack at calls, stack arguments of a call overwrote
them, and every stack slot moved away from its bit in the GC stack bitmap.
Store them in the space the frame already reserves.
---
 src/native/amd64.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index b261c93..d9d8c26 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -1359,19 +1359,20 @@ static slice_t *amd64_native_fn_begin(closure_t *c, lir_op_t *op) {
     // 保存 callee-saved 寄存器
     for (int i = 0; i < c->callee_saved->count; ++i) {
         // Width-specific aliases can be collected after register allocation;
-        // PUSH always operates on the canonical 64-bit nonvolatile register.
+        // always save the canonical 64-bit nonvolatile register.
         reg_t *saved = c->callee_saved->take[i];
         assertf(!amd64_reg_is_float(saved),
                 "SysV AMD64 does not preserve scalar XMM registers");
         reg_t *reg = reg_select(saved->index, TYPE_UINT64);
-        slice_push(operations, AMD64_INST("push", AMD64_REG(reg)));
+        // saved above the outgoing call args, a push would shift every stack slot and lose the alignment
+        slice_push(operations, AMD64_INST("mov", SIB_REG(rsp, NULL, 0, c->call_stack_max_offset + i * QWORD, QWORD), AMD64_REG(reg)));
     }
 
     //    c->stack_offset = offset;
     // gc_bits 补 0
-    if (c->call_stack_max_offset) {
+    if (c->call_stack_max_offset + callee_saved_size) {
         uint64_t bits_start = c->stack_offset / POINTER_SIZE;
-        uint64_t bits_count = c->call_stack_max_offset / POINTER_SIZE;
+        uint64_t bits_count = (c->call_stack_max_offset + callee_saved_size) / POINTER_SIZE;
         for (int i = 0; i < bits_count; ++i) {
             bitmap_grow_set(c->stack_gc_bits, bits_start + i, 0);
         }
@@ -1427,7 +1428,7 @@ slice_t *amd64_native_return(closure_t *c, lir_op_t *op) {
         assertf(!amd64_reg_is_float(saved),
                 "SysV AMD64 does not preserve scalar XMM registers");
         reg_t *reg = reg_select(saved->index, TYPE_UINT64);
-        slice_push(operations, AMD64_INST("pop", AMD64_REG(reg)));
+        slice_push(operations, AMD64_INST("mov", AMD64_REG(reg), SIB_REG(rsp, NULL, 0, c->call_stack_max_offset + i * QWORD, QWORD)));
     }
 
     //    slice_push(operations, AMD64_INST("mov", AMD64_REG(rsp), AMD64_REG(rbp)));
-- 
2.43.0


From 9ebd610ee9f2aa91d0c30c9e90d7183f59c30695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:03 +0000
Subject: [PATCH 17/20] fix: restore the variable versions of every definition
 after a block

SSA renaming pushed a version for each definition but popped only those of
variables that got a phi. A use in a sibling branch then read the version
defined in the other branch.
---
 src/ssa.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index a17e3a8..72c08df 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -642,10 +642,6 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         slice_t *vars = extract_var_operands(op, FLAG(LIR_FLAG_DEF));
         for (int i = 0; i < vars->count; ++i) {
             lir_var_t *var = vars->take[i];
-            if (!table_exist(c->ssa_globals_table, var->old)) {
-                continue;
-            }
-
             // pop stack
             var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
             assertf(stack, "var %s not found in stack table", var->old);
-- 
2.43.0


From 98cd34dfa4e8ca92469479713c80d0f6ca3021ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:37 +0000
Subject: [PATCH 18/20] fix: allow any number of assignments to a variable

SSA version numbers were kept in bytes. From the 128th assignment on they
wrapped and the wrong value was read.
---
 src/ssa.c | 20 +++++++++++---------
 src/ssa.h |  5 +++--
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 72c08df..c39876f 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -542,7 +542,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
         assert(stack);
         if (stack->count > 0) {
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
         }
     }
@@ -570,7 +570,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
 
             var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
             assert(stack);
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
         }
 
@@ -578,7 +578,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         for (int i = 0; i < vars->count; ++i) {
             lir_var_t *var = vars->take[i];
 
-            uint8_t number = ssa_new_var_number(var, var_number_table, stack_table); // 新增定义
+            uint64_t number = ssa_new_var_number(var, var_number_table, stack_table); // 新增定义
             ssa_rename_var(var, number);
         }
 
@@ -591,7 +591,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
         var_number_stack *stack = sc_map_get_sv(stack_table, var->old);
         assert(stack);
         if (stack->count > 0) {
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
         }
     }
@@ -619,7 +619,7 @@ void ssa_rename_block(closure_t *c, basic_block_t *block, struct sc_map_s64 *var
             assert(stack);
             assert(stack->count > 0);
 
-            uint8_t number = stack->numbers[stack->count - 1];
+            uint64_t number = stack->numbers[stack->count - 1];
             ssa_rename_var(var, number);
 
             op_node = op_node->succ;
@@ -669,16 +669,18 @@ uint64_t ssa_new_var_number(lir_var_t *var, struct sc_map_s64 *var_number_table,
     value += 1;
 
     sc_map_put_s64(var_number_table, var->old, value + 1);
+    if (stack->count == stack->capacity) {
+        stack->capacity = stack->capacity ? stack->capacity * 2 : 8;
+        stack->numbers = realloc(stack->numbers, stack->capacity * sizeof(uint64_t));
+    }
     stack->numbers[stack->count++] = result;
 
     return result;
 }
 
 void ssa_rename_var(lir_var_t *var, uint64_t number) {
-    assert(number < UINT8_MAX);
-    // 1: '\0'
-    // 2: '_12'
-    int64_t size = strlen(var->ident) + 10 + 3;
+    // '.s' + number + '\0'
+    int64_t size = strlen(var->ident) + 2 + 20 + 1;
     char *buf = mallocz(size);
     snprintf(buf, size, "%s.s%ld", var->ident, number);
     var->ident = buf; // 已经分配在了堆中，需要手动释放了
diff --git a/src/ssa.h b/src/ssa.h
index 16af5af..26216ad 100644
--- a/src/ssa.h
+++ b/src/ssa.h
@@ -23,8 +23,9 @@
 
 
 typedef struct {
-    uint8_t numbers[UINT8_MAX];
-    uint8_t count;
+    uint64_t *numbers;
+    uint64_t count;
+    uint64_t capacity;
 } var_number_stack;
 
 void ssa(closure_t *c);
-- 
2.43.0


From 5b541cc938b81556c0df34f20456cb3d8be5136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:44 +0000
Subject: [PATCH 19/20] fix: vec to string conversion compares all bytes with
 the pooled string

The pool of small strings is keyed by C string. Byte vecs that share a prefix
up to a NUL byte and have the same length became the same string, and the
lookup read past the end of a vec, whose data has no terminator.
---
 runtime/nutils/string.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtime/nutils/string.c b/runtime/nutils/string.c
index 8cf1eaa..cf8074c 100644
--- a/runtime/nutils/string.c
+++ b/runtime/nutils/string.c
@@ -13,7 +13,14 @@ n_vec_t string_to_vec(n_string_t *src) {
 }
 
 n_string_t vec_to_string(n_vec_t *vec) {
-    return string_new_with_pool(vec->data, vec->length);
+    // the pool is looked up by C string, the data of a vec has no terminator
+    char key[8] = {0};
+    if (vec->length >= (int64_t) sizeof(key)) {
+        return string_new(vec->data, vec->length);
+    }
+
+    memmove(key, vec->data, vec->length);
+    return string_new_with_pool(key, vec->length);
 }
 
 n_string_t string_new_with_pool(void *raw_string, int64_t length) {
@@ -22,7 +29,7 @@ n_string_t string_new_with_pool(void *raw_string, int64_t length) {
     // check const
     mutex_lock(&const_str_pool_locker);
     n_string_t *pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
-    if (pooled && pooled->length == length) {
+    if (pooled && pooled->length == length && memcmp(pooled->data, raw_string, length) == 0) {
         n_string_t result = *pooled;
         mutex_unlock(&const_str_pool_locker);
         return result;
@@ -57,7 +64,7 @@ n_string_t string_new_with_pool(void *raw_string, int64_t length) {
 
             mutex_lock(&const_str_pool_locker);
             pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
-            if (pooled && pooled->length == length) {
+            if (pooled && pooled->length == length && memcmp(pooled->data, raw_string, length) == 0) {
                 str = *pooled;
                 mutex_unlock(&const_str_pool_locker);
                 free(pool_copy);
-- 
2.43.0


From ad07b39d45e6043fb9e530db1d860c4361190599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:44 +0000
Subject: [PATCH 20/20] fix: a waiting select unlocks each channel once

The wait entries were linked in case order, but unlocking skips only adjacent
entries of the same channel, so a select with cases on channels A, B, A
unlocked A twice, possibly releasing another thread's lock. Link them in lock
order.
---
 runtime/rt_chan.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index d36bee0..7dafe6c 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -612,7 +612,8 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
 
     nextp = &co->waiting;
     for (int16_t i = 0; i < cases_count; i++) {
-        casi = i;
+        // in lock order, so that selpark_commit unlocks each channel once
+        casi = lockorder[i];
         cas = &cases[casi];
         c = cas->chan;
 
@@ -664,14 +665,15 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
 
     scase *k = NULL;
     for (int16_t i = 0; i < cases_count; i++) {
-        k = &cases[i];
+        int16_t o = lockorder[i];
+        k = &cases[o];
         if (lc == lclist) {
-            casi = i;
+            casi = o;
             cas = k;
             case_success = lclist->success;
         } else {
             c = k->chan;
-            if (i < sends_count) {
+            if (o < sends_count) {
                 waitq_remove(&c->sendq, lclist);
             } else {
                 waitq_remove(&c->recvq, lclist);
-- 
2.43.0

