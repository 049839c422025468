From 41d577cd1f86cf1ea6df34157a1af469fef3fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 01/36] fix: call data loads past the end of the input return
 zeros

---
 stdlib/chain.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 327c232..aa43a04 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -95,7 +95,9 @@ static void cachedCallDataCopy(int32_t /* uint8_t* */ memory_ptr,
 void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
   uint32_t calldata_size = cachedCallDataSize();
   uint8_t data[32] = {0};
-  if ((calldata_offset + 32 > calldata_size)) {
+  if (calldata_offset >= calldata_size) {
+    // Nothing left to read, the result is all zeros
+  } else if (calldata_size - calldata_offset < 32) {
     // If calldata is insufficient, read remaining part to the front of data
     // array The rest is already padded with zeros
     uint32_t read_count = calldata_size - calldata_offset;
@@ -107,7 +109,10 @@ void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
 }
 void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result) {
   uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + 32 > calldata_size)) {
+  if (calldata_offset >= calldata_size) {
+    // Nothing left to read, the result is all zeros
+    __memset((uint8_t *)result, 0, 32);
+  } else if (calldata_size - calldata_offset < 32) {
     // If calldata is insufficient, read remaining part to the front of data
     // array The rest is already padded with zeros
     uint32_t read_count = calldata_size - calldata_offset;
-- 
2.43.0


From 080f8f31dd77b935963e264ca5839aaef54648b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 02/36] fix: creation returns the new address as a clean
 32-byte word

---
 stdlib/chain.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index aa43a04..ff3dd98 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -597,6 +597,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
                      wasm_code_length + 4, (ADDRESS_UINT)calldata_mem,
                      calldata_length, 0, 0, 12 + (ADDRESS_UINT)result);
   if (ret_code == 0) {
+    clear_first_12_bytes(result);
     return;
   }
   revert((ADDRESS_UINT) "create contract failed", 22);
@@ -628,6 +629,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
       (ADDRESS_UINT)calldata_mem, calldata_length, (ADDRESS_UINT)&salt_bytes, 1,
       12 + (ADDRESS_UINT)result);
   if (ret_code == 0) {
+    clear_first_12_bytes(result);
     return;
   }
   revert((ADDRESS_UINT) "create2 contract failed", 23);
-- 
2.43.0


From 7e708799a5651f02ed6e7296e948f124f86e5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 03/36] fix: mcopy copies overlapping ranges correctly

---
 stdlib/chain.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index ff3dd98..222e421 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -394,6 +394,13 @@ void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
   evm_make_sure_memory(evm_dst + size);
   uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
   uint8_t *src_memory = evm_get_memory_addr(evm_src);
+  if (src_memory < dst_memory && dst_memory < src_memory + size) {
+    // The destination overlaps the tail of the source, copy backwards
+    while (size--) {
+      dst_memory[size] = src_memory[size];
+    }
+    return;
+  }
   memcpy(dst_memory, src_memory, size);
 }
 
-- 
2.43.0


From ecc094b0c27a4c574a12d4775c417022576c0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 04/36] fix: reading memory that was never written yields zeros

Readers expand memory before access, as writers do.
---
 stdlib/chain.c | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 222e421..cd166fa 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -67,6 +67,16 @@ static void u64_to_big_endian(const uint64_t value, uint8_t *memory_ptr) {
   }
 }
 
+// Returns the address of a memory range that is about to be read. Reading
+// expands memory just like writing does, bytes never written are zeros.
+// Negative offsets refer to embedded data and empty ranges touch no memory.
+static uint8_t *evm_get_readable_memory_addr(int32_t offset, uint32_t size) {
+  if (offset >= 0 && size > 0) {
+    evm_make_sure_memory((uint32_t)offset + size);
+  }
+  return evm_get_memory_addr(offset);
+}
+
 static int32_t cachedCallDataSize() {
   static int32_t cached = -1;
   if (cached < 0) {
@@ -234,7 +244,8 @@ void wrapper_self_balance(uint256_t *result) {
 }
 
 void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
-  uint8_t *error_msg_ptr = evm_get_memory_addr(error_msg_evm_mem);
+  uint8_t *error_msg_ptr =
+      evm_get_readable_memory_addr(error_msg_evm_mem, size);
   revert((ADDRESS_UINT)error_msg_ptr, size);
 }
 
@@ -360,12 +371,12 @@ void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
 }
 
 void wrapper_mload_u256(int32_t evm_mem, uint256_t *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, 32);
   u256_from_big_endian_bytes(memory_ptr, result);
 }
 
 uint32_t wrapper_mload_u32(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, 32);
   // Read 4 bytes in big-endian order from the last 4 bytes of the 32-byte slot
   uint32_t result = 0;
   for (int i = 0; i < 4; i++) {
@@ -375,7 +386,7 @@ uint32_t wrapper_mload_u32(int32_t evm_mem) {
 }
 
 uint64_t wrapper_mload_u64(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, 32);
   // Read 8 bytes in big-endian order from the last 8 bytes of the 32-byte slot
   uint64_t result = 0;
   for (int i = 0; i < 8; i++) {
@@ -385,7 +396,7 @@ uint64_t wrapper_mload_u64(int32_t evm_mem) {
 }
 
 void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, 32);
   // Copy all 32 bytes directly
   memcpy(result, memory_ptr, 32);
 }
@@ -393,7 +404,7 @@ void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
   evm_make_sure_memory(evm_dst + size);
   uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
-  uint8_t *src_memory = evm_get_memory_addr(evm_src);
+  uint8_t *src_memory = evm_get_readable_memory_addr(evm_src, size);
   if (src_memory < dst_memory && dst_memory < src_memory + size) {
     // The destination overlaps the tail of the source, copy backwards
     while (size--) {
@@ -505,12 +516,12 @@ void wrapper_loadimmutable(uint256_t *slot_ptr, uint256_t *result) {
 }
 
 void wrapper_keccak256(int32_t evm_mem, uint32_t size, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, size);
   keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
 }
 
 void wrapper_return(int32_t src_evm_mem, uint32_t size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(src_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(src_evm_mem, size);
   finish((ADDRESS_UINT)memory_ptr, size);
 }
 
@@ -520,14 +531,14 @@ void wrapper_decode_big_endian_i256_from_wasm_mem(uint8_t *wasm_mem,
 }
 
 void wrapper_log0(int32_t data_evm_mem, uint32_t data_size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(data_evm_mem, data_size);
   uint32_t num_topics = 0;
   emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics, 0, 0, 0, 0);
 }
 
 void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
                   bytes32 *topic0_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(data_evm_mem, data_size);
 
   uint32_t num_topics = 1;
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
@@ -538,7 +549,7 @@ void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
 
 void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -551,7 +562,7 @@ void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 
 void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -567,7 +578,7 @@ void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 void wrapper_log4(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr,
                   bytes32 *topic3_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_get_readable_memory_addr(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -586,7 +597,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_get_readable_memory_addr(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -615,7 +626,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_get_readable_memory_addr(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -701,7 +712,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_get_readable_memory_addr(in_evm_offset, in_length);
 
   int32_t retCode = callContract(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)&value_bytes,
@@ -718,7 +729,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
                          int32_t in_evm_offset, int32_t in_length,
                          int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_get_readable_memory_addr(in_evm_offset, in_length);
   int32_t retCode = callDelegate(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)in_offset, in_length);
 
@@ -733,7 +744,7 @@ int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_staticcall(uint64_t gas, bytes32 *callee_addr_ptr,
                        int32_t in_evm_offset, int32_t in_length,
                        int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_get_readable_memory_addr(in_evm_offset, in_length);
   int32_t retCode = callStatic(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                (ADDRESS_UINT)in_offset, in_length);
   if (retCode != 0 && is_precompiled_contract(callee_addr_ptr)) {
-- 
2.43.0


From 12ca992c9bd9fdcd6d2c179dfdad0a20b54dd759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 05/36] fix: codecopy covers the end of the code and the
 arguments behind it

---
 stdlib/chain.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index cd166fa..50612eb 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -273,7 +273,7 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
 
   int32_t cur_code_size = getCodeSize();
 
-  if ((evm_memory_offset + size) < cur_code_size) {
+  if ((evm_memory_offset + size) <= cur_code_size) {
     // Copy current WASM contract bytecode
     codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, size);
     return;
@@ -282,14 +282,15 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
   int32_t calldata_offset = evm_memory_offset - cur_code_size;
 
   if (calldata_offset < 0) {
-    __builtin_unreachable();
+    // The range starts inside the code and continues behind it
+    uint32_t code_part = cur_code_size - evm_memory_offset;
+    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, code_part);
+    target_evm_mem_offset += code_part;
+    size -= code_part;
+    calldata_offset = 0;
   }
-  uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + size) > calldata_size) {
-    // Only 4 bytes larger might be the input size
-    __builtin_unreachable();
-  }
-  cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset, size);
+  // Bytes behind the calldata are zeros
+  wrapper_calldata_copy(target_evm_mem_offset, calldata_offset, size);
 }
 uint32_t wrapper_memory_guard(uint32_t size) {
   evm_make_sure_memory(size);
-- 
2.43.0


From 638b9650bce42e76f54d387aa3270620d3ff2e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 06/36] fix: hash of an unavailable block is zero

---
 stdlib/chain.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 50612eb..2e391c3 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -782,6 +782,8 @@ void wrapper_current_blob_base_fee(uint256_t *result) {
 }
 
 void wrapper_block_hash(uint64_t block_number, bytes32 *result) {
+  // The host writes nothing if the hash is not available
+  __memset((uint8_t *)result, 0, 32);
   getBlockHash(block_number, (ADDRESS_UINT)result); // block hash is 32 bytes
 }
 
-- 
2.43.0


From 864fd979ff5c965d58c7ace6b93b55d09a2e3b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 07/36] fix: free memory allocation rounds the size and detects
 overflow

---
 stdlib/chain.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 2e391c3..a6c5bf3 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1028,11 +1028,13 @@ int32_t wrapper_allocate_memory(uint32_t size) {
   //     mstore(64, newFreePtr)
   // }
   int32_t mem_ptr = wrapper_get_memptr_global();
-  int32_t new_free_ptr = mem_ptr + (size + 31) & ~31;
-  if (new_free_ptr <= mem_ptr) {
+  uint32_t rounded_size = (size + 31) & ~(uint32_t)31;
+  uint32_t new_free_ptr = (uint32_t)mem_ptr + rounded_size;
+  if (rounded_size < size || new_free_ptr < (uint32_t)mem_ptr ||
+      new_free_ptr > INT32_MAX) {
     __abort("allocate memory failed");
   }
-  wrapper_set_memptr_global(new_free_ptr);
+  wrapper_set_memptr_global((int32_t)new_free_ptr);
   return mem_ptr;
 }
 
-- 
2.43.0


From 24ee6e59f8998aa8ac40b2384fc2d1a9f1600257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 08/36] fix: abort the transaction when memory cannot be grown

__builtin_unreachable lets the optimiser drop the check and go on.
---
 stdlib/evm_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index b96cf31..ffcb98c 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -8,7 +8,7 @@
 #define WASM_PAGE_SIZE (65536)
 
 // TODO: use revert with not malloc for abort
-#define __abort(x) __builtin_unreachable()
+#define __abort(x) __builtin_trap()
 
 void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool);
 
-- 
2.43.0


From a557490555845f7bd8361ce1a6bbf1951621a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 09/36] fix: built-in token transfer ignores the upper 12 bytes
 of addresses

---
 stdlib/chain.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index a6c5bf3..684b603 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1097,6 +1097,14 @@ void wrapper_optimized_erc20_fun_transfer(bytes32 *from, bytes32 *to,
   //     0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _1,
   //     _3)
   // }
+  bytes32 masked_from;
+  bytes32 masked_to;
+  memcpy(masked_from, from, 32);
+  memcpy(masked_to, to, 32);
+  clear_first_12_bytes(&masked_from);
+  clear_first_12_bytes(&masked_to);
+  from = &masked_from;
+  to = &masked_to;
   if (is_zero_address(((uint8_t *)from) + 12)) {
     // shl(225, 0x4b637e8f) ==
     // 0x96c6fd1e00000000000000000000000000000000000000000000000000000000
-- 
2.43.0


From 7a635a80d016edffc9e70c79d7a1e9f8dbe78810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 10/36] fix: comments end at their terminator, keep words apart
 and are not searched for in strings

---
 src/yul2ir/utils.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 559962d..ed2a2f9 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -376,6 +376,13 @@ pub fn remove_comments(code: &str) -> String {
                 }
                 result.push(c);
             }
+            '\\' if in_string => {
+                // an escaped character never ends the string
+                result.push(c);
+                if let Some(next) = chars.next() {
+                    result.push(next);
+                }
+            }
             '/' if !in_string => {
                 if let Some(next) = chars.next() {
                     match next {
@@ -391,13 +398,20 @@ pub fn remove_comments(code: &str) -> String {
                         '*' => {
                             in_multiline = true;
                             // Skip until matching */
-                            while let Some(c) = chars.next() {
-                                if c == '*' {
-                                    if let Some('/') = chars.next() {
-                                        in_multiline = false;
-                                        break;
-                                    }
+                            let mut previous = ' ';
+                            for c in chars.by_ref() {
+                                if previous == '*' && c == '/' {
+                                    in_multiline = false;
+                                    break;
                                 }
+                                previous = c;
+                            }
+                            // A comment separates the words around it
+                            let is_word = |c: char| c.is_ascii_alphanumeric() || "_.$".contains(c);
+                            if result.ends_with(is_word)
+                                && chars.clone().next().map_or(false, is_word)
+                            {
+                                result.push(' ');
                             }
                         }
                         _ => {
-- 
2.43.0


From 58c7121755608a65a8b8ed4f0482308a1578f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 11/36] fix: any white space may separate data and the name of
 the segment

---
 src/yul.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 8a85e8e..fb12ebd 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -233,7 +233,7 @@ pub HexNumberInner: String = <s:r"0x[0-9a-fA-F]+"> => String::from(s);
 
 pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches("hex").trim_matches('\"').to_string();
 
-pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
+pub DataSegmentWithNameInner: String =  <s:r#"data[ \t\r\n]*"[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim().trim_matches('\"').to_string();
 
 pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
     let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
-- 
2.43.0


From d4d7bfef4408d27b5f035c4caa3af70497384de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 12/36] fix: switch compares full words, runs a lone default
 and reports errors of its bodies

---
 src/yul2ir/transform.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 203ba31..86203bc 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -93,15 +93,10 @@ impl<'a> Yul2IRContext<'a> {
         let cur_func = self.current_function.borrow().clone().unwrap();
         let cur_func_value = *cur_func.clone();
 
-        // For switch condition, we ideally want the type to match case values (typically u256)
+        // The condition and the case values are compared as full words
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::I32)?;
-        let cond_value = cond_value.get_value();
-        let cond_value = if cond_value.is_int_value() {
-            cond_value.into_int_value()
-        } else {
-            self.try_into_u256(&cond_value)?
-        };
+            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::U256)?;
+        let cond_value = self.try_into_u256(&cond_value.get_value())?;
         let cond_value_ty = cond_value.get_type();
 
         // Determine the expected type for case values based on the condition value type
@@ -148,7 +143,7 @@ impl<'a> Yul2IRContext<'a> {
 
                 for (_, bb) in jump_tbl {
                     self.builder.borrow_mut().position_at_end(bb.0);
-                    self.walk_block(yul_func_name, &bb.1);
+                    self.walk_block(yul_func_name, &bb.1)?;
                     self.builder
                         .borrow_mut()
                         .build_unconditional_branch(end_block);
@@ -156,19 +151,21 @@ impl<'a> Yul2IRContext<'a> {
 
                 self.builder.borrow_mut().position_at_end(otherwise_block);
                 if let Some(default) = default {
-                    self.walk_block(yul_func_name, &default.body);
+                    self.walk_block(yul_func_name, &default.body)?;
                 }
                 self.builder
                     .borrow_mut()
                     .build_unconditional_branch(end_block);
             }
             ast::SwitchOptions::Default(default) => {
-                let mut jump_tbl: IndexMap<u32, u32> = IndexMap::default();
                 let otherwise_block = self
                     .llvm_context
                     .append_basic_block(cur_func_value, "switch_otherwise");
+                self.builder
+                    .borrow_mut()
+                    .build_unconditional_branch(otherwise_block);
                 self.builder.borrow_mut().position_at_end(otherwise_block);
-                self.walk_block(yul_func_name, &default.body);
+                self.walk_block(yul_func_name, &default.body)?;
                 self.builder
                     .borrow_mut()
                     .build_unconditional_branch(end_block);
-- 
2.43.0


From 6de69338fcdb54b111728f42b4ff146ecd879207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 13/36] fix: variables hold full words, own their bytes32
 content and start as zero

---
 src/yul2ir/transform.rs | 128 +++++++++++++---------------------------
 1 file changed, 40 insertions(+), 88 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 86203bc..5fa6a75 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -505,102 +505,38 @@ impl<'a> Yul2IRContext<'a> {
         };
 
         // Initialize with the expected type if there's an initializer
-        let init_val_low_level = match &var_decl.value {
+        let init_val = match &var_decl.value {
             Some(val) => Some(self.walk_expr_with_type(yul_func_name, val, expected_type)?),
             None => None,
         };
 
-        // If the right-hand value is bytes32*, declare a bytes32* variable and copy the value
-        if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            let var_low_level_value_type = YulLowLevelValueType::Bytes32Pointer;
-            let ty = self.bytes32_pointer_type().as_basic_type_enum();
-            let llvm_var = self.fast_alloca(ty, &format!("var_{name}"))?;
-            self.set_var(&name, ty, var_low_level_value_type, llvm_var, false)?;
-            self.build_store(llvm_var, init_val_low_level.unwrap().value)?;
-            return self.ok_result();
-        }
-
-        // TODO: Simplify the following code
-
-        // if init_val is bytes32 pointer, convert to bytes32 to store in variable pointer
-        let init_val = if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            // is bytes32 pointer
-
-            // now load bytes32 pointer target is to copy data to variable pointer
-            // TODO: (alloca bytes32*) in stack to store bytes32 pointer
-            let init_val_content = self.build_load(
-                self.bytes32_type(),
-                init_val_low_level.unwrap().get_value().into_pointer_value(),
-                "",
-            )?;
-            Some(init_val_content)
-        } else if init_val_low_level.is_some() {
-            Some(init_val_low_level.unwrap().get_value())
-        } else {
-            None
-        };
-
-        let ty = if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            self.bytes32_type().as_basic_type_enum()
-        } else if init_val_low_level.is_some() {
-            init_val_low_level.unwrap().get_value().get_type()
-        } else {
-            self.default_primitive_type()
-        };
-
-        // if not specified type, infer type from init value
-        // let ty: BasicTypeEnum<'a> = if var_decl.identifiers[0].type_name.is_some() {
-        //     ty
-        // } else if init_val.is_some() {
-        //     let res = {
-        //         let this = &self;
-        //         let value: &BasicValueEnum<'a> = &init_val.unwrap();
-        //         self.is_bytes32_value(value)
-        //     };
-        //     if res {
-        //         self.bytes32_type().into()
-        //     } else {
-        //         init_val.unwrap().into_int_value().get_type().into()
-        //     }
-        // } else {
-        //     self.default_primitive_type()
-        // };
-
-        let var_low_level_value_type = if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            YulLowLevelValueType::Bytes32
-        } else if init_val_low_level.is_some() {
-            init_val_low_level.unwrap().value_type
-        } else {
-            self.default_primitive_type_low_level()
+        // A bytes32* value is copied into storage of the variable's own. Every other value is
+        // stored with the type of the variable and not with the (maybe narrower) type of the
+        // first value, because later assignments may need the full word.
+        let (ty, var_low_level_value_type) = match init_val {
+            Some(val)
+                if self.is_u256_type(&ty)
+                    && val.value_type == YulLowLevelValueType::Bytes32Pointer =>
+            {
+                (
+                    self.bytes32_type().as_basic_type_enum(),
+                    YulLowLevelValueType::Bytes32,
+                )
+            }
+            _ if self.is_u256_type(&ty) => (ty, YulLowLevelValueType::U256),
+            Some(val) => (ty, val.value_type),
+            None => (ty, YulLowLevelValueType::I32),
         };
 
         let llvm_var = self.fast_alloca(ty, &format!("var_{name}"))?;
         self.set_var(&name, ty, var_low_level_value_type, llvm_var, false)?;
 
-        if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            // bytes32 pointer allocated in memory now, load content of pointer to variable
-            // init_val bytes32 loaded yet
-            self.builder
-                .borrow_mut()
-                .build_store(llvm_var, init_val.unwrap())
-                .unwrap();
-        } else if let Some(init_val) = init_val {
-            let init_val = self.try_cast(init_val, ty)?;
-            self.builder
-                .borrow_mut()
-                .build_store(llvm_var, init_val)
-                .unwrap();
-        }
+        // A variable without an initializer is zero
+        let init_val = match init_val {
+            Some(val) => self.try_cast(val.get_value(), ty)?,
+            None => ty.const_zero(),
+        };
+        self.build_store(llvm_var, init_val)?;
         self.ok_result()
     }
 
@@ -1757,6 +1693,16 @@ impl<'a> Yul2IRContext<'a> {
             let param_name = &param.identifier.name.clone();
             let param_ty = infered_yul_func_ty.params_inkwell_type[i];
             let param_low_level_value_type = infered_yul_func_ty.params[i];
+            // The content of a bytes32* is copied into storage of the parameter's own
+            let (param_ty, param_low_level_value_type) =
+                if param_low_level_value_type == YulLowLevelValueType::Bytes32Pointer {
+                    (
+                        self.bytes32_type().as_basic_type_enum(),
+                        YulLowLevelValueType::Bytes32,
+                    )
+                } else {
+                    (param_ty, param_low_level_value_type)
+                };
             let param_var_pointer = self.fast_alloca(param_ty, param_name)?;
             // Store the parameter value in this variable
             let param_value = func_value.get_nth_param(i as u32).unwrap();
@@ -1791,7 +1737,13 @@ impl<'a> Yul2IRContext<'a> {
                     )
                 };
 
-            // TODO: Set initial value for the return variable
+            // Return variables start as zero
+            let ret_var_zero = if ret_var_low_level_value_type == YulLowLevelValueType::Bytes32 {
+                self.bytes32_type().const_zero().as_basic_value_enum()
+            } else {
+                ret_ty.const_zero()
+            };
+            self.build_store(ret_var_pointer, ret_var_zero)?;
             self.set_var(
                 ret_name,
                 ret_ty,
-- 
2.43.0


From 8516f351a35bb92571e9822da4d03395eedb3852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 14/36] fix: loops release the stack space of each iteration

---
 src/yul2ir/context.rs   | 27 ++++++++++++++++++++++++++-
 src/yul2ir/transform.rs |  4 ++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index df88f63..ad33d63 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -15,7 +15,7 @@ use inkwell::module::Module;
 use inkwell::passes::{PassManager, PassManagerBuilder};
 use inkwell::targets::{CodeModel, FileType, RelocMode, TargetTriple};
 use inkwell::types::{
-    ArrayType, BasicType, BasicTypeEnum, IntType, PointerType, StringRadix, VoidType,
+    ArrayType, BasicType, BasicTypeEnum, FunctionType, IntType, PointerType, StringRadix, VoidType,
 };
 use inkwell::values::{
     BasicMetadataValueEnum, BasicValue, BasicValueEnum, FunctionValue, GlobalValue, IntValue,
@@ -1293,6 +1293,31 @@ impl<'ctx> Yul2IRContext<'ctx> {
             .map_err(|e| ASTLoweringError::BuilderError(e.to_string()))
     }
 
+    /// Remember the stack pointer, to release everything allocated on the stack afterwards
+    pub fn build_stack_save(&self) -> Result<BasicValueEnum<'ctx>, ASTLoweringError> {
+        self.declare_intrinsic(
+            "llvm.stacksave",
+            self.bytes32_pointer_type().fn_type(&[], false),
+        );
+        self.build_call("llvm.stacksave", &[])
+    }
+
+    pub fn build_stack_restore(&self, stack: BasicValueEnum<'ctx>) -> Result<(), ASTLoweringError> {
+        self.declare_intrinsic(
+            "llvm.stackrestore",
+            self.void_type()
+                .fn_type(&[self.bytes32_pointer_type().into()], false),
+        );
+        self.build_void_call("llvm.stackrestore", &[stack])
+    }
+
+    fn declare_intrinsic(&self, name: &str, ty: FunctionType<'ctx>) {
+        let module = self.llvm_module.borrow_mut();
+        if module.get_function(name).is_none() {
+            module.add_function(name, ty, None);
+        }
+    }
+
     #[allow(dead_code)]
     pub fn build_store<T: BasicValue<'ctx>>(
         &self,
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 5fa6a75..b0b5f63 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -219,11 +219,14 @@ impl<'a> Yul2IRContext<'a> {
             .llvm_context
             .append_basic_block(cur_func_value, "for_end");
 
+        // The temporaries of an iteration live on the stack, release them before the next one
+        let stack = self.build_stack_save()?;
         self.builder
             .borrow_mut()
             .build_unconditional_branch(cond_block);
 
         self.builder.borrow_mut().position_at_end(cond_block);
+        self.build_stack_restore(stack)?;
         // For conditions, we prefer boolean (i32) results
         let cond_value =
             self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::I32)?;
@@ -260,6 +263,7 @@ impl<'a> Yul2IRContext<'a> {
             .build_unconditional_branch(cond_block);
 
         self.builder.borrow_mut().position_at_end(end_block);
+        self.build_stack_restore(stack)?;
         self.pop_control_flow_end_bb();
         self.pop_control_flow_continue_bb();
         self.ok_result()
-- 
2.43.0


From af7926a7a52331f5d9ffbf59aa0651082044fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 15/36] fix: loop conditions test full words

---
 src/yul2ir/transform.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index b0b5f63..3b6fe01 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -227,9 +227,10 @@ impl<'a> Yul2IRContext<'a> {
 
         self.builder.borrow_mut().position_at_end(cond_block);
         self.build_stack_restore(stack)?;
-        // For conditions, we prefer boolean (i32) results
+        // For conditions, we prefer boolean results. Not I32, which reads the low half word of
+        // loaded values only.
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::I32)?;
+            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::Bool)?;
         let cond_value = cond_value.get_value();
         let cond_value = if cond_value.is_int_value() {
             cond_value.into_int_value()
-- 
2.43.0


From a9033087b0cdc161c7ed4d2173bedaeffea0f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 16/36] fix: the body of an if is a scope of its own

---
 src/yul2ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 3b6fe01..3fa3cdc 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -300,8 +300,8 @@ impl<'a> Yul2IRContext<'a> {
             self.i32_type().const_zero(),
             "nop",
         )?;
+        self.walk_block(yul_func_name, &r#if.body)?;
         for stmt in &r#if.body.statements {
-            self.walk_stmt(yul_func_name, stmt)?;
             unreachableflag = self.is_unreachable_node(stmt);
         }
         // The internal then block should branch to the end block
-- 
2.43.0


From 16b53583a5a98b320dfbc6a8712d81ee5fa24e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 17/36] fix: arguments are evaluated from right to left

---
 src/yul2ir/instruction.rs |  6 ++++--
 src/yul2ir/transform.rs   | 18 ++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f848a75..e352ddf 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -513,10 +513,11 @@ impl<'a> Yul2IRContext<'a> {
         args_exprs: &[Expression],
         arg_expected_types: &[ExpectedType],
     ) -> Vec<YulLowLevelValue<'a>> {
-        // Evaluate each argument with its expected type
-        let args: Vec<YulLowLevelValue<'a>> = args_exprs
+        // Evaluate each argument with its expected type, Yul evaluates them from right to left
+        let mut args: Vec<YulLowLevelValue<'a>> = args_exprs
             .iter()
             .enumerate()
+            .rev()
             .map(|(i, arg)| {
                 let arg_expected_type = if i < arg_expected_types.len() {
                     arg_expected_types[i]
@@ -527,6 +528,7 @@ impl<'a> Yul2IRContext<'a> {
                     .unwrap()
             })
             .collect();
+        args.reverse();
         args
     }
 
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 3fa3cdc..6798284 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -753,24 +753,24 @@ impl<'a> Yul2IRContext<'a> {
             if (func_call.id.name == "fun_transfer" || func_call.id.name == "fun__transfer")
                 && func_call.arguments.len() == 3
             {
-                let from_arg = self.walk_expr_with_type(
+                let value_arg = self.walk_expr_with_type(
                     yul_func_name,
-                    &func_call.arguments[0],
+                    &func_call.arguments[2],
                     ExpectedType::Bytes32Pointer,
                 )?;
-                let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
+                let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
                 let to_arg = self.walk_expr_with_type(
                     yul_func_name,
                     &func_call.arguments[1],
                     ExpectedType::Bytes32Pointer,
                 )?;
                 let to_arg = self.try_into_bytes32_pointer(&to_arg.get_value())?;
-                let value_arg = self.walk_expr_with_type(
+                let from_arg = self.walk_expr_with_type(
                     yul_func_name,
-                    &func_call.arguments[2],
+                    &func_call.arguments[0],
                     ExpectedType::Bytes32Pointer,
                 )?;
-                let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
+                let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
                 self.build_void_call(
                     "wrapper_optimized_erc20_fun_transfer",
                     &[from_arg, to_arg, value_arg],
@@ -820,7 +820,8 @@ impl<'a> Yul2IRContext<'a> {
             .clone();
 
         let mut call_args = vec![];
-        for (i, arg) in func_call.arguments.iter().enumerate() {
+        // Yul evaluates arguments from right to left
+        for (i, arg) in func_call.arguments.iter().enumerate().rev() {
             // Try to get the expected parameter type from function declaration
             let expected_param_type =
                 if let Some(func_decl) = self.current_func_decls.borrow().get(&func_name) {
@@ -848,6 +849,7 @@ impl<'a> Yul2IRContext<'a> {
                 e => return e,
             }
         }
+        call_args.reverse();
 
         let func_def = self.current_func_decls.borrow().get(&func_name).unwrap();
 
@@ -867,7 +869,7 @@ impl<'a> Yul2IRContext<'a> {
                 value: result,
             })
         } else {
-            self.build_void_call(&qualifier_func_name, &call_args);
+            self.build_void_call(&qualifier_func_name, &call_args)?;
             Ok(YulLowLevelValue {
                 value_type: YulLowLevelValueType::I32,
                 value: self.i32_type().const_zero().into(),
-- 
2.43.0


From 954c78cce2c54ca871017ea61e463804d6fce04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 18/36] fix: calls of reverting functions evaluate their
 arguments

---
 src/yul2ir/transform.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 6798284..4dd5775 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -723,6 +723,10 @@ impl<'a> Yul2IRContext<'a> {
             .borrow()
             .contains(&qualifier_func_name)
         {
+            // The arguments are evaluated first, they may end the call in another way
+            for arg in func_call.arguments.iter().rev() {
+                self.walk_expr_with_type(yul_func_name, arg, ExpectedType::Untyped)?;
+            }
             self.build_void_call(UNIFIED_REVERT_ERROR_ZERO, &[])?;
             return Ok(YulLowLevelValue {
                 value_type: YulLowLevelValueType::I32,
-- 
2.43.0


From 700f6c029fbe0a559a2c42bedd158d7bfa47ada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 19/36] fix: long names of immutables do not collide

---
 src/yul2ir/instruction.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index e352ddf..7d8eb2e 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1521,7 +1521,8 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                // at least 32 bytes, which the hash replaces, but all of the name
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
@@ -1604,7 +1605,8 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                // at least 32 bytes, which the hash replaces, but all of the name
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
-- 
2.43.0


From 6ea4f64ed786853addedde9bce4401a5046f211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 20/36] fix: division by zero is zero and signed division wraps

---
 src/yul2ir/instruction.rs | 88 ++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 29 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 7d8eb2e..b67f281 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use ethereum_types::U256;
 use inkwell::types::StringRadix;
-use inkwell::values::{BasicValue, BasicValueEnum, PointerValue};
+use inkwell::values::{BasicValue, BasicValueEnum, IntValue, PointerValue};
 use inkwell::IntPredicate;
 
 use super::yul_instruction::{YulLowLevelValue, YulLowLevelValueType};
@@ -507,6 +507,52 @@ impl<'a> Yul2IRContext<'a> {
         (None, None)
     }
 
+    /// Quotient or remainder of words as the EVM defines them: zero for a zero divisor, and the
+    /// signed forms round towards zero and wrap around.
+    fn build_u256_div_rem(
+        &self,
+        lhs: IntValue<'a>,
+        rhs: IntValue<'a>,
+        signed: bool,
+        remainder: bool,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let builder = self.builder.borrow_mut();
+        let zero = self.u256_type().const_zero();
+        let one = self.u256_type().const_int(1, false);
+        let rhs_is_zero = builder.build_int_compare(IntPredicate::EQ, rhs, zero, "")?;
+        let divisor = builder
+            .build_select(rhs_is_zero, one, rhs, "")?
+            .into_int_value();
+        let result = if signed {
+            let abs = |value: IntValue<'a>| -> Result<_, ASTLoweringError> {
+                let is_neg = builder.build_int_compare(IntPredicate::SLT, value, zero, "")?;
+                let neg = builder.build_int_sub(zero, value, "")?;
+                let abs = builder.build_select(is_neg, neg, value, "")?;
+                Ok((is_neg, abs.into_int_value()))
+            };
+            let (lhs_is_neg, lhs_abs) = abs(lhs)?;
+            let (rhs_is_neg, rhs_abs) = abs(divisor)?;
+            let (result_is_neg, result_abs) = if remainder {
+                let rem = builder.build_int_unsigned_rem(lhs_abs, rhs_abs, "")?;
+                (lhs_is_neg, rem)
+            } else {
+                let div = builder.build_int_unsigned_div(lhs_abs, rhs_abs, "")?;
+                (builder.build_xor(lhs_is_neg, rhs_is_neg, "")?, div)
+            };
+            let result_neg = builder.build_int_sub(zero, result_abs, "")?;
+            builder
+                .build_select(result_is_neg, result_neg, result_abs, "")?
+                .into_int_value()
+        } else if remainder {
+            builder.build_int_unsigned_rem(lhs, divisor, "")?
+        } else {
+            builder.build_int_unsigned_div(lhs, divisor, "")?
+        };
+        Ok(builder
+            .build_select(rhs_is_zero, zero, result, "")?
+            .into_int_value())
+    }
+
     fn walk_args(
         &self,
         yul_func_name: &str,
@@ -712,14 +758,10 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
-                let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                let result = self.build_u256_div_rem(arg0, arg1, false, false)?;
                 Ok(YulLowLevelValue {
-                    value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_div(arg0, arg1, "div_result")?
-                        .into(),
+                    value_type: YulLowLevelValueType::U256,
+                    value: result.into(),
                 })
             }
             YulInstructionName::SDiv => {
@@ -728,14 +770,10 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
-                let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                let result = self.build_u256_div_rem(arg0, arg1, true, false)?;
                 Ok(YulLowLevelValue {
-                    value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_div(arg0, arg1, "sdiv_result")?
-                        .into(),
+                    value_type: YulLowLevelValueType::U256,
+                    value: result.into(),
                 })
             }
             YulInstructionName::Mod => {
@@ -744,14 +782,10 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
-                let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                let result = self.build_u256_div_rem(arg0, arg1, false, true)?;
                 Ok(YulLowLevelValue {
-                    value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_rem(arg0, arg1, "mod_result")?
-                        .into(),
+                    value_type: YulLowLevelValueType::U256,
+                    value: result.into(),
                 })
             }
             YulInstructionName::SMod => {
@@ -760,14 +794,10 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
-                let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                let result = self.build_u256_div_rem(arg0, arg1, true, true)?;
                 Ok(YulLowLevelValue {
-                    value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_rem(arg0, arg1, "smod_result")?
-                        .into(),
+                    value_type: YulLowLevelValueType::U256,
+                    value: result.into(),
                 })
             }
             YulInstructionName::Exp => {
-- 
2.43.0


From f9b756a6b6ea86ffd29a5d295beec82ff7059e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 21/36] fix: shifts, byte and signextend take the whole first
 operand

---
 src/yul2ir/instruction.rs | 73 ++++++++++++++++++++++++++-------------
 stdlib/chain.c            |  6 ++--
 2 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index b67f281..64e5832 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -553,6 +553,25 @@ impl<'a> Yul2IRContext<'a> {
             .into_int_value())
     }
 
+    /// The value, or the limit if the value exceeds it, as i32
+    fn build_clamped_i32(
+        &self,
+        value: &BasicValueEnum<'a>,
+        limit: u64,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let value = self.try_into_u256(value)?;
+        let limit = self.u256_type().const_int(limit, false);
+        let exceeds =
+            self.builder
+                .borrow_mut()
+                .build_int_compare(IntPredicate::UGT, value, limit, "")?;
+        let clamped = self
+            .builder
+            .borrow_mut()
+            .build_select(exceeds, limit, value, "")?;
+        self.int_as_i32(clamped.into_int_value())
+    }
+
     fn walk_args(
         &self,
         yul_func_name: &str,
@@ -737,8 +756,7 @@ impl<'a> Yul2IRContext<'a> {
                 // signextend(b, x) extends a smaller signed integer x to 256 bits while preserving its sign bit.
                 // The bits before the specified byte count (b) are extended according to the sign of the most significant bit.
                 check_args_count(&instr, &args, 2)?;
-                let b = self.try_into_int(args.first().unwrap())?;
-                let b = self.int_as_i32(b)?;
+                let b = self.build_clamped_i32(args.first().unwrap(), 32)?;
                 let x = self.try_into_u256(args.get(1).unwrap())?;
                 let x_ptr = self.get_value_pointer(x)?;
                 let tmp_result = self.fast_alloca(self.u256_type(), "")?;
@@ -1157,8 +1175,8 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::Byte => {
                 check_args_count(&instr, &args, 2)?;
-                let nth_byte_i32 =
-                    self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
+                // 32 stands for all positions behind the last byte
+                let nth_byte_i32 = self.build_clamped_i32(args.first().unwrap(), 32)?;
                 let value = self.try_into_int(args.get(1).unwrap())?;
                 let value = self.int_as_u256(value)?;
                 let shift_amount_tmp = self.builder.borrow_mut().build_int_sub(
@@ -1179,15 +1197,23 @@ impl<'a> Yul2IRContext<'a> {
                     "shifted_value",
                 )?;
                 // get last byte
-                let result = self
-                    .builder
-                    .borrow_mut()
-                    .build_and(
-                        shifted_value,
-                        self.u256_type().const_int(0xff, false),
-                        "byte_result",
-                    )?
-                    .into();
+                let last_byte = self.builder.borrow_mut().build_and(
+                    shifted_value,
+                    self.u256_type().const_int(0xff, false),
+                    "byte_result",
+                )?;
+                let exists = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::ULT,
+                    nth_byte_i32,
+                    self.i32_type().const_int(32, false),
+                    "",
+                )?;
+                let result = self.builder.borrow_mut().build_select(
+                    exists,
+                    last_byte,
+                    self.u256_type().const_zero(),
+                    "",
+                )?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::U256,
                     value: result,
@@ -1202,7 +1228,7 @@ impl<'a> Yul2IRContext<'a> {
                 // so we use bytes32 version
                 if self.is_bytes32_value(value) {
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.build_clamped_i32(shift, 256)?;
                     let value = self.try_into_bytes32_pointer(value)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shl_result")?;
                     self.build_void_call(
@@ -1218,7 +1244,7 @@ impl<'a> Yul2IRContext<'a> {
                 // because llvm shl not work well for shift>=256, so we use c wrapper
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.build_clamped_i32(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shl_result")?;
                 self.build_void_call(
@@ -1235,17 +1261,16 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::Sar => {
                 // Signed Arithmetic Right Shift
                 check_args_count(&instr, &args, 2)?;
-                let (arg0, arg1) = self.unify_to_u256(
-                    self.try_into_int(args.first().unwrap())?,
-                    self.try_into_int(args.get(1).unwrap())?,
-                )?;
+                // larger shifts leave nothing but the sign, as a shift by 255 does
+                let shift = self.build_clamped_i32(args.first().unwrap(), 255)?;
+                let shift = self.int_as_u256(shift)?;
+                let value = self.try_into_u256(args.get(1).unwrap())?;
                 let result = self
                     .builder
                     .borrow_mut()
                     .build_right_shift(
-                        arg1,
-                        arg0, /* yul sar is arg1 >> arg0 */
-                        true, // signed shift
+                        value, shift, /* yul sar is arg1 >> arg0 */
+                        true,  // signed shift
                         "sar_result",
                     )?
                     .into();
@@ -1263,7 +1288,7 @@ impl<'a> Yul2IRContext<'a> {
                 if self.is_bytes32_value(value) {
                     let value = self.try_into_bytes32_pointer(value)?;
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.build_clamped_i32(shift, 256)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shr_result")?;
                     self.build_void_call(
                         "wrapper_bytes32_shr",
@@ -1276,7 +1301,7 @@ impl<'a> Yul2IRContext<'a> {
                 }
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.build_clamped_i32(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shr_result")?;
                 self.build_void_call(
diff --git a/stdlib/chain.c b/stdlib/chain.c
index 684b603..ff6bfed 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -917,15 +917,15 @@ void wrapper_sign_extend(uint32_t bits, uint256_t *value_ptr,
   // the original value's sign bit, and extends the bits preceding the specified
   // byte count (b) according to the most significant bit's sign.
   uint256_t value = *value_ptr;
-  if (bits > 31) {
+  if (bits >= 31) {
     *result = value;
-    return; // If b is greater than 31, return the original value
+    return; // If no byte is left to extend, return the original value
   }
   // Calculate the number of bits to extend
   unsigned int bits_to_extend = (bits + 1) * 8;
 
   // Create the mask for the sign bit
-  uint256_t sign_bit_mask = 1ULL << (bits_to_extend - 1);
+  uint256_t sign_bit_mask = ((uint256_t)1) << (bits_to_extend - 1);
   uint256_t extension_mask = ~((((uint256_t)1) << bits_to_extend) - 1);
 
   // Check the sign bit
-- 
2.43.0


From 963edbf494a2daefa30b176ae369b4d83f33630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 22/36] fix: signed comparisons and the negative calldata size
 difference are words

---
 src/yul2ir/instruction.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 64e5832..0769e1b 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -291,10 +291,15 @@ impl<'a> Yul2IRContext<'a> {
                         // else return negative result.
                         // Optimize by directly calling a specialized wrapper
                         if let Ok(result) = self.build_call("wrapper_calldata_size_minus_4", &[]) {
+                            let result = self
+                                .builder
+                                .borrow_mut()
+                                .build_int_s_extend(result.into_int_value(), self.u256_type(), "")
+                                .unwrap();
                             return (
                                 Some(YulLowLevelValue {
-                                    value_type: YulLowLevelValueType::I32,
-                                    value: result,
+                                    value_type: YulLowLevelValueType::U256,
+                                    value: result.into(),
                                 }),
                                 None,
                             );
@@ -966,7 +971,8 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                // narrower values are not negative, only whole words have a sign
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension,
                 // otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
@@ -1001,7 +1007,8 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                // narrower values are not negative, only whole words have a sign
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension, otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
                     IntPredicate::SGT,
@@ -1269,7 +1276,8 @@ impl<'a> Yul2IRContext<'a> {
                     .builder
                     .borrow_mut()
                     .build_right_shift(
-                        value, shift, /* yul sar is arg1 >> arg0 */
+                        value,
+                        shift, /* yul sar is arg1 >> arg0 */
                         true,  // signed shift
                         "sar_result",
                     )?
-- 
2.43.0


From 2172c8dc7d6dde918ab95305fcd417e60a57f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 23/36] fix: escapes of string literals stand for single bytes

---
 src/yul.lalrpop         | 17 ++++------
 src/yul2ir/ast.rs       |  2 ++
 src/yul2ir/context.rs   |  6 ++--
 src/yul2ir/transform.rs |  6 ++--
 src/yul2ir/utils.rs     | 74 +++++++++--------------------------------
 5 files changed, 32 insertions(+), 73 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index fb12ebd..b928709 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -4,7 +4,6 @@
 
 use crate::yul2ir::ast;
 use crate::yul2ir::utils;
-use regex::Regex;
 
 grammar;
 
@@ -191,8 +190,9 @@ pub HexNumber: ast::HexNumber = {
 
 
 pub StringLiteral: ast::StringLiteral = {
-    <str: StringInner>=> ast::StringLiteral{
-        str,
+    <token: StringToken> => ast::StringLiteral {
+        bytes: utils::unescape_str_to_bytes(&token),
+        str: String::from_utf8_lossy(&utils::unescape_str_to_bytes(&token)).into_owned(),
     }
 }
 
@@ -235,13 +235,10 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 
 pub DataSegmentWithNameInner: String =  <s:r#"data[ \t\r\n]*"[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim().trim_matches('\"').to_string();
 
-pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
-    let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
-    let mut s = String::from(escape_ignore_reg.replace(s, ""));
-    s.remove(0);
-    s.pop();
-    utils::unescape_str_wrap_error(s.as_str())
-};
+pub StringInner: String = <token: StringToken> => String::from_utf8_lossy(&utils::unescape_str_to_bytes(&token)).into_owned();
+
+// The text between the quotes, its escapes included
+pub StringToken: String = <s:r#""((\\("|\\|n|t|(x[0-9a-fA-F][0-9a-fA-F])|(u\{[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => s[1..s.len() - 1].to_string();
 
 pub SingleLineComment: String = <s:r"//[^\n]*\n"> => String::from(s);
 pub MultiLineComment: String = <s:r"/\*([^*]|[\r\n]|(\*+([^*/]|[\r\n])))*\*+/"> => String::from(s);
diff --git a/src/yul2ir/ast.rs b/src/yul2ir/ast.rs
index f5251c8..3124ab8 100644
--- a/src/yul2ir/ast.rs
+++ b/src/yul2ir/ast.rs
@@ -182,6 +182,8 @@ pub struct FunctionCall {
 #[derive(Debug, Clone)]
 pub struct StringLiteral {
     pub str: String,
+    /// The content of the literal, which need not be UTF-8
+    pub bytes: Vec<u8>,
 }
 
 #[derive(Debug, Clone)]
diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index ad33d63..d8557d4 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -509,16 +509,16 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
-    pub fn string_literal(&self, value: &str) -> IntValue<'ctx> {
+    pub fn string_literal(&self, value: &[u8]) -> IntValue<'ctx> {
         if value.len() > 32 {
-            // panic!("String literal length exceeds 32 bytes: {}", value);
+            // panic!("String literal length exceeds 32 bytes: {:?}", value);
             // String literals used in linker symbol, data offset, and data size instructions
             // don't need to be processed by string_literal function
             // After modifying the logic in instruction.rs, we can restore the panic here
             return self.u256_type().const_zero();
         }
         // Convert string to bytes and pad to 32 bytes
-        let mut bytes = value.as_bytes().to_vec();
+        let mut bytes = value.to_vec();
         // right pad to 32 bytes
         bytes.resize(32, 0);
         // Decode as big endian to u256
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 4dd5775..1fa904e 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -115,7 +115,9 @@ impl<'a> Yul2IRContext<'a> {
                         ast::Literal::DecimalNumberLiteral(dec, _) => {
                             self.dec_literal(&dec.dec, expected_type)
                         }
-                        ast::Literal::StringLiteral(string, _) => self.string_literal(&string.str),
+                        ast::Literal::StringLiteral(string, _) => {
+                            self.string_literal(&string.bytes)
+                        }
                         ast::Literal::TrueLiteral(_) => self.bool_literal(true),
                         ast::Literal::FalseLiteral(_) => self.bool_literal(false),
                     };
@@ -1016,7 +1018,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             ast::Literal::StringLiteral(s, ty_name) => {
-                let value = self.string_literal(&s.str);
+                let value = self.string_literal(&s.bytes);
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::from_int_type(value.get_type()),
                     value: value.into(),
diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index ed2a2f9..6a36792 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -134,10 +134,7 @@ fn scan_escape(first_char: char, chars: &mut Chars<'_>, mode: Mode) -> Result<ch
             let lo = lo.to_digit(16).ok_or(EscapeError::InvalidCharInHexEscape)?;
 
             let value = hi * 16 + lo;
-            // For a byte literal verify that it is within ASCII range.
-            if !mode.is_bytes() && !is_ascii(value) {
-                return Err(EscapeError::OutOfRangeHexEscape);
-            }
+            // The escape stands for one byte of any value
             let value = value as u8;
             value as char
         }
@@ -218,12 +215,9 @@ where
             '\\' => {
                 let second_char = chars.clone().next();
                 match second_char {
-                    Some('\n') => {
-                        // Rust language specification requires us to skip whitespaces
-                        // if unescaped '\' character is followed by '\n'.
-                        // For details see [Rust language reference]
-                        // (https://doc.rust-lang.org/reference/tokens.html#string-literals).
-                        skip_ascii_whitespace(&mut chars, start, callback);
+                    Some(' ' | '\n' | '\t' | '\r' | '\x0c') => {
+                        // White space between two backslashes is left out
+                        chars.find(|c| *c == '\\');
                         continue;
                     }
                     _ => scan_escape(first_char, &mut chars, mode),
@@ -236,56 +230,20 @@ where
         let end = initial_len - chars.as_str().len();
         callback(start..end, unescaped_char);
     }
-
-    fn skip_ascii_whitespace<F>(chars: &mut Chars<'_>, start: usize, callback: &mut F)
-    where
-        F: FnMut(Range<usize>, Result<char, EscapeError>),
-    {
-        let tail = chars.as_str();
-        let first_non_space = tail
-            .bytes()
-            .position(|b| b != b' ' && b != b'\t' && b != b'\n' && b != b'\r')
-            .unwrap_or(tail.len());
-        if tail[1..first_non_space].contains('\n') {
-            // The +1 accounts for the escaping slash.
-            let end = start + first_non_space + 1;
-            callback(start..end, Err(EscapeError::MultipleSkippedLinesWarning));
-        }
-        let tail = &tail[first_non_space..];
-        if let Some(c) = tail.chars().next() {
-            // For error reporting, we would like the span to contain the character that was not
-            // skipped.  The +1 is necessary to account for the leading \ that started the escape.
-            let end = start + first_non_space + c.len_utf8() + 1;
-            if c.is_whitespace() {
-                callback(start..end, Err(EscapeError::UnskippedWhitespaceWarning));
-            }
-        }
-        *chars = tail.chars();
-    }
 }
 
-fn is_ascii(x: u32) -> bool {
-    x <= 0x7F
-}
-
-/// Unescape string wrapping errors
-pub fn unescape_str_wrap_error(s: &str) -> String {
-    if s.contains(&['\\', '\r'][..]) {
-        let mut buf = String::with_capacity(s.len());
-        let mut error = false;
-        unescape_str_or_byte_str(s, Mode::Str, &mut |_, unescaped_char| {
-            match unescaped_char {
-                Ok(c) => buf.push(c),
-                Err(e) => {
-                    error = true;
-                    buf = format!("<Lexer error: string: {e:?}>");
-                }
-            };
-        });
-        buf
-    } else {
-        s.to_string()
-    }
+/// Unescape the text between the quotes of a string literal to the bytes it stands for
+pub fn unescape_str_to_bytes(s: &str) -> Vec<u8> {
+    let mut buf = Vec::with_capacity(s.len());
+    unescape_str_or_byte_str(s, Mode::Str, &mut |range, unescaped_char| {
+        match unescaped_char {
+            // unlike other characters these are not encoded
+            Ok(c) if s[range.clone()].starts_with("\\x") => buf.push(c as u8),
+            Ok(c) => buf.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
+            Err(e) => buf = format!("<Lexer error: string: {e:?}>").into_bytes(),
+        };
+    });
+    buf
 }
 
 use std::path::PathBuf;
-- 
2.43.0


From 86d2a426bcb13b6cdcfcddad2a24b9112c4f4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 24/36] fix: memoryguard does not give out the reserved memory

---
 stdlib/chain.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index ff6bfed..b408f2a 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -294,13 +294,10 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
 }
 uint32_t wrapper_memory_guard(uint32_t size) {
   evm_make_sure_memory(size);
-  // Returns EVM memory address fixed at 96 (corresponding to linear memory
-  // address evm_memory_begin + 96) The value 96 is used because in Solidity
-  // EVM:
-  // - Address range [0,64) is reserved for internal use
-  // - Range 64-96 is used for the free memory pointer
-  // - Actual usable memory starts from EVM memory address 96
-  return 96;
+  // The memory below the size is in use: Solidity keeps the scratch space, the
+  // free memory pointer, the zero slot (0x60) and the values of immutables
+  // there. Unreserved memory starts behind it.
+  return size;
 }
 
 void wrapper_mstore_bytes32(int32_t evm_mem, bytes32 *value_ptr) {
-- 
2.43.0


From 4cadb036b3db95f2fccae8393c9d9ac3f11713c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 25/36] fix: memory offsets and sizes of more than 31 bits do
 not wrap around

---
 src/yul2ir/context.rs     | 30 ++++++++++++++++--
 src/yul2ir/instruction.rs | 14 ++++-----
 stdlib/chain.c            | 66 ++++++++++++++++++++++-----------------
 stdlib/chain.h            |  4 +++
 stdlib/evm_memory.c       |  3 ++
 5 files changed, 78 insertions(+), 39 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index d8557d4..5c24b27 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -878,13 +878,39 @@ impl<'ctx> Yul2IRContext<'ctx> {
             if constant_value <= U256::from(i32::MAX) {
                 Ok(self.i32_type().const_int(constant_value.as_u64(), false))
             } else {
-                self.try_into_i32_across_int(value)
+                self.try_into_i32_offset(value)
             }
         } else {
-            self.try_into_i32_across_int(value)
+            self.try_into_i32_offset(value)
         }
     }
 
+    /// An offset or a size as i32. Words of more than 31 bits become i32::MAX: no memory reaches
+    /// that far, so that accesses to them fail, and no data to copy from does either.
+    pub fn try_into_i32_offset(
+        &self,
+        value: &BasicValueEnum<'ctx>,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        if value.is_pointer_value() || self.is_bytes32_value(value) {
+            let value_ptr = self.try_into_bytes32_pointer(value)?;
+            let offset = self.build_call("i32_offset_from_big_endian_bytes32", &[value_ptr])?;
+            return Ok(offset.into_int_value());
+        }
+        let int_value = self.try_into_int(value)?;
+        if int_value.get_type().get_bit_width() <= 32 {
+            return self.int_as_i32(int_value);
+        }
+        let max = int_value.get_type().const_int(i32::MAX as u64, false);
+        let offset = {
+            let builder = self.builder.borrow_mut();
+            let too_large = builder.build_int_compare(IntPredicate::UGT, int_value, max, "")?;
+            builder
+                .build_select(too_large, max, int_value, "")?
+                .into_int_value()
+        };
+        self.int_as_i32(offset)
+    }
+
     pub fn try_into_i32_across_int(
         &self,
         value: &BasicValueEnum<'ctx>,
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 0769e1b..7aab908 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -103,13 +103,13 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::MCopy => {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
             }
-            YulInstructionName::MStore8 => vec![ExpectedType::I32, ExpectedType::I32],
+            YulInstructionName::MStore8 => vec![ExpectedType::I32, ExpectedType::Untyped],
             YulInstructionName::CallDataLoad => vec![ExpectedType::I32],
             YulInstructionName::CallDataCopy => {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
             }
             YulInstructionName::CodeCopy => {
-                vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
+                vec![ExpectedType::I32, ExpectedType::Untyped, ExpectedType::I32]
             }
             YulInstructionName::ReturnDataCopy => {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
@@ -319,7 +319,7 @@ impl<'a> Yul2IRContext<'a> {
                 let offset_val = self
                     .walk_expr_with_type(yul_func_name, offset, ExpectedType::I32)
                     .unwrap();
-                self.try_into_i32_across_int(&offset_val.get_value())
+                self.try_into_i32_offset(&offset_val.get_value())
                     .unwrap()
                     .into()
             };
@@ -1371,8 +1371,7 @@ impl<'a> Yul2IRContext<'a> {
                 let target_evm_mem_offset =
                     self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
 
-                let code_ptr =
-                    self.try_into_i32_value(args.get(1).unwrap(), args_exprs.get(1).unwrap())?;
+                let code_ptr = self.try_into_i32_across_int(args.get(1).unwrap())?;
 
                 let size =
                     self.try_into_i32_value(args.get(2).unwrap(), args_exprs.get(2).unwrap())?;
@@ -1516,7 +1515,7 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::MStore8 => {
                 check_args_count(&instr, &args, 2)?;
-                let evm_mem = self.try_into_i32_across_int(args.first().unwrap())?;
+                let evm_mem = self.try_into_i32_offset(args.first().unwrap())?;
 
                 let value = self.try_into_int(args.get(1).unwrap())?;
                 let u8_value = self.int_cast(value, self.i8_type())?;
@@ -2029,8 +2028,7 @@ impl<'a> Yul2IRContext<'a> {
                 let dst_evm =
                     self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
 
-                let src_evm =
-                    self.try_into_i32_value(args.get(1).unwrap(), args_exprs.get(1).unwrap())?;
+                let src_evm = self.try_into_i32_across_int(args.get(1).unwrap())?;
 
                 let len =
                     self.try_into_i32_value(args.get(2).unwrap(), args_exprs.get(2).unwrap())?;
diff --git a/stdlib/chain.c b/stdlib/chain.c
index b408f2a..4d45133 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -53,6 +53,17 @@ int32_t i32_from_big_endian_bytes32(const bytes32 *value) {
   return result;
 }
 
+int32_t i32_offset_from_big_endian_bytes32(const bytes32 *value) {
+  uint8_t *value_bytes = (uint8_t *)value;
+  for (int i = 0; i < 28; i++) {
+    if (value_bytes[i] != 0) {
+      return INT32_MAX;
+    }
+  }
+  int32_t offset = i32_from_big_endian_bytes32(value);
+  return offset < 0 ? INT32_MAX : offset;
+}
+
 static void u32_to_big_endian(const uint32_t value, uint8_t *memory_ptr) {
   // write to memory by big endian
   for (int i = 0; i < 4; i++) {
@@ -77,6 +88,17 @@ static uint8_t *evm_get_readable_memory_addr(int32_t offset, uint32_t size) {
   return evm_get_memory_addr(offset);
 }
 
+// Returns the address of a memory range that is about to be written.
+static uint8_t *evm_get_writable_memory_addr(int32_t offset, uint32_t size) {
+  if (size > 0) {
+    if (offset < 0) {
+      __abort("memory offset too large");
+    }
+    evm_make_sure_memory((uint32_t)offset + size);
+  }
+  return evm_get_memory_addr(offset);
+}
+
 static int32_t cachedCallDataSize() {
   static int32_t cached = -1;
   if (cached < 0) {
@@ -252,8 +274,8 @@ void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
 void wrapper_stop() { finish(0, 0); }
 void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
                       uint32_t size) {
-  evm_make_sure_memory(target_evm_mem_offset + size);
-  uint8_t *target_mem_ptr = evm_get_memory_addr(target_evm_mem_offset);
+  uint8_t *target_mem_ptr =
+      evm_get_writable_memory_addr(target_evm_mem_offset, size);
   // For Yul, codecopy is sometimes used to copy actual calldata during contract
   // deployment (since in EVM, when deploying a contract, the contract bytecode
   // is init_code + calldata) However, this is different from WASM design. In
@@ -301,15 +323,13 @@ uint32_t wrapper_memory_guard(uint32_t size) {
 }
 
 void wrapper_mstore_bytes32(int32_t evm_mem, bytes32 *value_ptr) {
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_writable_memory_addr(evm_mem, 32);
   memcpy(memory_ptr, value_ptr, 32);
 }
 void wrapper_mstore_u256(int32_t evm_mem, uint256_t *value_ptr) {
   uint256_t value = *value_ptr;
   // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_writable_memory_addr(evm_mem, 32);
   u256_to_big_endian(value, memory_ptr);
 }
 void wrapper_mstore_u32(int32_t evm_mem, uint32_t value) {
@@ -317,8 +337,7 @@ void wrapper_mstore_u32(int32_t evm_mem, uint32_t value) {
   // Although it writes 32 bytes, the first 28 bytes can be directly set to 0
 
   // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_writable_memory_addr(evm_mem, 32);
 
   // mstore(64, value) in Solidity reads/writes memptr value, not using the
   // front part
@@ -344,8 +363,7 @@ void wrapper_mstore_u64(int32_t evm_mem, uint64_t value) {
   // Although it writes 32 bytes, the first 24 bytes can be directly set to 0
 
   // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_writable_memory_addr(evm_mem, 32);
 
   // Write 0 to first 24 bytes (3 i64)
   uint64_t *memory_ptr_u64 = (uint64_t *)memory_ptr;
@@ -363,8 +381,7 @@ void wrapper_mstore_u64(int32_t evm_mem, uint64_t value) {
 
 void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
   // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_get_writable_memory_addr(evm_mem, 32);
   *memory_ptr = value & 0xff;
 }
 
@@ -373,14 +390,10 @@ void wrapper_mload_u256(int32_t evm_mem, uint256_t *result) {
   u256_from_big_endian_bytes(memory_ptr, result);
 }
 
+// Loads a word that serves as an offset or a size
 uint32_t wrapper_mload_u32(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_readable_memory_addr(evm_mem, 32);
-  // Read 4 bytes in big-endian order from the last 4 bytes of the 32-byte slot
-  uint32_t result = 0;
-  for (int i = 0; i < 4; i++) {
-    result = (result << 8) | memory_ptr[28 + i];
-  }
-  return result;
+  return i32_offset_from_big_endian_bytes32(
+      (bytes32 *)evm_get_readable_memory_addr(evm_mem, 32));
 }
 
 uint64_t wrapper_mload_u64(int32_t evm_mem) {
@@ -400,8 +413,7 @@ void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
 }
 
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
-  evm_make_sure_memory(evm_dst + size);
-  uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
+  uint8_t *dst_memory = evm_get_writable_memory_addr(evm_dst, size);
   uint8_t *src_memory = evm_get_readable_memory_addr(evm_src, size);
   if (src_memory < dst_memory && dst_memory < src_memory + size) {
     // The destination overlaps the tail of the source, copy backwards
@@ -824,8 +836,7 @@ uint32_t wrapper_returndata_size() { return (uint32_t)getReturnDataSize(); }
 
 void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
                            uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst_memory_ptr = evm_get_memory_addr(dst_evm);
+  uint8_t *dst_memory_ptr = evm_get_writable_memory_addr(dst_evm, len);
 
   // For out of bound bytes, 0s will be copied.
   uint32_t calldata_size = cachedCallDataSize();
@@ -842,8 +853,7 @@ void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
 
 void wrapper_returndata_copy(int32_t dst_evm, uint32_t return_data_offset,
                              uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst_memory_ptr = evm_get_memory_addr(dst_evm);
+  uint8_t *dst_memory_ptr = evm_get_writable_memory_addr(dst_evm, len);
 
   returnDataCopy((ADDRESS_UINT)dst_memory_ptr, (uint32_t)return_data_offset,
                  len);
@@ -877,8 +887,7 @@ uint32_t wrapper_extcode_size(bytes32 *addr_ptr) {
 
 void wrapper_extcode_copy(bytes32 *addr_ptr, int32_t dst_evm, uint32_t offset,
                           uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst = evm_get_memory_addr(dst_evm);
+  uint8_t *dst = evm_get_writable_memory_addr(dst_evm, len);
   externalCodeCopy(12 + (ADDRESS_UINT)addr_ptr, (ADDRESS_UINT)dst, offset, len);
 }
 
@@ -902,8 +911,7 @@ void wrapper_extcode_hash(bytes32 *addr_ptr, bytes32 *result) {
 }
 
 void wrapper_data_copy(int32_t dst_evm, int32_t src_evm, uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst = evm_get_memory_addr(dst_evm);
+  uint8_t *dst = evm_get_writable_memory_addr(dst_evm, len);
   uint8_t *src = evm_get_memory_addr(src_evm);
   memcpy(dst, src, len);
 }
diff --git a/stdlib/chain.h b/stdlib/chain.h
index 84a5e1d..db2bc2b 100644
--- a/stdlib/chain.h
+++ b/stdlib/chain.h
@@ -18,6 +18,10 @@ void u256_from_big_endian_bytes(const uint8_t *memory_ptr, uint256_t *result);
 
 int32_t i32_from_big_endian_bytes32(const bytes32 *value);
 
+// Memory offset or size of a word, INT32_MAX if it does not fit: no memory
+// reaches that far
+int32_t i32_offset_from_big_endian_bytes32(const bytes32 *value);
+
 // Functions exported for inkwell usage cannot have complex custom struct value
 // types, otherwise parameter passing will fail after wasm generation
 void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result);
diff --git a/stdlib/evm_memory.c b/stdlib/evm_memory.c
index bdafd56..fe6c3ea 100644
--- a/stdlib/evm_memory.c
+++ b/stdlib/evm_memory.c
@@ -58,6 +58,9 @@ void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool) {
 }
 
 uint8_t *evm_make_sure_memory(uint32_t size) {
+  if (size >= INT32_MAX) {
+    __abort("memory offset too large");
+  }
   if (evm_memory_full_size < size) {
     uint32_t target_evm_pages = (size + WASM_PAGE_SIZE - 1) / WASM_PAGE_SIZE;
     uint32_t grow_pages =
-- 
2.43.0


From 370eb7333c00b0145e4286d79488b273f53f3897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 26/36] fix: amounts of gas and block numbers of more than 63
 bits do not wrap around

---
 src/yul2ir/context.rs     | 26 +++++++++++++-------------
 src/yul2ir/instruction.rs |  4 ++--
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 5c24b27..1d4c7fd 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -848,24 +848,24 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
+    /// A block number or an amount of gas as i64. Larger words become i64::MAX.
     pub fn try_into_i64(
         &self,
         value: &BasicValueEnum<'ctx>,
     ) -> Result<IntValue<'ctx>, ASTLoweringError> {
-        if value.get_type().is_int_type() {
-            self.int_cast(value.into_int_value(), self.i64_type())
-        } else if self.is_bytes32_value(value) {
-            let u256_value = self.bytes32_as_u256(value)?;
-            self.int_cast(u256_value, self.i64_type())
-        } else if value.is_pointer_value() {
-            // is bytes32 pointer
-            let bytes32_val = self.try_into_bytes32(value)?;
-            self.try_into_i64(&bytes32_val)
-        } else {
-            Err(ASTLoweringError::UnsupportedType(
-                value.get_type().to_string(),
-            ))
+        let int_value = self.try_into_int(value)?;
+        if int_value.get_type().get_bit_width() <= 64 {
+            return self.int_as_i64(int_value);
         }
+        let max = int_value.get_type().const_int(i64::MAX as u64, false);
+        let result = {
+            let builder = self.builder.borrow_mut();
+            let too_large = builder.build_int_compare(IntPredicate::UGT, int_value, max, "")?;
+            builder
+                .build_select(too_large, max, int_value, "")?
+                .into_int_value()
+        };
+        self.int_as_i64(result)
     }
 
     pub fn try_into_i32_value(
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 7aab908..96dfbef 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -133,7 +133,7 @@ impl<'a> Yul2IRContext<'a> {
 
             // For contract calls, use appropriate types for gas, address, value, and memory params
             YulInstructionName::Call => vec![
-                ExpectedType::I64,     // gas
+                ExpectedType::Untyped, // gas
                 ExpectedType::Bytes32, // address
                 ExpectedType::U256,    // value
                 ExpectedType::I32,     // in_offset
@@ -142,7 +142,7 @@ impl<'a> Yul2IRContext<'a> {
                 ExpectedType::I32,     // out_size
             ],
             YulInstructionName::DelegateCall | YulInstructionName::StaticCall => vec![
-                ExpectedType::I64,     // gas
+                ExpectedType::Untyped, // gas
                 ExpectedType::Bytes32, // address
                 ExpectedType::I32,     // in_offset
                 ExpectedType::I32,     // in_size
-- 
2.43.0


From fca718db9204629ead42b844ff6f379b8a28e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 27/36] fix: decoders of addresses check the upper 12 bytes

---
 src/yul2ir/instruction.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 96dfbef..d78435f 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -363,23 +363,6 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
-        //  Optimize iszero(eq(value, and(value, sub(shl(160, 1), 1)))) by checking if the first 12 bytes of u256/bytes32 are zero
-
-        if yul_func_name.contains("abi_decode_address")
-            || yul_func_name.contains("abi_decode_t_address")
-        {
-            // TODO: Since abi_decode_address only uses the last 20 bytes of the address, we can simply return false for the iszero check
-            if let YulInstructionName::IsZero = instr {
-                return (
-                    Some(YulLowLevelValue {
-                        value_type: YulLowLevelValueType::I32,
-                        value: self.i32_type().const_zero().into(),
-                    }),
-                    None,
-                );
-            }
-        }
-
         // TODO: and(addr, sub(shl(160, 1), 1)) can be optimized to clear the first 12 bytes of the address
         // TODO: However, since only the last 20 bytes of the address are used, we can implement a special optimization
         if self.opts.enable_all_optimizers {
-- 
2.43.0


From 5a3d81eefcb3bf86bd4db2e5906effe1cd133c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 28/36] fix: address masks clear the upper 12 bytes with all
 optimizers

---
 src/yul2ir/context.rs     | 20 --------------------
 src/yul2ir/instruction.rs | 23 -----------------------
 2 files changed, 43 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 1d4c7fd..c1433b7 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -655,26 +655,6 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
-    /// Helper function to match the address masking pattern: and(addr, sub(shl(160, 1), 1))
-    /// return the addr expression
-    pub fn matches_address_mask_pattern(&self, expr: &Expression) -> Option<Expression> {
-        // Pattern: and(addr, sub(shl(160, 1), 1))
-        if let Some(and_args) = self.matches_yul_instruction(expr, "and", 2) {
-            if let Some(sub_args) = self.matches_yul_instruction(&and_args[1], "sub", 2) {
-                if let Some(shl_args) = self.matches_yul_instruction(&sub_args[0], "shl", 2) {
-                    // Check if shl(160, 1) and sub(..., 1)
-                    if self.matches_constant_literal(&shl_args[0], U256::from(160))
-                        && self.matches_constant_literal(&shl_args[1], U256::from(1))
-                        && self.matches_constant_literal(&sub_args[1], U256::from(1))
-                    {
-                        return Some(and_args[0].clone());
-                    }
-                }
-            }
-        }
-        None
-    }
-
     pub fn add_global_constant_bytes32(
         &self,
         value: &[u8],
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index d78435f..1a3eb4f 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -363,29 +363,6 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
-        // TODO: and(addr, sub(shl(160, 1), 1)) can be optimized to clear the first 12 bytes of the address
-        // TODO: However, since only the last 20 bytes of the address are used, we can implement a special optimization
-        if self.opts.enable_all_optimizers {
-            if let YulInstructionName::And = instr {
-                let lhs = args_exprs.first().unwrap();
-                let rhs = args_exprs.get(1).unwrap();
-
-                // Use simplified address mask pattern matching
-                if let Some(Expression::Identifier(addr_iden)) = self.matches_address_mask_pattern(
-                    &Expression::FunctionCall(Box::new(FunctionCall {
-                        id: Identifier {
-                            name: "and".to_string(),
-                        },
-                        arguments: vec![lhs.clone(), rhs.clone()],
-                    })),
-                ) {
-                    // Optimize by directly returning the address since only the last 20 bytes will be used
-                    let result = self.walk_identifier(&addr_iden).unwrap();
-                    return (Some(result), None);
-                }
-            }
-        }
-
         if yul_func_name.contains("abi_decode_address")
             || yul_func_name.contains("abi_decode_t_address")
         {
-- 
2.43.0


From 96a2fb9e43e1112b8a7d98846d93b1baba50841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 29/36] fix: literals that do not fit a word are rejected

---
 src/yul2ir/context.rs     | 11 ++++++-----
 src/yul2ir/instruction.rs | 17 +++++++++++++++++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index c1433b7..910218d 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -468,6 +468,9 @@ impl<'ctx> Yul2IRContext<'ctx> {
     }
 
     pub fn dec_literal(&self, value: &str, expected_type: ExpectedType) -> IntValue<'ctx> {
+        if U256::from_dec_str(value).is_err() {
+            panic!("Number literal exceeds 256 bits: {}", value);
+        }
         // Unless there's a clear expected type from context, or the variable is not used as u256 type,
         // always use u256 type. Otherwise, in cases like `let i := 0` followed by `i = add(i, 1)`,
         // overflow might occur within the i32 value range.
@@ -511,11 +514,9 @@ impl<'ctx> Yul2IRContext<'ctx> {
 
     pub fn string_literal(&self, value: &[u8]) -> IntValue<'ctx> {
         if value.len() > 32 {
-            // panic!("String literal length exceeds 32 bytes: {:?}", value);
-            // String literals used in linker symbol, data offset, and data size instructions
-            // don't need to be processed by string_literal function
-            // After modifying the logic in instruction.rs, we can restore the panic here
-            return self.u256_type().const_zero();
+            // String literals that are names (linker symbol, data offset, immutables and so on)
+            // are not values and do not come here
+            panic!("String literal length exceeds 32 bytes: {:?}", value);
         }
         // Convert string to bytes and pad to 32 bytes
         let mut bytes = value.to_vec();
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 1a3eb4f..6890aac 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -594,6 +594,23 @@ impl<'a> Yul2IRContext<'a> {
 
         let args_low_level = if let Some(optimized_args) = optimized_args {
             optimized_args
+        } else if matches!(
+            instr,
+            YulInstructionName::LinkerSymbol
+                | YulInstructionName::DataOffset
+                | YulInstructionName::DataSize
+                | YulInstructionName::LoadImmutable
+                | YulInstructionName::SetImmutable
+        ) {
+            // One argument is a name of any length and stands for no value
+            let mut values = args_exprs.to_vec();
+            let name_index = usize::from(matches!(instr, YulInstructionName::SetImmutable));
+            if let Some(Expression::Literal(Literal::StringLiteral(name, _))) =
+                values.get_mut(name_index)
+            {
+                name.bytes.clear();
+            }
+            self.walk_args(yul_func_name, &values, &arg_expected_types)
         } else {
             self.walk_args(yul_func_name, args_exprs, &arg_expected_types)
         };
-- 
2.43.0


From 5defedc7701aa09755195aa130e1c080d6d66d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 30/36] fix: functions defined twice or named like built-ins,
 and leave outside of functions, are rejected

---
 src/yul2ir/transform.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 1fa904e..a650183 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -889,6 +889,11 @@ impl<'a> Yul2IRContext<'a> {
     //
     // The leave statement can only be used inside a function.
     fn walk_leave(&self) -> CompileResult<'a> {
+        if self.current_function_definition.borrow().is_none() {
+            return Err(ASTLoweringError::BuilderError(
+                "leave outside of a function".to_string(),
+            ));
+        }
         // Similar to the return statement in regular functions, but the return instruction returns the result of the current contract call,
         // while leave returns the result of the current function.
         // Jump to the exit basic block.
@@ -1321,6 +1326,7 @@ impl<'a> Yul2IRContext<'a> {
         *self.current_contract_name.borrow_mut() = object.name.clone();
 
         // Scan function declarations in current object
+        let mut names: Vec<&str> = vec![];
         for func in object
             .code
             .statements
@@ -1328,6 +1334,14 @@ impl<'a> Yul2IRContext<'a> {
             .filter(|stmt| matches!(stmt, ast::Statement::FunctionDefinition(_)))
         {
             if let ast::Statement::FunctionDefinition(func_def) = func {
+                let name = func_def.name.name.as_str();
+                if names.contains(&name) || parse_intrinsic_func_name(name).is_some() {
+                    return Err(ASTLoweringError::BuilderError(format!(
+                        "Function '{}' is already defined",
+                        name
+                    )));
+                }
+                names.push(name);
                 let qualifier_func_name = self.get_func_decl_qualifier_name(func_def);
                 let (func_ty, func_low_level_type) = self.transform_func_llvm_ty(func_def);
 
-- 
2.43.0


From 63023ab55e7e3345d0b0fe59d37725ae392cf47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 31/36] fix: functions named init do not clash with the code of
 the contract

---
 src/yul2ir/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index a650183..57088bb 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1626,7 +1626,8 @@ impl<'a> Yul2IRContext<'a> {
     fn transform_init_func(&self, object: &Object) -> (CompileFunctionResult<'a>, String) {
         let module_name = self.current_module_name.borrow().clone();
         let contract_name = self.current_contract_name.borrow().clone();
-        let qualifier_func_name = format!("{}.{}.init", module_name, contract_name,);
+        // No function of the program can have this name
+        let qualifier_func_name = format!("{}.{}.$init", module_name, contract_name,);
 
         let params_meta_types: Vec<BasicMetadataTypeEnum<'a>> = vec![];
         let func_ty: FunctionType<'a> = self
-- 
2.43.0


From e8edf991e0a1327f20f1d79c68dbb06b3c6758a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:30 +0000
Subject: [PATCH 32/36] fix: constants stored at 0x40 reach the free memory
 pointer with all optimizers

---
 src/yul2ir/instruction.rs | 118 +++++++++++++++++++-------------------
 1 file changed, 59 insertions(+), 59 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 6890aac..db4bf32 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -309,6 +309,65 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
+        // Optimize mstore(64, value) and mload(64) operations to use wasm global variables
+        if self.opts.enable_all_optimizers {
+            if matches!(instr, YulInstructionName::MStore) && args_exprs.len() == 2 {
+                if let Some(offset_constant) =
+                    self.fetch_not_string_literal_constant(&args_exprs[0])
+                {
+                    if offset_constant == U256::from(64) {
+                        // mstore(64, value)
+                        // call wrapper_set_memptr_global(value)
+                        let value_expr = args_exprs[1].clone();
+                        let value = self
+                            .walk_expr_with_type(yul_func_name, &value_expr, ExpectedType::I32)
+                            .unwrap();
+                        let value = self.try_into_i32_value(&value.value, &value_expr).unwrap();
+                        self.build_void_call("wrapper_set_memptr_global", &[value.into()])
+                            .unwrap();
+
+                        // let memptr_global = self.memptr_global.borrow().unwrap();
+                        // self.build_store(
+                        //     memptr_global.as_pointer_value(),
+                        //     value.as_basic_value_enum(),
+                        // )
+                        // .unwrap();
+
+                        return (
+                            Some(YulLowLevelValue {
+                                value_type: YulLowLevelValueType::I32,
+                                value: self.i32_type().const_zero().into(),
+                            }),
+                            None,
+                        );
+                    }
+                }
+            }
+            if matches!(instr, YulInstructionName::MLoad) && args_exprs.len() == 1 {
+                if let Some(offset_constant) =
+                    self.fetch_not_string_literal_constant(&args_exprs[0])
+                {
+                    if offset_constant == U256::from(64) {
+                        // mload(64)
+                        // call wrapper_get_memptr_global()
+                        let result = self.build_call("wrapper_get_memptr_global", &[]).unwrap();
+
+                        // let memptr_global = self.memptr_global.borrow().unwrap();
+                        // let result = self
+                        //     .build_load(self.i32_type(), memptr_global.as_pointer_value(), "")
+                        //     .unwrap();
+                        return (
+                            Some(YulLowLevelValue {
+                                value_type: YulLowLevelValueType::I32,
+                                value: result,
+                            }),
+                            None,
+                        );
+                    }
+                }
+            }
+        }
+
         // optimize for mstore(offset, constant_value)
         if matches!(instr, YulInstructionName::MStore) && args_exprs.len() == 2 {
             let offset = &args_exprs[0].clone();
@@ -410,65 +469,6 @@ impl<'a> Yul2IRContext<'a> {
             return (None, Some(args));
         }
 
-        // Optimize mstore(64, value) and mload(64) operations to use wasm global variables
-        if self.opts.enable_all_optimizers {
-            if matches!(instr, YulInstructionName::MStore) && args_exprs.len() == 2 {
-                if let Some(offset_constant) =
-                    self.fetch_not_string_literal_constant(&args_exprs[0])
-                {
-                    if offset_constant == U256::from(64) {
-                        // mstore(64, value)
-                        // call wrapper_set_memptr_global(value)
-                        let value_expr = args_exprs[1].clone();
-                        let value = self
-                            .walk_expr_with_type(yul_func_name, &value_expr, ExpectedType::I32)
-                            .unwrap();
-                        let value = self.try_into_i32_value(&value.value, &value_expr).unwrap();
-                        self.build_void_call("wrapper_set_memptr_global", &[value.into()])
-                            .unwrap();
-
-                        // let memptr_global = self.memptr_global.borrow().unwrap();
-                        // self.build_store(
-                        //     memptr_global.as_pointer_value(),
-                        //     value.as_basic_value_enum(),
-                        // )
-                        // .unwrap();
-
-                        return (
-                            Some(YulLowLevelValue {
-                                value_type: YulLowLevelValueType::I32,
-                                value: self.i32_type().const_zero().into(),
-                            }),
-                            None,
-                        );
-                    }
-                }
-            }
-            if matches!(instr, YulInstructionName::MLoad) && args_exprs.len() == 1 {
-                if let Some(offset_constant) =
-                    self.fetch_not_string_literal_constant(&args_exprs[0])
-                {
-                    if offset_constant == U256::from(64) {
-                        // mload(64)
-                        // call wrapper_get_memptr_global()
-                        let result = self.build_call("wrapper_get_memptr_global", &[]).unwrap();
-
-                        // let memptr_global = self.memptr_global.borrow().unwrap();
-                        // let result = self
-                        //     .build_load(self.i32_type(), memptr_global.as_pointer_value(), "")
-                        //     .unwrap();
-                        return (
-                            Some(YulLowLevelValue {
-                                value_type: YulLowLevelValueType::I32,
-                                value: result,
-                            }),
-                            None,
-                        );
-                    }
-                }
-            }
-        }
-
         (None, None)
     }
 
-- 
2.43.0


From 9f81259dba28eef0fce0b1713a196f88b9996c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 33/36] fix: calls with the wrong number of arguments or values
 are rejected

---
 src/yul2ir/instruction.rs     | 36 ++++++++++++++++++++++
 src/yul2ir/transform.rs       | 56 +++++++++++++++++++++++++++++++++--
 src/yul2ir/yul_instruction.rs | 32 ++++++++++++++++++++
 3 files changed, 122 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index db4bf32..1ad246f 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -571,6 +571,42 @@ impl<'a> Yul2IRContext<'a> {
     ) -> CompileResult<'a> {
         let args_exprs = args;
 
+        // The arguments of these are not looked at below
+        let arg_count = match instr {
+            YulInstructionName::Pop => Some(1),
+            YulInstructionName::MSize
+            | YulInstructionName::Gas
+            | YulInstructionName::Address
+            | YulInstructionName::SelfBalance
+            | YulInstructionName::Caller
+            | YulInstructionName::CallValue
+            | YulInstructionName::CallDataSize
+            | YulInstructionName::CodeSize
+            | YulInstructionName::ReturnDataSize
+            | YulInstructionName::ChainID
+            | YulInstructionName::BaseFee
+            | YulInstructionName::BlobBaseFee
+            | YulInstructionName::Origin
+            | YulInstructionName::GasPrice
+            | YulInstructionName::CoinBase
+            | YulInstructionName::TimeStamp
+            | YulInstructionName::Number
+            | YulInstructionName::Difficulty
+            | YulInstructionName::Prevrandao
+            | YulInstructionName::GasLimit => Some(0),
+            _ => None,
+        };
+        if let Some(expected) = arg_count {
+            if args.len() != expected {
+                return Err(ASTLoweringError::BuilderError(format!(
+                    "Instruction {:?} Expected {} arguments, but got {}",
+                    instr,
+                    expected,
+                    args.len()
+                )));
+            }
+        }
+
         // Get expected types for each argument
         let arg_expected_types = self.get_instruction_arg_expected_types(
             yul_func_name,
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 57088bb..dbe5e71 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -357,7 +357,7 @@ impl<'a> Yul2IRContext<'a> {
         let val = &assign.value;
         // For tuple returns, we still want to evaluate the function call with appropriate expected type
         // The function call will handle the return type properly
-        let to_set_value = self.walk_expr_with_type(yul_func_name, val, ExpectedType::Untyped)?;
+        let to_set_value = self.walk_tuple_value(yul_func_name, val, assign.identifiers.len())?;
         self.builder
             .borrow_mut()
             .build_store(tmp_value, to_set_value.get_value());
@@ -595,7 +595,7 @@ impl<'a> Yul2IRContext<'a> {
 
         if let Some(val) = &var_decl.value {
             // For tuple returns, use an appropriate expected type
-            let init_val = self.walk_expr_with_type(yul_func_name, val, ExpectedType::Untyped)?;
+            let init_val = self.walk_tuple_value(yul_func_name, val, var_decl.identifiers.len())?;
             self.builder
                 .borrow_mut()
                 .build_store(tmp_value, init_val.get_value());
@@ -695,6 +695,7 @@ impl<'a> Yul2IRContext<'a> {
         match expr {
             ast::Expression::Identifier(id) => self.walk_identifier(id),
             ast::Expression::FunctionCall(func_call) => {
+                self.check_values_count(func_call, 1)?;
                 // Use expected type for function calls
                 let func_name = func_call.id.name.clone();
                 if let Some(instr) = parse_intrinsic_func_name(&func_name) {
@@ -712,6 +713,46 @@ impl<'a> Yul2IRContext<'a> {
         }
     }
 
+    /// Checks that a call yields as many values as are used.
+    fn check_values_count(
+        &self,
+        func_call: &ast::FunctionCall,
+        used: usize,
+    ) -> Result<(), ASTLoweringError> {
+        let func_name = &func_call.id.name;
+        let count = if let Some(instr) = parse_intrinsic_func_name(func_name) {
+            instr.has_value() as usize
+        } else if let Some(func_decl) = self.current_func_decls.borrow().get(func_name) {
+            func_decl.returns.len()
+        } else {
+            // Reported when the call itself is generated
+            return Ok(());
+        };
+        if count != used {
+            return Err(ASTLoweringError::BuilderError(format!(
+                "'{}' yields {} values where {} are used",
+                func_name, count, used
+            )));
+        }
+        Ok(())
+    }
+
+    /// The value assigned to several variables: a call that yields one value for each.
+    fn walk_tuple_value(
+        &self,
+        yul_func_name: &str,
+        value: &Expression,
+        used: usize,
+    ) -> CompileResult<'a> {
+        match value {
+            Expression::FunctionCall(func_call) => {
+                self.check_values_count(func_call, used)?;
+                self.walk_function_call(yul_func_name, func_call)
+            }
+            _ => self.walk_expr_with_type(yul_func_name, value, ExpectedType::Untyped),
+        }
+    }
+
     fn walk_function_call(
         &self,
         yul_func_name: &str,
@@ -825,6 +866,17 @@ impl<'a> Yul2IRContext<'a> {
             })?
             .clone();
 
+        if let Some(func_decl) = self.current_func_decls.borrow().get(&func_name) {
+            if func_decl.params.len() != func_call.arguments.len() {
+                return Err(ASTLoweringError::BuilderError(format!(
+                    "'{}' takes {} arguments, not {}",
+                    func_name,
+                    func_decl.params.len(),
+                    func_call.arguments.len()
+                )));
+            }
+        }
+
         let mut call_args = vec![];
         // Yul evaluates arguments from right to left
         for (i, arg) in func_call.arguments.iter().enumerate().rev() {
diff --git a/src/yul2ir/yul_instruction.rs b/src/yul2ir/yul_instruction.rs
index f63aa02..607a10e 100644
--- a/src/yul2ir/yul_instruction.rs
+++ b/src/yul2ir/yul_instruction.rs
@@ -199,6 +199,38 @@ pub enum YulInstructionName {
     DebugPrint,
 }
 
+impl YulInstructionName {
+    /// Whether a call of the built-in is an expression with a value, and not a statement.
+    pub fn has_value(&self) -> bool {
+        !matches!(
+            self,
+            YulInstructionName::Stop
+                | YulInstructionName::Pop
+                | YulInstructionName::MStore
+                | YulInstructionName::MStore8
+                | YulInstructionName::MCopy
+                | YulInstructionName::SStore
+                | YulInstructionName::TStore
+                | YulInstructionName::SetImmutable
+                | YulInstructionName::CallDataCopy
+                | YulInstructionName::CodeCopy
+                | YulInstructionName::ExtCodeCopy
+                | YulInstructionName::DataCopy
+                | YulInstructionName::ReturnDataCopy
+                | YulInstructionName::Return
+                | YulInstructionName::Revert
+                | YulInstructionName::SelfDestruct
+                | YulInstructionName::Invalid
+                | YulInstructionName::Log0
+                | YulInstructionName::Log1
+                | YulInstructionName::Log2
+                | YulInstructionName::Log3
+                | YulInstructionName::Log4
+                | YulInstructionName::DebugPrint
+        )
+    }
+}
+
 impl From<String> for YulInstructionName {
     fn from(s: String) -> YulInstructionName {
         match parse_intrinsic_func_name(&s) {
-- 
2.43.0


From ae1817b7a5037962426efb9be01a969f22b83dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 34/36] fix: signed word comparisons compare the operands, not
 their addresses

---
 stdlib/chain_math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 2643626..0f53ebe 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -58,9 +58,9 @@ BOOL wrapper_bytes32_slt(const bytes32 *a, const bytes32 *b) {
   // If signs are the same, perform comparison based on magnitude
   // For signed comparison, the rest of the bytes are compared normally
   for (int i = 0; i < 32; i++) {
-    if (a[i] < b[i]) {
+    if (a_bytes[i] < b_bytes[i]) {
       return 1; // a is smaller
-    } else if (a[i] > b[i]) {
+    } else if (a_bytes[i] > b_bytes[i]) {
       return 0; // a is larger
     }
   }
@@ -81,9 +81,9 @@ BOOL wrapper_bytes32_sgt(const bytes32 *a, const bytes32 *b) {
 
   // If signs are the same, perform comparison based on magnitude
   for (int i = 0; i < 32; i++) {
-    if (a[i] > b[i]) {
+    if (a_bytes[i] > b_bytes[i]) {
       return 1; // a is larger
-    } else if (a[i] < b[i]) {
+    } else if (a_bytes[i] < b_bytes[i]) {
       return 0; // a is smaller
     }
   }
-- 
2.43.0


From cb000683d4ea28f515549ef72ad6d560730c37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 35/36] fix: shifting a small word left respects its byte order

---
 stdlib/chain_math.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 0f53ebe..599a392 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -158,12 +158,14 @@ void wrapper_bytes32_shl(const bytes32 *value, int32_t shift, bytes32 *result) {
     if (shift <= 32 && value_as_u64_array[0] == 0 &&
         value_as_u64_array[1] == 0 && value_as_u64_array[2] == 0 &&
         value_as_u32_array[6] == 0) {
-      uint64_t last_u64 = ((uint64_t)value_as_u32_array[7]) << shift;
+      // the word is big endian
+      uint64_t last_u64 = ((uint64_t)__builtin_bswap32(value_as_u32_array[7]))
+                          << shift;
       uint64_t *result_as_u64_array = (uint64_t *)result;
       result_as_u64_array[0] = 0;
       result_as_u64_array[1] = 0;
       result_as_u64_array[2] = 0;
-      result_as_u64_array[3] = last_u64;
+      result_as_u64_array[3] = __builtin_bswap64(last_u64);
       return;
     } else {
       // TODO: optimize this
-- 
2.43.0


From 68c4b9cbd80fa9509d99e93971aaaf95a22c59c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 36/36] fix: comments behind a string with a gap are removed

---
 src/yul2ir/utils.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 6a36792..9680445 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -339,6 +339,16 @@ pub fn remove_comments(code: &str) -> String {
                 result.push(c);
                 if let Some(next) = chars.next() {
                     result.push(next);
+                    // A gap runs through white space to the next backslash
+                    let is_gap = |c: char| matches!(c, ' ' | '\n' | '\t' | '\r' | '\x0c');
+                    if is_gap(next) {
+                        for c in chars.by_ref() {
+                            result.push(c);
+                            if !is_gap(c) {
+                                break;
+                            }
+                        }
+                    }
                 }
             }
             '/' if !in_string => {
-- 
2.43.0

