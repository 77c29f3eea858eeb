From 3b211f04363b7ed59c2ee5343471479266279b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:46 +0000
Subject: [PATCH 01/29] fix: terminate the LDG/STG size and texture type tables

---
 src/operand.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index ecc6dda..f560b20 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -686,7 +686,7 @@ namespace stg
     DEFINE_OPERAND(size)
     {
         static const char* table[] = {
-            "U8", "S8", "U16", "S16", "32", "64", "128",
+            "U8", "S8", "U16", "S16", "32", "64", "128", nullptr,
         };
         std::optional<uint64_t> size = find_in_table(token, table, ".");
         if (size) {
@@ -1207,7 +1207,7 @@ namespace ldg
 {
     DEFINE_OPERAND(size)
     {
-        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U"};
+        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U", nullptr};
         static const char* msg = "expected .U8, .S8, .U16, .S16, .32, .64, .128 or .U.128";
 
         const std::optional result = find_in_table(token, table, ".");
@@ -1496,7 +1496,7 @@ template <int address>
 DEFINE_OPERAND(tex_type)
 {
     static const char* types[]{
-        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE",
+        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE", nullptr,
     };
     const std::optional<uint64_t> result = find_in_table(token, types, "");
     if (!result) {
-- 
2.43.0


From f1814c2e58dfd52323096306a5d83f27c1fb9c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:46 +0000
Subject: [PATCH 02/29] fix: accept an immediate in .num_gprs

---
 src/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index 63805a6..7208d9f 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -42,7 +42,7 @@ void context::parse_option(token& token)
         parse_type();
     } else if (equal(token, ".num_gprs")) {
         token = tokenize();
-        if (token.type == token_type::immediate) {
+        if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
         num_gprs = static_cast<int>(token.data.immediate);
-- 
2.43.0


From 277421a54c14ce5d2a24f60ad4b73b9a4b7bfd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:46 +0000
Subject: [PATCH 03/29] fix: reject unknown options

---
 src/options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/options.cpp b/src/options.cpp
index 7208d9f..93c7d2d 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -68,6 +68,9 @@ void context::parse_option(token& token)
             fatal_error(token, "expected local memory size");
         }
         local_mem_size = static_cast<int>(token.data.immediate);
+    } else {
+        fatal_error(token, "unknown option \33[1m%.*s\33[0m",
+                    static_cast<int>(token.data.string.size()), token.data.string.data());
     }
     token = tokenize();
     if (option_line == token.line) {
-- 
2.43.0


From 7b845dba7704b13c412130909d1aa4bd34aad234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:46 +0000
Subject: [PATCH 04/29] fix: reject 2^20 as 20-bit unsigned immediate

---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index f560b20..640182e 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -89,7 +89,7 @@ inline error assemble_uint(context& ctx, opcode& op, token& token, int64_t max_s
 DEFINE_OPERAND(uimm_extended)
 {
     uint64_t value;
-    CHECK(convert_integer(token, 0, 1ULL << 20, &value));
+    CHECK(convert_integer(token, 0, max_bits(20), &value));
     if (value >= 0x80000) {
         value -= 0x80000;
         op.add_bits(1ULL << 56);
-- 
2.43.0


From 4758d3b115ffce9089043bec7b9024365dd4fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:46 +0000
Subject: [PATCH 05/29] fix: encode ICMP with a constant buffer as second
 source with its own opcode

---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index cb6eff2..3de7502 100644
--- a/src/table.h
+++ b/src/table.h
@@ -179,7 +179,7 @@ const insn table[]{
     INSN(0x38C0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma,          uimm_extended, post_neg<50>, comma, neg<49>, sgpr<39>),
     INSN(0x5B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<20>, comma, sgpr<39>),
     INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<39>, comma, cbuf),
-    INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
+    INSN(0x4B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
     INSN(0x3640000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, imm,      comma, sgpr<39>),
     INSN(0x5C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
-- 
2.43.0


From f898bc5de26cec42ad768a099b979d536fe77752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:46 +0000
Subject: [PATCH 06/29] fix: SUST.D.BA uses bit 23, bit 52 is part of .D

---
 src/table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 3de7502..de18855 100644
--- a/src/table.h
+++ b/src/table.h
@@ -254,8 +254,8 @@ const insn table[]{
     INSN(0x3890000000000000ULL, 0, "RRO", rro::mode, dgpr<0>, comma, fimm, post_neg<45>, post_abs<49>),
     INSN(0xEB20000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
     INSN(0xEB28000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
-    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
-    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
+    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
+    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
     INSN(0xEB08000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
-- 
2.43.0


From 129eb2eee7a8fcb741c3d9d7450c9afd97948402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:46 +0000
Subject: [PATCH 07/29] fix: do not add a whole extra page of padding to
 256-byte sized dksh code

---
 src/write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.cpp b/src/write.cpp
index aaeedb6..19612c3 100644
--- a/src/write.cpp
+++ b/src/write.cpp
@@ -22,7 +22,7 @@ std::vector<uint64_t> context::binary(std::span<const uint64_t> code) const
     }
     result.insert(result.end(), code.begin(), code.end());
     if (is_dksh) {
-        result.resize(result.size() + 32 - code.size() % 32);
+        result.resize(result.size() + (32 - code.size() % 32) % 32);
     }
     return result;
 }
-- 
2.43.0


From d7073b0f217674e5ad668a41ba366b423ef89798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:46 +0000
Subject: [PATCH 08/29] fix: do not consume the separator after a lone P or R

---
 src/context.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index dc82453..ae4fd60 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -183,7 +183,7 @@ token context::tokenize()
             token.data.regster = ZERO_REGISTER;
             return token;
         }
-        bool invalid_register = false;
+        bool invalid_register = is_separator(*text);
         while (!is_separator(*text)) {
             if (!is_decimal(*text)) {
                 invalid_register = true;
@@ -210,9 +210,12 @@ token context::tokenize()
             return token;
         }
     }
-    do {
+    if (text == contents) {
         next();
-    } while (!is_separator(*text));
+    }
+    while (!is_separator(*text)) {
+        next();
+    }
 
     if (text[-1] == ':') {
         // ignore labels
-- 
2.43.0


From 34cab3ff78bbbf173aa0a0eb154da2de1874e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:46 +0000
Subject: [PATCH 09/29] fix: do not read past the end of the text when it ends
 in a word

---
 src/context.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index ae4fd60..765dcac 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -272,9 +272,12 @@ void context::generate_labels()
         next();
     };
     const auto next_line = [this, advance] {
-        do {
+        while (*text) {
             advance();
-        } while (*text && column > 0);
+            if (column == 0) {
+                break;
+            }
+        }
     };
 
     assert(line == 0 && column == 0);
-- 
2.43.0


From 981a57c9d1eeb4e16df5738d25814af746faa723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:57 +0000
Subject: [PATCH 10/29] fix: diagnose integers that are not representable as a
 float immediate

---
 src/helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index ebb0110..1d96973 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -154,8 +154,8 @@ error assemble_float_immediate(context& ctx, token& token, opcode& op, int bits)
         break;
     case token_type::immediate:
         value = static_cast<float>(token.data.immediate);
-        if (static_cast<int64_t>(token.data.immediate) != value) {
-            return fail(token, "integer immediate " PRId64 "cannot be represented as float",
+        if (value >= 0x1p63f || static_cast<int64_t>(value) != token.data.immediate) {
+            return fail(token, "integer immediate %" PRId64 " cannot be represented as float",
                         token.data.immediate);
         }
         break;
-- 
2.43.0


From 9e6574266cfd9d5f2c1bb8a4b8f1661b8f93745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:57 +0000
Subject: [PATCH 11/29] fix: keep the sign of -0.0 in double and half
 immediates

---
 src/helper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 1d96973..2d52d4c 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -1,3 +1,4 @@
+#include <bit>
 #include <cinttypes>
 #include <cstdint>
 #include <cstdlib>
@@ -207,7 +208,7 @@ error assemble_double_immediate(context& ctx, token& token, opcode& op)
     switch (token.type) {
     case token_type::float_immediate:
         value = token.data.float_immediate;
-        if (value < 0) {
+        if (std::bit_cast<uint64_t>(value) >> 63) {
             op.add_bits(1ULL << 56);
         }
         break;
@@ -255,7 +256,7 @@ error assemble_half_float_immediate(context& ctx, token& token, opcode& op, int
     switch (token.type) {
     case token_type::float_immediate:
         value = fp32_to_fp16(token.data.float_immediate);
-        if (token.data.float_immediate < 0 && neg_bit >= 0) {
+        if (neg_bit >= 0 && std::bit_cast<uint64_t>(token.data.float_immediate) >> 63) {
             op.add_bits(1ULL << neg_bit);
         }
         break;
-- 
2.43.0


From 531898f1be89ee5c3ecb7bb02539796227f5781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:57 +0000
Subject: [PATCH 12/29] fix: do not take the destination sign for the source
 type in I2I selectors

---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index 640182e..03f0076 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1289,7 +1289,7 @@ namespace i2i
         static const char* bytes[] = {"B0", "B1", "B2", "B3", nullptr};
         static const char* shorts[] = {"H0", "INVALIDSIZE1", "H1", "INVALIDSIZE3", nullptr};
 
-        const uint64_t type = (op.value >> 10) & 0b111;
+        const uint64_t type = (op.value >> 10) & 0b11;
         const char* const* const table = type == 1 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
-- 
2.43.0


From c5d746ac6c78c6274f6de50d8d81e3b88d8663c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:57 +0000
Subject: [PATCH 13/29] fix: diagnose misaligned ATOMS offsets

---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 03f0076..499cb6d 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -429,6 +429,9 @@ namespace memory
 
                 uint64_t value;
                 CHECK(convert_integer(token, min, max, &value));
+                if (value & max_bits(shr)) {
+                    return fail(token, "offset has to be aligned to %d bytes", 1 << shr);
+                }
                 value >>= shr;
                 op.add_bits((value & max_bits(size)) << addr);
                 token = ctx.tokenize();
-- 
2.43.0


From 9c9bce13f506aa0732615ca065216da0988c1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:45 +0000
Subject: [PATCH 14/29] fix: diagnose negations that conflict with .PO or would
 encode it

---
 src/operand.h | 15 +++++++++++++++
 src/table.h   | 18 +++++++++---------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 499cb6d..9f76abf 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -389,6 +389,21 @@ DEFINE_OPERAND(po)
     return {};
 }
 
+// Negation sharing its bits with .PO, which is encoded as negating both operands
+template <int address1, int address2, bool is_post = false>
+DEFINE_OPERAND(po_neg)
+{
+    if (is_post ? !equal(token, ".NEG") : token.type != token_type::minus) {
+        return {};
+    }
+    if (op.value & ((1ULL << address1) | (1ULL << address2))) {
+        return fail(token, "negation can't be used with .PO or a negated operand");
+    }
+    op.add_bits(1ULL << address1);
+    token = ctx.tokenize();
+    return {};
+}
+
 template <int address>
 DEFINE_FLAG(sh, ".SH", address);
 
diff --git a/src/table.h b/src/table.h
index de18855..35cabc4 100644
--- a/src/table.h
+++ b/src/table.h
@@ -170,10 +170,10 @@ const insn table[]{
     INSN(0x5CF0000000000000ULL, 0, "R2P", p2r::mode<40>, comma, sgpr<8>, byte_selector<41>, comma, sgpr<20>),
     INSN(0x4CF0000000000000ULL, 0, "R2P", p2r::mode<40>, comma, sgpr<8>, byte_selector<41>, comma, cbuf),
     INSN(0x38F0000000000000ULL, 0, "R2P", p2r::mode<40>, comma, sgpr<8>, byte_selector<41>, comma, imm),
-    INSN(0x5C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, sgpr<20>),
-    INSN(0x4C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, cbuf),
-    INSN(0x3810000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, imm, post_neg<48>),
-    INSN(0x1C00000000000000ULL, 0, "IADD32I", po<55, 56>, sat<54>, x<53>, dgpr<0>, cc<52>, comma, neg<56>, sgpr<8>, comma, simm32),
+    INSN(0x5C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, po_neg<48, 49>, sgpr<20>),
+    INSN(0x4C10000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, po_neg<48, 49>, cbuf),
+    INSN(0x3810000000000000ULL, 0, "IADD", po<48, 49>, sat<50>, x<43>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, imm, po_neg<48, 49, true>),
+    INSN(0x1C00000000000000ULL, 0, "IADD32I", po<55, 56>, sat<54>, x<53>, dgpr<0>, cc<52>, comma, po_neg<56, 55>, sgpr<8>, comma, simm32),
     INSN(0x5CC0000000000000ULL, 0, "IADD3", iadd3::shift, x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>, iadd3::half<35>, comma, neg<50>, sgpr<20>, iadd3::half<33>,   comma, neg<49>, sgpr<39>, iadd3::half<31>),
     INSN(0x4CC0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma, neg<50>, cbuf,                        comma, neg<49>, sgpr<39>),
     INSN(0x38C0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma,          uimm_extended, post_neg<50>, comma, neg<49>, sgpr<39>),
@@ -184,9 +184,9 @@ const insn table[]{
     INSN(0x5C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
     INSN(0x3820000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, imm,      comma, pred<39, true>),
-    INSN(0x5C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, sgpr<20>, comma, uinteger<5, 39>),
-    INSN(0x4C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, cbuf,     comma, uinteger<5, 39>),
-    INSN(0x3818000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, neg<49>, sgpr<8>, comma, neg<48>, imm,      comma, uinteger<5, 39>),
+    INSN(0x5C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, po_neg<48, 49>, sgpr<20>, comma, uinteger<5, 39>),
+    INSN(0x4C18000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, po_neg<48, 49>, cbuf,     comma, uinteger<5, 39>),
+    INSN(0x3818000000000000ULL, 0, "ISCADD", po<48, 49>, dgpr<0>, cc, comma, po_neg<49, 48>, sgpr<8>, comma, po_neg<48, 49>, imm,      comma, uinteger<5, 39>),
     INSN(0x5B50000000000000ULL, 0, "ISET", bf<44>, integer_compare<49>, int_sign, x<43>, bop<45>, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4B50000000000000ULL, 0, "ISET", bf<44>, integer_compare<49>, int_sign, x<43>, bop<45>, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
     INSN(0x3650000000000000ULL, 0, "ISET", bf<44>, integer_compare<49>, int_sign, x<43>, bop<45>, dgpr<0>, cc, comma, sgpr<8>, comma, imm,      comma, pred<39, true>),
@@ -261,8 +261,8 @@ const insn table[]{
     INSN(0xEB00000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
     INSN(0xEB08000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, uinteger<13, 36>),
     INSN(0x50D8000000000000ULL, 0, "VOTE", vote::operation, dgpr<0>, comma, pred<45, false>, comma, pred<39, true>),
-    INSN(0x5F04000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::src_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, neg<54>, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, neg<53>, sgpr<39>),
-    INSN(0x5F00000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::imm_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, neg<54>, sgpr<8>, video::selector<36, 37>, comma, uinteger<16, 20>,                  comma, neg<53>, sgpr<39>),
+    INSN(0x5F04000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::src_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, po_neg<54, 53>, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, po_neg<53, 54>, sgpr<39>),
+    INSN(0x5F00000000000000ULL, 0, "VMAD", video::src_format<37, 48>, video::imm_format<29, 49>, po<53, 54>, vmad::scale, sat<55>, dgpr<0>, cc, comma, po_neg<54, 53>, sgpr<8>, video::selector<36, 37>, comma, uinteger<16, 20>,                  comma, po_neg<53, 54>, sgpr<39>),
     INSN(0x3A04000000000000ULL, 0, "VMNMX", video::dest_sign, video::src_format<37, 48>, video::src_format<29, 49>, video::mx<56>, sat<55>, video::vmnmx_op<51>, dgpr<0>, cc, comma, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, sgpr<39>),
     INSN(0x3A00000000000000ULL, 0, "VMNMX", video::dest_sign, video::src_format<37, 48>, video::imm_format<29, 49>, video::mx<56>, sat<55>, video::vmnmx_op<51>, dgpr<0>, cc, comma, sgpr<8>, video::selector<36, 37>, comma, uinteger<16, 20>,                  comma, sgpr<39>),
     INSN(0x50F4000000000000ULL, 0, "VSETP", vsetp::integer_compare<43>, video::src_format<37, 48>, video::src_format<29, 49>, bop<45>, pred<3>, comma, pred<0>, comma, sgpr<8>, video::selector<36, 37>, comma, sgpr<20>, video::selector<28, 29>, comma, pred<39, true>),
-- 
2.43.0


From 486e053819db8859586d61dbf1ea38df7d09956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:45 +0000
Subject: [PATCH 15/29] fix: avoid signed overflow on branch targets near
 INT64_MIN

---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index 9f76abf..bcf7f94 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -142,7 +142,7 @@ DEFINE_OPERAND(label)
 
     static constexpr int64_t max = max_bits(23);
     static constexpr int64_t min = -static_cast<int64_t>(max_bits(23)) - 1;
-    const int64_t value = absolute - ctx.pc - 8;
+    const int64_t value = static_cast<int64_t>(static_cast<uint64_t>(absolute) - ctx.pc - 8);
     if (value > max || value < min) {
         return fail(token, "label out of range");
     }
-- 
2.43.0


From 07081907c0f07e5c12e93caa25cfbde0e1ee89c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:45 +0000
Subject: [PATCH 16/29] fix: diagnose option values that do not fit their
 fields

---
 src/options.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/options.cpp b/src/options.cpp
index 93c7d2d..c208339 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -1,3 +1,6 @@
+#include <climits>
+#include <cstdint>
+
 #include "context.h"
 #include "error.h"
 #include "helper.h"
@@ -11,6 +14,13 @@ void context::parse_option(token& token)
             fatal_error(token, "unexpected new line in option");
         }
     };
+    const auto to_int = [&token](int64_t max) {
+        uint64_t value;
+        if (error message = convert_integer(token, 0, max, &value); message) {
+            message.raise();
+        }
+        return static_cast<int>(value);
+    };
     const auto parse_type = [this, &check_option_line, &token] {
         if (type) {
             fatal_error(token, "program type already specified");
@@ -45,7 +55,7 @@ void context::parse_option(token& token)
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
-        num_gprs = static_cast<int>(token.data.immediate);
+        num_gprs = to_int(INT_MAX);
         check_option_line();
     } else if (equal(token, ".workgroup_size")) {
         for (int i = 0; i < 3; ++i) {
@@ -53,7 +63,7 @@ void context::parse_option(token& token)
             if (token.type != token_type::immediate) {
                 fatal_error(token, "expected workgroup sizes");
             }
-            block_dimensions[i] = static_cast<int>(token.data.immediate);
+            block_dimensions[i] = to_int(INT_MAX);
         }
         check_option_line();
     } else if (equal(token, ".shared_memory")) {
@@ -61,13 +71,13 @@ void context::parse_option(token& token)
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected shared memory size");
         }
-        shared_mem_size = static_cast<int>(token.data.immediate);
+        shared_mem_size = to_int(INT_MAX);
     } else if (equal(token, ".local_memory")) {
         token = tokenize();
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected local memory size");
         }
-        local_mem_size = static_cast<int>(token.data.immediate);
+        local_mem_size = to_int(0xFFFFFF); // 24 bits in hardware
     } else {
         fatal_error(token, "unknown option \33[1m%.*s\33[0m",
                     static_cast<int>(token.data.string.size()), token.data.string.data());
-- 
2.43.0


From 71bfb055f3cb107e764d6cca9c231cabce890dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:45 +0000
Subject: [PATCH 17/29] fix: diagnose integer literals that do not fit 64 bits

---
 src/context.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index 765dcac..9872f44 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
@@ -161,7 +162,12 @@ token context::tokenize()
             token.data.float_immediate = std::strtof(contents, &conversion_end);
         } else {
             token.type = token_type::immediate;
+            errno = 0;
             token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &conversion_end, 0));
+            if (errno == ERANGE) {
+                fatal_error(token, "integer literal \33[1;31m%.*s\33[0m is out of range",
+                            (int)(text - contents), contents);
+            }
         }
         if (conversion_end != text) {
             fatal_error(token, "failed to parse literal \33[1;31m%.*s\33[0m",
-- 
2.43.0


From 560cf00c4df5dd418fbf6df6c2a9699f945e2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:45 +0000
Subject: [PATCH 18/29] fix: do not accept a lone dot as modifier

---
 src/helper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helper.cpp b/src/helper.cpp
index 2d52d4c..a646e64 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -79,6 +79,10 @@ std::optional<uint64_t> find_in_table(const token& token, const char* const* tab
         }
         text = text.substr(std::size(prefix));
     }
+    if (text.empty()) {
+        // empty entries are holes in the table
+        return {};
+    }
 
     for (size_t i = 0; table[i]; ++i) {
         if (text.compare(table[i]) != 0) {
-- 
2.43.0


From 39efd78d0272e1be393623e5bcc944c254adabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:45 +0000
Subject: [PATCH 19/29] fix: reject @!PT on instructions without predicated
 execution

---
 src/parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 72567ed..932b1f1 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -105,10 +105,11 @@ static error assemble_sched(context& ctx, token& token, opcode& op)
 
 static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& insn)
 {
+    const bool is_predicated = (op.value & (15ULL << 16)) != (7ULL << 16);
     op.add_bits(insn.opcode);
 
     token token = ctx.tokenize();
-    if ((insn.flags & NO_PRED) && (~op.value & (7ULL << 16))) {
+    if ((insn.flags & NO_PRED) && is_predicated) {
         return {fail(token, "%s does not support predicated execution", insn.mnemonic), 0};
     }
     int score = 1;
-- 
2.43.0


From d23d95cca1202045baac390e0dabca92ed1ff3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:45 +0000
Subject: [PATCH 20/29] fix: reject TLDS.LL on texture types without it

---
 src/operand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index bcf7f94..839d321 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1640,6 +1640,9 @@ DEFINE_OPERAND(tlds_type)
         if (ms) {
             return fail(token, "MS can't be used in 3D");
         }
+        if (ll) {
+            return fail(token, "LL can't be used in 3D");
+        }
         mode = 7;
         break;
     case 3: // ARRAY_2D
@@ -1649,6 +1652,9 @@ DEFINE_OPERAND(tlds_type)
         if (ms) {
             return fail(token, "MS can't be used in ARRAY_2D");
         }
+        if (ll) {
+            return fail(token, "LL can't be used in ARRAY_2D");
+        }
         mode = 8;
         break;
     }
-- 
2.43.0


From f151b9e38f6b5de65e4b54ba2cc81f099dcb56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:45 +0000
Subject: [PATCH 21/29] fix: do not accept byte selectors on 32-bit video
 sources

---
 src/operand.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index 839d321..e29abcc 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1456,7 +1456,11 @@ namespace video
         static const char* bytes[] = {"B0", "B1", "B2", "B3", nullptr};
         static const char* shorts[] = {"H0", "H1", nullptr};
 
-        const uint64_t type = (op.value >> type_address) & 0b111;
+        const uint64_t type = (op.value >> type_address) & 0b11;
+        if (type == 3) {
+            // 32 bits sources have nothing to select
+            return {};
+        }
         const char* const* const table = type == 2 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
-- 
2.43.0


From 0095f42e7a4d4bbaec4b787d6ae03765e6e84ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:45 +0000
Subject: [PATCH 22/29] fix: print 64-bit integers in out of range diagnostics

---
 src/helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index a646e64..6384718 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -56,7 +56,7 @@ error convert_integer(const token& token, int64_t min, int64_t max, uint64_t* re
     int64_t value = token.data.immediate;
     if (value < min || value > max) {
         return fail(token,
-                    "integer \33[1m%d\33[0m is out of range, expected to be "
+                    "integer \33[1m%" PRId64 "\33[0m is out of range, expected to be "
                     "from %" PRId64 " to %" PRId64 " inclusively",
                     value, min, max);
     }
-- 
2.43.0


From 8fd42b02a211e6fa9ed4337f8ed7350bb566efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:06 +0000
Subject: [PATCH 23/29] fix: diagnose input files that cannot be opened or read

---
 src/command_line.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 7444c78..243d74f 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -11,13 +11,17 @@ static std::string read_file(const char* filename)
 {
     std::ifstream file(filename, std::ios::binary);
     if (!file.is_open()) {
-        fatal_error(nullptr, "%s: failed to open", filename);
+        fatal_error("%s: failed to open", filename);
+    }
+    std::string text;
+    char buffer[4096];
+    do {
+        file.read(buffer, sizeof(buffer));
+        text.append(buffer, static_cast<size_t>(file.gcount()));
+    } while (file);
+    if (file.bad()) {
+        fatal_error("%s: failed to read", filename);
     }
-    file.seekg(0, std::ios::end);
-    std::string text(file.tellg(), ' ');
-
-    file.seekg(0, std::ios::beg);
-    file.read(std::data(text), std::size(text));
     return text;
 }
 
-- 
2.43.0


From 5efc32d5ce2135d7a826fa41b9557c7fa61bef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:06 +0000
Subject: [PATCH 24/29] fix: diagnose failures to write the output file

---
 src/command_line.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 243d74f..88f7e9f 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -62,6 +62,10 @@ int main(int argc, char** argv)
             fatal_error("%s: failed to open", output_file);
         }
         outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));
+        outfp.close();
+        if (!outfp) {
+            fatal_error("%s: failed to write", output_file);
+        }
     } catch (const std::ios_base::failure& e) {
         fatal_error("failed to write output file: %s", e.what());
     }
-- 
2.43.0


From eaa5689721e9b56fc6f53a3bbc1a24d613c4c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:06 +0000
Subject: [PATCH 25/29] fix: diagnose null characters instead of ignoring what
 follows them

---
 src/command_line.cpp | 2 +-
 src/nxas.cpp         | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 88f7e9f..6c009ac 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -55,7 +55,7 @@ int main(int argc, char** argv)
         fatal_error("no output file");
     }
     const std::string input_text = read_file(input_file);
-    const std::vector<uint64_t> binary = nxas::assemble(input_text.c_str(), input_file);
+    const std::vector<uint64_t> binary = nxas::assemble(input_text, input_file);
     try {
         std::ofstream outfp(output_file, std::ios::binary);
         if (!outfp.is_open()) {
diff --git a/src/nxas.cpp b/src/nxas.cpp
index 6d19636..64a691b 100644
--- a/src/nxas.cpp
+++ b/src/nxas.cpp
@@ -24,6 +24,10 @@ static uint64_t generate_sched(std::span<const opcode> opcodes, size_t index,
 
 std::vector<uint64_t> assemble(const std::string& code, const char* filename)
 {
+    // The text is read as a null terminated string, the rest of it would be silently ignored
+    if (code.find('\0') != std::string::npos) {
+        fatal_error("%s: unexpected null character", filename);
+    }
     // Prepare our context
     context ctx(filename, code.c_str());
 
-- 
2.43.0


From 0b2d519334bd58431daba6c62ed4336e83a92926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:57 +0000
Subject: [PATCH 26/29] fix: reject memory size options whose value is on
 another line

.shared_memory and .local_memory accepted their value on a following line, unlike the other
options.
---
 src/options.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/options.cpp b/src/options.cpp
index c208339..4a682e2 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -72,12 +72,14 @@ void context::parse_option(token& token)
             fatal_error(token, "expected shared memory size");
         }
         shared_mem_size = to_int(INT_MAX);
+        check_option_line();
     } else if (equal(token, ".local_memory")) {
         token = tokenize();
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected local memory size");
         }
         local_mem_size = to_int(0xFFFFFF); // 24 bits in hardware
+        check_option_line();
     } else {
         fatal_error(token, "unknown option \33[1m%.*s\33[0m",
                     static_cast<int>(token.data.string.size()), token.data.string.data());
-- 
2.43.0


From e3d72999439acf226c3f0023d9dae9ae9b18fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:57 +0000
Subject: [PATCH 27/29] fix: pass string precisions to printf as int

The precision of %.*s is an int, passing a size_t is undefined.
---
 src/operand.h | 6 ++++--
 src/parse.cpp | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index e29abcc..67dd75b 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -59,7 +59,8 @@ inline error assemble_cc_tests(context& ctx, opcode& op, token& token, const cha
 
         test_index = find_in_table(token, tests, ".");
         if (!test_index) {
-            return fail(token, "unexpected test %.*s", std::size(token.data.string),
+            return fail(token, "unexpected test %.*s",
+                        static_cast<int>(std::size(token.data.string)),
                         std::data(token.data.string));
         }
         token = ctx.tokenize();
@@ -127,7 +128,8 @@ DEFINE_OPERAND(label)
     case token_type::identifier: {
         const std::optional label = ctx.find_label(token.data.string);
         if (!label) {
-            return fail(token, "label \33[1m%.*s\33[0m not defined", std::size(token.data.string),
+            return fail(token, "label \33[1m%.*s\33[0m not defined",
+                        static_cast<int>(std::size(token.data.string)),
                         std::data(token.data.string));
         }
         absolute = *label;
diff --git a/src/parse.cpp b/src/parse.cpp
index 932b1f1..c030d1c 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -180,7 +180,7 @@ bool parse_instruction(context& ctx, opcode& op)
     if (error_message) {
         error_message.raise();
     } else {
-        fatal_error(token, "unknown mnemonic \33[1m%.*s\33[0m", std::size(token.data.string),
-                    std::data(token.data.string));
+        fatal_error(token, "unknown mnemonic \33[1m%.*s\33[0m",
+                    static_cast<int>(std::size(token.data.string)), std::data(token.data.string));
     }
 }
-- 
2.43.0


From aa45c3cb62521cb9bea47dab443fde3251fe26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:57 +0000
Subject: [PATCH 28/29] fix: do not read the text of a program type that is not
 an identifier

The string of a token that is not an identifier is not the active member of its union, printing it
read through an arbitrary pointer (.type 5).
---
 src/options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index 4a682e2..747a2b3 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -1,5 +1,6 @@
 #include <climits>
 #include <cstdint>
+#include <string_view>
 
 #include "context.h"
 #include "error.h"
@@ -41,8 +42,9 @@ void context::parse_option(token& token)
         } else if (equal(token, "compute")) {
             type = program_type::compute;
         } else {
+            const std::string_view type_name = info(token);
             fatal_error(token, "invalid program type \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(type_name.size()), type_name.data());
         }
     };
     if (equal(token, ".dksh")) {
-- 
2.43.0


From b84d4a89cd95b6120d9b9797eabf3d36aa2b0f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:57 +0000
Subject: [PATCH 29/29] fix: do not recurse once for every label in a row

A long run of labels overflowed the stack.
---
 src/context.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 9872f44..25fd010 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -80,6 +80,7 @@ context::~context() = default;
 
 token context::tokenize()
 {
+skip_label:
     while (is_contained(" \t\r\n", *text)) {
         next();
     }
@@ -224,8 +225,8 @@ token context::tokenize()
     }
 
     if (text[-1] == ':') {
-        // ignore labels
-        return tokenize();
+        // ignore labels, any number of them
+        goto skip_label;
     }
     token.type = token_type::identifier;
     token.data.string = std::string_view(contents, static_cast<size_t>(text - contents));
-- 
2.43.0

