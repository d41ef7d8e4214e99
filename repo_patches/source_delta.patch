From 4e551e480021e62ac7829f3a77040edfac0122a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 01/44] fix: ExHiROM mapping derives cartridge bit 22 from the
 inverted address bit 23

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 4cf8731..7891440 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -26,7 +26,7 @@ ErrorOr<size_t> SnesToROMAddress(nsasm::Address snes_address, Mapping mapping) {
   } else if (mapping == kExHiRom) {
     int result = bank_address | ((bank & 0x3f) << 16);
     // address bit 23 is inverted and used as bit 22 of the CART address
-    if ((result & 0x800000) == 0) {
+    if ((bank & 0x80) == 0) {
       result |= 0x400000;
     }
     return result;
-- 
2.43.0


From c74bf0be1e96e48eaa12787a03d6867df0f98a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 02/44] fix: ROM reads longer than a bank return every
 requested byte

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 7891440..a7fd8db 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -47,7 +47,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
       SnesToROMAddress(address.AddWrapped(length - 1), mapping_mode_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(first_address, path_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(last_address, path_);
-  if (*last_address > *first_address) {
+  if (*last_address > *first_address && length <= 0x10000) {
     // Normal read -- does not wrap around a bank.  This is by far the common
     // case.
     if (*last_address >= data_.size()) {
-- 
2.43.0


From 555996215ae017d6f2755330307dc786797fcb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 03/44] fix: RomOverwriter copies the image from the ROM it
 owns, not from the moved-from argument

---
 nsasm/rom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.h b/nsasm/rom.h
index 9245a70..b0ac4a4 100644
--- a/nsasm/rom.h
+++ b/nsasm/rom.h
@@ -75,7 +75,7 @@ class RomIdentityTest : public OutputSink {
 class RomOverwriter : public OutputSink {
  public:
   RomOverwriter(std::unique_ptr<Rom> rom)
-      : rom_(std::move(rom)), data_(rom->data_) {}
+      : rom_(std::move(rom)), data_(rom_->data_) {}
 
   ErrorOr<void> Write(nsasm::Address address,
                       absl::Span<const std::uint8_t> data) override;
-- 
2.43.0


From 02ee987c24ccce3427e59d77e103efbcd340e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 04/44] fix: RomOverwriter rejects a write just past the end of
 the image

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index a7fd8db..78f1b90 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -175,7 +175,7 @@ ErrorOr<void> RomOverwriter::Write(Address address,
     auto rom_index =
         SnesToROMAddress(address.AddWrapped(i), rom_->mapping_mode_);
     NSASM_RETURN_IF_ERROR(rom_index);
-    if (*rom_index > data_.size()) {
+    if (*rom_index >= data_.size()) {
       return Error("Attempt to write at %s, past end of file",
                    address.AddWrapped(i).ToString());
     }
-- 
2.43.0


From 730b3fafcad97c33e6589468534b6012655df41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 05/44] fix: close the ROM file when its copier header cannot
 be read

---
 nsasm/rom.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 78f1b90..e786a88 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -117,6 +117,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
     header.resize(0x200);
     int bytes_read = fread(&header[0], 1, 0x200, f);
     if (bytes_read != 0x200) {
+      fclose(f);
       return Error("Failed to read file").SetLocation(path);
     }
     file_size -= 0x200;
-- 
2.43.0


From 3e61b49c617e674c3a232277a74dada2e8f1ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 06/44] fix: do not form a reference into an empty buffer when
 loading a header-only ROM file

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index e786a88..d850f3c 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -124,7 +124,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
   }
   std::vector<uint8_t> data;
   data.resize(file_size);
-  int bytes_read = fread(&data[0], 1, file_size, f);
+  int bytes_read = fread(data.data(), 1, file_size, f);
   fclose(f);
   if (bytes_read != file_size || file_size < 0x10000) {
     return Error("Failed to read file e").SetLocation(path);
-- 
2.43.0


From e6f9c416c0861af438af9f3dac433204704e915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 07/44] fix: close the output file when saving a ROM fails

---
 nsasm/rom.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index d850f3c..ca8fdd5 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -194,11 +194,13 @@ ErrorOr<void> RomOverwriter::CreateFile(const std::string& path) const {
   if (!rom_->header_.empty()) {
     size_t written = fwrite(&rom_->header_[0], 1, 0x200, f);
     if (written != 0x200) {
+      fclose(f);
       return Error("Failed to write header").SetLocation(path);
     }
   }
   size_t written = fwrite(&data_[0], 1, data_.size(), f);
   if (written != data_.size()) {
+    fclose(f);
     return Error("Failed to write payload").SetLocation(path);
   }
   if (fclose(f) != 0) {
-- 
2.43.0


From 8c29a61a43a4579ec59854b5aed84fad1170e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 08/44] fix: the .REMOTE directive has a name

---
 nsasm/mnemonic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/mnemonic.cc b/nsasm/mnemonic.cc
index 6a066ef..a78e74f 100644
--- a/nsasm/mnemonic.cc
+++ b/nsasm/mnemonic.cc
@@ -44,7 +44,7 @@ std::string_view ToString(Suffix m) {
 }
 
 std::string_view ToString(DirectiveName d) {
-  if (d < D_begin || d > D_org) {
+  if (d < D_begin || d > D_remote) {
     return "";
   }
   return directive_names[d];
-- 
2.43.0


From 49ae22c2d2617ef79f97e7d68f4364895b27613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 09/44] fix: report a read past the end of a ROM at its SNES
 address, not at a line number

---
 nsasm/rom.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index ca8fdd5..8eee957 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -51,8 +51,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
     // Normal read -- does not wrap around a bank.  This is by far the common
     // case.
     if (*last_address >= data_.size()) {
-      return Error("Address past end of ROM")
-          .SetLocation(path_, *first_address);
+      return Error("Address past end of ROM").SetLocation(path_, address);
     }
     return std::vector<uint8_t>(data_.begin() + *first_address,
                                 data_.begin() + *last_address + 1);
-- 
2.43.0


From f14adf63d354e00b7a17c214942dc0feaa5efbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 10/44] fix: pull 16-bit registers from the modelled stack in
 the byte order they are pushed

---
 nsasm/execution_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index bc7fc73..b8fc21b 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -459,7 +459,7 @@ class Stack {
         return RegisterValue(RegisterValue::T_original);
       } else if (lo_byte.type() == StackValue::T_byte &&
                  hi_byte.type() == StackValue::T_byte) {
-        return RegisterValue((lo_byte.value() << 8) + hi_byte.value());
+        return RegisterValue((hi_byte.value() << 8) + lo_byte.value());
       } else {
         return RegisterValue();
       }
-- 
2.43.0


From 61bb77a5bb7fc1303aa809ff90e30d4b4ebfe338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 11/44] fix: pulling a variable-sized value from an empty
 modelled stack abandons it

---
 nsasm/execution_state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index b8fc21b..768b92b 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -391,7 +391,8 @@ class Stack {
   // Pull a variable-sized object from the stack.  If that's not what's on top
   // of the stack, this fails.
   StackValue PullVarsize() {
-    if (abandoned_) {
+    if (abandoned_ || stack_.empty()) {
+      Abandon();
       return StackValue();
     }
     StackValue result = stack_.back();
-- 
2.43.0


From 12ede80fa497131326f23cc96688f3bc21049605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 12/44] fix: pulling a variable-sized register no longer
 asserts that its stack entry is a byte

---
 nsasm/execution_state.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 768b92b..ea7d660 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -301,6 +301,11 @@ struct StackValue {
   bool IsVarSize() const {
     return type_ == T_a_varsize || type_ == T_x_varsize || type_ == T_y_varsize;
   }
+  // Whether a variable sized entry holds its register's original value.
+  bool HoldsOriginalValue() const {
+    assert(IsVarSize());
+    return value_ == 1;
+  }
 
   bool operator==(const StackValue& rhs) const {
     if (type_ != rhs.type_) {
@@ -431,8 +436,7 @@ class Stack {
     } else if (bit == B_original) {
       StackValue result = PullVarsize();
       if (result.type() == var_byte_type) {
-        if (result.value() == 1) {
-          // holds original value
+        if (result.HoldsOriginalValue()) {
           return RegisterValue(RegisterValue::T_original);
         } else {
           // holds dynamic sized data of unknown value; don't abandon
-- 
2.43.0


From 292fc416c88bd22802949bbc1521100ea4c881f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 13/44] fix: exchanging carry and emulation bits does not carry
 B_original across

---
 nsasm/execution_state.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index ea7d660..9c5f3e4 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -97,9 +97,12 @@ class StatusFlags {
     // "I'd use std::swap here, but c_bit_ and e_bit_ are bitfield members,
     // and thus can't be passed to functions by reference."
     // "Sir, this is an Arby's."
+    //
+    // A bit which held its own original value doesn't hold the other bit's
+    // original value, so B_original is not carried across.
     uint8_t old_c_bit = c_bit_;
-    c_bit_ = e_bit_;
-    e_bit_ = old_c_bit;
+    c_bit_ = (e_bit_ == B_original) ? B_unknown : e_bit_;
+    e_bit_ = (old_c_bit == B_original) ? B_unknown : old_c_bit;
     m_bit_ = ConstrainedForEBit(MBit(), EBit());
     x_bit_ = ConstrainedForEBit(XBit(), EBit());
   }
-- 
2.43.0


From 0d22d351f6abb64141854f333af8d82f8e15e49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 14/44] fix: quick_dump reports the error of the failed read

---
 util/quick_dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 097ef5f..305fe49 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
         break;
     }
     if (!value.ok()) {
-      absl::PrintF("%s\n", rom.error().ToString());
+      absl::PrintF("%s\n", value.error().ToString());
       return 1;
     }
     switch (stride) {
-- 
2.43.0


From 36af5aba51156c35d7054f7cf4160776dc88dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 15/44] fix: quick_dump rejects empty arguments and addresses
 outside the address space

---
 util/quick_dump.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 305fe49..469f822 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -28,19 +28,19 @@ int main(int argc, char** argv) {
   int count;
   int stride = 1;
   int per_line = 8;
-  if (!sscanf(argv[2], "%x", &start)) {
+  if (sscanf(argv[2], "%x", &start) != 1 || start > 0xffffffu) {
     usage(argv[0]);
     return 1;
   }
-  if (!sscanf(argv[3], "%d", &count)) {
+  if (sscanf(argv[3], "%d", &count) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 4 && !sscanf(argv[4], "%d", &stride)) {
+  if (argc > 4 && sscanf(argv[4], "%d", &stride) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 5 && !sscanf(argv[5], "%d", &per_line)) {
+  if (argc > 5 && sscanf(argv[5], "%d", &per_line) != 1) {
     usage(argv[0]);
     return 1;
   }
-- 
2.43.0


From 628d539005e6d119272e92d441960f5017376c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 16/44] fix: report overflow instead of trapping when dividing
 by minus one

---
 nsasm/expression.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nsasm/expression.h b/nsasm/expression.h
index 1f9bddb..24bf47c 100644
--- a/nsasm/expression.h
+++ b/nsasm/expression.h
@@ -1,6 +1,7 @@
 #ifndef NSASM_EXPRESSION_H_
 #define NSASM_EXPRESSION_H_
 
+#include <limits>
 #include <set>
 
 #include "absl/memory/memory.h"
@@ -40,6 +41,9 @@ inline BinaryOp MakeDivideOp() {
     if (b == 0) {
       return Error("division by zero");
     }
+    if (b == -1 && a == std::numeric_limits<int>::min()) {
+      return Error("overflow in division");
+    }
     return a / b;
   };
   return BinaryOp(op, '/');
-- 
2.43.0


From ad107c7cc3e1cd4060be5e0268c0b3ae3738f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 17/44] fix: loads from memory and transfers do not keep the
 old register value

---
 nsasm/instruction.cc | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 6ac13fb..aeaf428 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -280,9 +280,35 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
       if (!arg.has_value()) {
         *reg = RegisterValue();
       } else {
-        *reg = *arg;
+        bool narrow = (m == M_lda) ? (es->Flags().MBit() == B_on)
+                                   : (es->Flags().XBit() == B_on);
+        *reg = *arg & (narrow ? 0xff : 0xffff);
       }
+      return {};
     }
+    // Loading from memory; the value is not known here.
+    if (m == M_lda) {
+      es->WipeAccumulator();
+    } else if (m == M_ldx) {
+      es->XRegister() = RegisterValue();
+    } else {
+      es->YRegister() = RegisterValue();
+    }
+    return {};
+  }
+
+  // Transfers between registers.  We don't track the widths involved, so the
+  // destination is simply not known afterwards.
+  if (m == M_txa || m == M_tya || m == M_tsc || m == M_tdc || m == M_xba) {
+    es->WipeAccumulator();
+    return {};
+  }
+  if (m == M_tax || m == M_tsx || m == M_tyx) {
+    es->XRegister() = RegisterValue();
+    return {};
+  }
+  if (m == M_tay || m == M_txy) {
+    es->YRegister() = RegisterValue();
     return {};
   }
 
-- 
2.43.0


From 21b984241b9dd2a592b0757eb2fb06e2baf3418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 18/44] fix: incrementing a register of unknown width makes its
 value unknown

---
 nsasm/instruction.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index aeaf428..96f21e7 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -248,20 +248,25 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
       return {};
     }
     RegisterValue* reg;
-    int mask = 0xffff;
+    BitState narrow = es->Flags().XBit();
     if (m == M_inc || m == M_dec) {
       reg = &es->Accumulator();
-      if (es->Flags().MBit() == B_on) mask = 0xff;
+      narrow = es->Flags().MBit();
     } else if (m == M_inx || m == M_dex) {
       reg = &es->XRegister();
-      if (es->Flags().XBit() == B_on) mask = 0xff;
     } else {
       assert(m == M_iny || m == M_dey);
       reg = &es->YRegister();
-      if (es->Flags().XBit() == B_on) mask = 0xff;
     }
     int offset = (m == M_dec || m == M_dex || m == M_dey) ? -1 : 1;
-    reg->Add(offset, mask);
+    if (narrow == B_on) {
+      reg->Add(offset, 0xff);
+    } else if (narrow == B_off) {
+      reg->Add(offset, 0xffff);
+    } else {
+      // Where the result wraps is not known.
+      *reg = RegisterValue();
+    }
     return {};
   }
 
-- 
2.43.0


From f1ce8e722e39ddd1de43fb5674c1578e387e8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 19/44] fix: block moves take their byte count from the
 accumulator, not from the source bank

---
 nsasm/instruction.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 96f21e7..423d040 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -318,15 +318,14 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
   }
 
   if (m == M_mvn || m == M_mvp) {
-    auto initial_a = maybe_arg1();
-    if (es->Flags().MBit() == B_on) {
-      es->Accumulator() = 0xff;
-    } else if (es->Flags().MBit() == B_off) {
-      es->Accumulator() = 0xffff;
-    } else {
-      es->WipeAccumulator();
-    }
-    if (!initial_a.has_value()) {
+    // The full 16 bits of the accumulator count the bytes to move, whatever
+    // the `m` flag; we only know them if the flag is off.
+    RegisterValue initial_a = es->Accumulator();
+    bool count_known =
+        initial_a.HasValue() && es->Flags().MBit() == B_off &&
+        (es->Flags().XBit() == B_on || es->Flags().XBit() == B_off);
+    es->Accumulator() = 0xffff;
+    if (!count_known) {
       es->XRegister() = RegisterValue();
       es->YRegister() = RegisterValue();
     } else {
-- 
2.43.0


From f56cbdbee21f013f98024616966aee99f19692b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 20/44] fix: pushes and pulls of the bank and direct page
 registers move the modelled stack

---
 nsasm/execution_state.h | 11 +++++++++++
 nsasm/instruction.cc    | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 9c5f3e4..d160740 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -518,6 +518,17 @@ class Stack {
                    StackValue::T_y_varsize);
   }
 
+  RegisterValue PullDBR() {
+    StackValue byte = PullByte();
+    if (byte.type() == StackValue::T_dbr) {
+      return RegisterValue(RegisterValue::T_original);
+    } else if (byte.type() == StackValue::T_byte) {
+      return RegisterValue(byte.value());
+    } else {
+      return RegisterValue();
+    }
+  }
+
   Stack& operator|=(const Stack& rhs) {
     if (abandoned_ || rhs.abandoned_ || stack_.size() != rhs.stack_.size()) {
       Abandon();
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 423d040..a73aa35 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -371,6 +371,38 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  if (m == M_phb) {
+    es->GetStack().PushDBR(es->DataBankRegister());
+    return {};
+  }
+
+  if (m == M_phk) {
+    es->GetStack().PushUnknownByte();
+    return {};
+  }
+
+  if (m == M_phd) {
+    es->GetStack().PushUnknownWord();
+    return {};
+  }
+
+  if (m == M_plb) {
+    es->DataBankRegister() = es->GetStack().PullDBR();
+    return {};
+  }
+
+  if (m == M_pld) {
+    es->GetStack().PullByte();
+    es->GetStack().PullByte();
+    return {};
+  }
+
+  // Instructions that move the stack pointer elsewhere.
+  if (m == M_txs || m == M_tcs) {
+    es->GetStack().Abandon();
+    return {};
+  }
+
   if (m == M_pla) {
     es->PullAccumulator();
     return {};
-- 
2.43.0


From 935a43130facf43244a2d82dbee7472258ed80e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 21/44] fix: register values are not kept across subroutine
 calls

---
 nsasm/instruction.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index a73aa35..a46bb3a 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -444,6 +444,10 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
       es->Flags() = *yield_flags;
     }
     es->Flags().SetCBit(B_unknown);
+    // The callee is free to use the registers.
+    es->WipeAccumulator();
+    es->XRegister() = RegisterValue();
+    es->YRegister() = RegisterValue();
     return {};
   }
 
-- 
2.43.0


From 4284ea43f6152c13fb26d5addf2099fb7a9ac408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 22/44] fix: changing register widths does not leave stale
 register values

---
 nsasm/execution_state.h | 23 +++++++++++++++++++++++
 nsasm/instruction.cc    |  5 +++++
 2 files changed, 28 insertions(+)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index d160740..b4969f7 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -599,6 +599,29 @@ class ExecutionState {
     }
   }
 
+  // Drops register values that a change of the register widths invalidates,
+  // where `old_m` is the M bit before the change.  Widening the accumulator
+  // brings its hidden byte, which we don't know, into view; narrowing the index
+  // registers clears their high bytes.
+  void ResizeRegisters(BitState old_m) {
+    BitState m = flags_.MBit();
+    bool may_widen =
+        old_m != B_off && m != B_on && (m != old_m || m == B_unknown);
+    if (may_widen && a_reg_.HasValue()) {
+      WipeAccumulator();
+    }
+    for (RegisterValue* reg : {&x_reg_, &y_reg_}) {
+      if (!reg->HasValue()) {
+        continue;
+      }
+      if (flags_.XBit() == B_on) {
+        reg->Add(0, 0xff);
+      } else if (flags_.XBit() != B_off && **reg > 0xff) {
+        *reg = RegisterValue();
+      }
+    }
+  }
+
   void WipeAccumulator() { a_reg_ = RegisterValue(); }
   void WipeCarry() { flags_.SetCBit(B_unknown); }
 
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index a46bb3a..e553a44 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -164,6 +164,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
   };
 
   const Mnemonic& m = mnemonic;
+  const BitState old_m = es->Flags().MBit();
 
   // Instructions that clear or set carry bit (used to prime the XCE
   // instruction, which swaps the carry bit and emulation bit.)
@@ -199,6 +200,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
       if (es->Flags().MBit() != target) {
         es->Flags().SetMBit(B_unknown);
       }
+      es->ResizeRegisters(old_m);
       return {};
     }
 
@@ -212,6 +214,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     if (*arg & 0x20) {
       es->Flags().SetMBit(target);
     }
+    es->ResizeRegisters(old_m);
     return {};
   }
 
@@ -424,6 +427,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   } else if (m == M_plp) {
     es->PullFlags();
+    es->ResizeRegisters(old_m);
     return {};
   }
 
@@ -431,6 +435,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
   // m and x bits as a side effect.
   if (m == M_xce) {
     es->Flags().ExchangeCE();
+    es->ResizeRegisters(old_m);
     return {};
   }
 
-- 
2.43.0


From 89a6c1428197338934a387c9a053519766d39dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 23/44] fix: branch targets outside the address space do not
 abort

---
 nsasm/instruction.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index e553a44..5b008b7 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -552,6 +552,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel8) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (*val1 < 0 || *val1 > 0xffffff) {
+      return Error("Branch target is not an address");
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(2);
     auto offset = target.SubtractWrapped(branch_base);
@@ -566,6 +569,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel16) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (*val1 < 0 || *val1 > 0xffffff) {
+      return Error("Branch target is not an address");
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(3);
     auto offset = target.SubtractWrapped(branch_base);
@@ -583,7 +589,7 @@ absl::optional<nsasm::Address> Instruction::FarBranchTarget(
   if (addressing_mode == A_dir_l && (mnemonic == M_jmp || mnemonic == M_jsl)) {
     auto target = arg1.Evaluate(NullLookupContext());
     if (target.ok()) {
-      return nsasm::Address(*target);
+      return nsasm::Address(*target & 0xffffff);
     }
     return absl::nullopt;
   }
@@ -591,7 +597,7 @@ absl::optional<nsasm::Address> Instruction::FarBranchTarget(
   if (addressing_mode == A_dir_w && (mnemonic == M_jmp || mnemonic == M_jsr)) {
     auto target = arg1.Evaluate(NullLookupContext());
     if (target.ok()) {
-      return nsasm::Address(source_address.Bank(), *target);
+      return nsasm::Address(source_address.Bank(), *target & 0xffff);
     }
     return absl::nullopt;
   }
-- 
2.43.0


From 6d0394cb1204ab6a6d66685b0e36125b8bef4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 24/44] fix: .REMOTE directives print their return convention

---
 nsasm/directive.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/directive.cc b/nsasm/directive.cc
index 3a85fdc..7774475 100644
--- a/nsasm/directive.cc
+++ b/nsasm/directive.cc
@@ -48,7 +48,8 @@ std::string Directive::ToString() const {
                         }));
     case DT_remote_arg:
       return absl::StrCat(nsasm::ToString(name), " ", argument.ToString(), " ",
-                          flag_state_argument.ToName());
+                          flag_state_argument.ToName(),
+                          return_convention_argument.ToSuffixString());
   }
   return "???";
 }
-- 
2.43.0


From 6aa953e18782e6ee0aad958abdcb2b059ba07ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 25/44] fix: statements after an empty statement are not
 dropped

---
 nsasm/parse.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index c2431f6..5c051b8 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -545,7 +545,9 @@ ErrorOr<std::vector<absl::variant<Statement, ParsedLabel>>> Parse(
     }
 
     if (AtEnd(&tokens)) {
-      return result_vector;
+      // Nothing here, but more statements may follow a colon.
+      tokens.remove_prefix(1);
+      continue;
     }
 
     // pseudo scope operators
-- 
2.43.0


From f84d443cf178359894cec7c1540d70f8b8c046df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 26/44] fix: report where an unsupported return convention is

---
 nsasm/parse.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index 5c051b8..f1be09e 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -417,6 +417,7 @@ ErrorOr<ReturnConvention> ParseReturnConvention(TokenSpan* pos) {
 }
 
 ErrorOr<Instruction> ParseInstruction(TokenSpan* pos) {
+  const Location location = Loc(pos);
   ErrorOr<Instruction> result = ParseInstructionCore(pos);
   NSASM_RETURN_IF_ERROR(result);
   auto return_convention = ParseReturnConvention(pos);
@@ -424,8 +425,9 @@ ErrorOr<Instruction> ParseInstruction(TokenSpan* pos) {
   if (!return_convention->IsDefault() && result->mnemonic != M_jsl &&
       result->mnemonic != M_jsr) {
     return nsasm::Error(
-        "return calling convention not supported on instruction %s",
-        nsasm::ToString(result->mnemonic));
+               "return calling convention not supported on instruction %s",
+               nsasm::ToString(result->mnemonic))
+        .SetLocation(location);
   }
   result->return_convention = *return_convention;
   return result;
-- 
2.43.0


From daf3f9d1968a70469fa2335c9aeaf85d407e3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 27/44] fix: directive names in error messages are named

---
 nsasm/token.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nsasm/token.cc b/nsasm/token.cc
index 471a377..d52cdf0 100644
--- a/nsasm/token.cc
+++ b/nsasm/token.cc
@@ -36,6 +36,10 @@ std::string Token::ToString() const {
   if (mnemonic) {
     return absl::StrCat("mnemonic ", nsasm::ToString(*mnemonic));
   }
+  auto directive_name = DirectiveName();
+  if (directive_name) {
+    return absl::StrCat("directive ", nsasm::ToString(*directive_name));
+  }
   auto suffix = Suffix();
   if (suffix) {
     return absl::StrCat("suffix ", nsasm::ToString(*suffix));
-- 
2.43.0


From dc69a88d7707ba2110623f040aabcd7d5f40025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 28/44] fix: literals too large for an int are refused instead
 of truncated

---
 nsasm/token.cc | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/nsasm/token.cc b/nsasm/token.cc
index d52cdf0..a33b3be 100644
--- a/nsasm/token.cc
+++ b/nsasm/token.cc
@@ -1,5 +1,8 @@
 #include "nsasm/token.h"
 
+#include <cstdlib>
+#include <limits>
+
 #include "absl/strings/ascii.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
@@ -26,6 +29,16 @@ bool IsIdentifierChar(char ch) {
   return IsDecimalDigit(ch) || IsIdentifierFirstChar(ch);
 }
 
+// Returns the value of the given string of digits, or an error if that value
+// does not fit in an int.
+ErrorOr<int> DigitsValue(const std::string& digits, int base) {
+  long long value = strtoll(digits.c_str(), nullptr, base);
+  if (value > std::numeric_limits<int>::max()) {
+    return Error("Literal '%s' is too large", digits);
+  }
+  return static_cast<int>(value);
+}
+
 }  // namespace
 
 std::string Token::ToString() const {
@@ -139,7 +152,8 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         hex_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(hex_digits.c_str(), nullptr, 16);
+      auto value = DigitsValue(hex_digits, 16);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(value, loc);
       // For hex constants, deduce the type from the number of characters.
       // ("$00" is a byte and "$0000" is a word, for example.)
       NumericType type = T_long;
@@ -148,7 +162,7 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
       } else if (hex_digits.size() <= 4) {
         type = T_word;
       }
-      result.emplace_back(value, loc, type);
+      result.emplace_back(*value, loc, type);
       continue;
     }
 
@@ -160,14 +174,15 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         binary_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(binary_digits.c_str(), nullptr, 2);
+      auto value = DigitsValue(binary_digits, 2);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(value, loc);
       NumericType type = T_long;
       if (binary_digits.size() <= 8) {
         type = T_byte;
       } else if (binary_digits.size() <= 16) {
         type = T_word;
       }
-      result.emplace_back(value, loc, type);
+      result.emplace_back(*value, loc, type);
       continue;
     }
 
@@ -178,8 +193,9 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         decimal_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(decimal_digits.c_str(), nullptr, 10);
-      result.emplace_back(value, loc);
+      auto value = DigitsValue(decimal_digits, 10);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(value, loc);
+      result.emplace_back(*value, loc);
       continue;
     }
 
-- 
2.43.0


From 9058d5cb2ec0e5c646662f81f873204a72f60345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 29/44] fix: report where unexpected tokens follow a return
 convention

---
 nsasm/parse.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index f1be09e..779755e 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -430,6 +430,7 @@ ErrorOr<Instruction> ParseInstruction(TokenSpan* pos) {
         .SetLocation(location);
   }
   result->return_convention = *return_convention;
+  NSASM_RETURN_IF_ERROR(ConfirmAtEnd(pos, "after return calling convention"));
   return result;
 }
 
-- 
2.43.0


From 2e0c45101619809886b0bcc18f7a71aa627c1b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 30/44] fix: operands after an unclosed parenthesis are
 refused, not read in its place

---
 nsasm/parse.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index 779755e..4ff74e8 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -367,10 +367,10 @@ ErrorOr<Instruction> ParseInstructionCore(TokenSpan* pos) {
         return CreateInstruction(mnemonic, suffix, SA_ind_y, Loc(pos),
                                  std::move(*arg1));
       }
-      // We have to abandon this attempt and go back to parsing this as an
-      // expression.
-      *pos = backup_pos;
     }
+    // We have to abandon this attempt and go back to parsing this as an
+    // expression.
+    *pos = backup_pos;
   }
 
   // We've tried everything else; now try a bare expression.
-- 
2.43.0


From 00bcb03aeca8dd116933f31c1f2e81a54dc8c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 31/44] fix: the first pass joins the states of all paths to a
 line

---
 nsasm/module.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index a5a2985..bbbf0cb 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -196,16 +196,20 @@ ErrorOr<void> Module::RunFirstPass() {
 
   while (!decode_stack.empty()) {
     // Consider the earliest statement that needs processing.
-    auto& node = *decode_stack.begin();
-    if (node.first == lines_.size()) {
+    const size_t index = decode_stack.begin()->first;
+    ExecutionState current_state = decode_stack.begin()->second;
+    decode_stack.erase(decode_stack.begin());
+    if (index == lines_.size()) {
       return Error("Execution continues past end of file");
     }
-    Line& line = lines_[node.first];
-    const ExecutionState& current_state = node.second;
-    if (line.reached && line.incoming_state == current_state) {
-      // we've been here before under these conditions; nothing more to do
-      decode_stack.erase(decode_stack.begin());
-      continue;
+    Line& line = lines_[index];
+    if (line.reached) {
+      // We've been here before.  Account for every state seen so far.
+      current_state |= line.incoming_state;
+      if (line.incoming_state == current_state) {
+        // nothing new under these conditions
+        continue;
+      }
     }
 
     line.reached = true;
@@ -215,7 +219,7 @@ ErrorOr<void> Module::RunFirstPass() {
     NSASM_RETURN_IF_ERROR_WITH_LOCATION(line.statement.Execute(&next_state),
                                         line.statement.Location());
     if (!line.statement.IsExitInstruction()) {
-      add_to_decode_stack(node.first + 1, next_state);
+      add_to_decode_stack(index + 1, next_state);
     }
     if (line.statement.IsLocalBranch()) {
       const Instruction& ins = *line.statement.Instruction();
-- 
2.43.0


From 2b6465b98cc0dcb947a02b5471891d59a218be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 32/44] fix: exported names are located at their line in the
 source

---
 nsasm/module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index bbbf0cb..fd2ca4b 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -323,7 +323,7 @@ const std::map<FullIdentifier, Location> Module::ExportedNames() const {
   std::map<FullIdentifier, Location> result;
   for (const auto& node : global_to_line_) {
     FullIdentifier id(module_name_, node.first);
-    Location loc(path_, node.second);
+    Location loc = lines_[node.second].statement.Location();
     result[std::move(id)] = std::move(loc);
   }
   return result;
-- 
2.43.0


From 6cafe5ef8f7d3791810375b3718d2ba27d5a9e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 33/44] fix: .org and .remote refuse values which are not
 addresses

---
 nsasm/module.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index fd2ca4b..975c017 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -7,6 +7,17 @@
 #include "nsasm/token.h"
 
 namespace nsasm {
+namespace {
+
+// Convert an evaluated expression to the address it names.
+ErrorOr<Address> AddressFromValue(int value) {
+  if (value < 0 || value > 0xffffff) {
+    return Error("Value %d is not an address", value);
+  }
+  return Address(value);
+}
+
+}  // namespace
 
 class ModuleLookupContext : public LookupContext {
  public:
@@ -261,7 +272,9 @@ ErrorOr<void> Module::RunFirstPass() {
     if (dir && dir->name == D_org) {
       auto v = dir->argument.Evaluate(NullLookupContext());
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, dir->location);
-      pc = nsasm::Address(*v);
+      auto origin = AddressFromValue(*v);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(origin, dir->location);
+      pc = *origin;
     }
     int statement_size = line.statement.SerializedSize();
     if (statement_size > 0 && !pc.has_value()) {
@@ -362,7 +375,9 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
     } else if (directive && directive->name == D_remote) {
       auto arg_val = directive->argument.Evaluate(context);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(arg_val, directive->location);
-      Address address(*arg_val);
+      auto remote = AddressFromValue(*arg_val);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(remote, directive->location);
+      Address address = *remote;
       auto it = unnamed_targets_.find(address);
       if (it == unnamed_targets_.end()) {
         unnamed_targets_[address] = directive->flag_state_argument;
-- 
2.43.0


From 58670813f67265bca104b3f6e7962cf29d4bb656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 34/44] fix: exported names whose values are not addresses do
 not abort assembly

---
 nsasm/module.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 975c017..fdf9fb9 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -410,9 +410,9 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       return Error("Label missing a value")
           .SetLocation(line.statement.Location());
     }
-    nsasm::Address address = line.value->ToAddress();
-    if (!address_to_global_.contains(address)) {
-      address_to_global_[address] = node.first;
+    auto address = AddressFromValue(line.value->ToInt());
+    if (address.ok() && !address_to_global_.contains(*address)) {
+      address_to_global_[*address] = node.first;
     }
   }
   return {};
-- 
2.43.0


From 2b58d578b9f7ca427ea6f58a30c2de81227a1462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 35/44] fix: disassemble instructions at the end of readable
 memory

---
 nsasm/disassemble.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 51e3d2f..b7595ed 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -77,6 +77,16 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     }
   };
 
+  // Reads the bytes of an instruction.  Fewer than four bytes are available at
+  // the end of readable memory, which may be all the instruction needs.
+  auto read_instruction = [this](nsasm::Address address) {
+    auto data = src_->Read(address, 4);
+    for (int length = 3; length > 0 && !data.ok(); --length) {
+      data = src_->Read(address, length);
+    }
+    return data;
+  };
+
   ExecutionState initial_execution_state(initial_status_flags);
 
   add_to_decode_stack(starting_address, initial_execution_state);
@@ -96,7 +106,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     if (!existing_instruction) {
       // This is the first time we've seen this address.  Try to disassemble
       // it.
-      auto instruction_data = src_->Read(pc, 4);
+      auto instruction_data = read_instruction(pc);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(instruction_data, src_->Path(), pc);
       auto instruction =
           Decode(*instruction_data, current_execution_state.Flags());
@@ -160,7 +170,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // Check that the instruction still decodes with the new flag state.
         // (We can throw the answer away if so, since we've already disassembled
         // this instruction before.)
-        auto instruction_data = src_->Read(pc, 4);
+        auto instruction_data = read_instruction(pc);
         NSASM_RETURN_IF_ERROR_WITH_LOCATION(
             Decode(*instruction_data, combined_execution_state.Flags()),
             src_->Path(), pc);
-- 
2.43.0


From 98a44f351e9033d90ba3b3f83205198b7b557440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 36/44] fix: far targets of revisited calls get the state at
 the call, not after it

---
 nsasm/disassemble.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index b7595ed..009d36c 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -193,7 +193,8 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // ... the far branch target ...
         auto far_branch_address = di.instruction.FarBranchTarget(pc);
         if (far_branch_address.has_value()) {
-          add_far_branch(*far_branch_address, next_execution_state);
+          // (next_execution_state already has the return convention applied.)
+          add_far_branch(*far_branch_address, combined_execution_state);
         }
         // ... and the local branch target.
         if (di.instruction.IsLocalBranch()) {
-- 
2.43.0


From 05ad8f98d823f4c1abe675bc94cc066dbd5fbc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 37/44] fix: drop instruction suffixes when the flag state
 becomes unknown

---
 nsasm/disassemble.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 009d36c..532c127 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -217,6 +217,10 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     Instruction& ins = node.second.instruction;
     const StatusFlags& flags = node.second.current_execution_state.Flags();
     StatusFlagUsed flag_used = FlagControllingInstructionSize(ins.mnemonic);
+    if (flag_used == kUsesMFlag || flag_used == kUsesXFlag) {
+      // An earlier disassembly may have known a flag that is now unknown.
+      ins.suffix = S_none;
+    }
     if (flag_used == kUsesMFlag) {
       if (flags.MBit() == B_on) {
         ins.suffix = S_b;
-- 
2.43.0


From 7646eed541ab55f2cdb6c1c0b6691513f6a2eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 38/44] fix: a failed disassembly does not leave an entry point
 behind

---
 nsasm/disassemble.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 532c127..eb0ad6f 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -90,8 +90,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   ExecutionState initial_execution_state(initial_status_flags);
 
   add_to_decode_stack(starting_address, initial_execution_state);
-  // ensure entry point is marked, and has a label
-  entry_points_.insert(starting_address);
+  // ensure entry point has a label
   get_label(starting_address);
 
   while (!decode_stack.empty()) {
@@ -237,6 +236,8 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     }
   }
 
+  entry_points_.insert(starting_address);
+
   // Copy the entries from the temporary map to the permanent state.
   for (const auto& node : new_disassembly) {
     disassembly_[node.first] = node.second;
-- 
2.43.0


From f0d70216e547ca07fda4adb275890362da005e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 39/44] fix: fold carry setup only into the instruction that
 follows it

---
 nsasm/disassemble.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index eb0ad6f..8fe3066 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -302,6 +302,11 @@ ErrorOr<void> Disassembler::Cleanup() {
     if (next_iter == disassembly_.end()) {
       break;
     }
+    if (next_iter->first != iter->first.AddWrapped(1)) {
+      // These are not consecutive; execution wraps at the end of a bank.
+      iter = next_iter;
+      continue;
+    }
     if (iter->second.instruction.mnemonic == M_clc &&
         next_iter->second.instruction.mnemonic == M_adc &&
         next_iter->second.label.empty()) {
-- 
2.43.0


From dcff5d9c2239e3c2ca55151bd2abd2af096ae43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 40/44] fix: quick_assemble fails when its output cannot be
 written

---
 util/quick_assemble.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/quick_assemble.cc b/util/quick_assemble.cc
index 35edc55..d350f7c 100644
--- a/util/quick_assemble.cc
+++ b/util/quick_assemble.cc
@@ -67,6 +67,7 @@ int main(int argc, char** argv) {
     auto write_status = overwriter.CreateFile(output_path);
     if (!write_status.ok()) {
       absl::PrintF("Error writing file: %s\n", write_status.error().ToString());
+      return 1;
     }
   }
   // assembler.DebugPrint();
-- 
2.43.0


From d71007420ac752c858cb173a05e319d297bd7f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 41/44] fix: disassemble_more keeps the ROM it disassembles

---
 util/disassemble_more.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 1346a4f..1a3be1b 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -36,7 +36,9 @@ int main(int argc, char** argv) {
     absl::PrintF("Error loading ROM: %s\n", rom.error().ToString());
     return 1;
   }
-  nsasm::RomIdentityTest rom_identity_sink(std::move(*rom));
+  // The sink takes ownership of a ROM; disassembly below needs one as well.
+  nsasm::RomIdentityTest rom_identity_sink(
+      absl::make_unique<nsasm::Rom>(**rom));
 
   std::vector<nsasm::File> asm_files;
   for (int arg_index = 2; arg_index < argc; ++arg_index) {
-- 
2.43.0


From dd6e26e5d562b680af6fb739f9c6c3db3e3998ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 42/44] fix: disassembly tools refuse arguments that are not
 addresses

---
 util/dumb_disassemble.cc  | 2 +-
 util/quick_disassemble.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index ab0ac17..059b341 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -28,7 +28,7 @@ int main(int argc, char** argv) {
   }
 
   unsigned hex_address;
-  if (!sscanf(argv[2], "%x", &hex_address)) {
+  if (sscanf(argv[2], "%x", &hex_address) != 1 || hex_address > 0xffffffu) {
     usage(argv[2]);
     return 1;
   }
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 09a3fc4..274c148 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -55,7 +55,7 @@ int main(int argc, char** argv) {
     const char* address = argv[idx];
     bool indirect = (address[0] == '@');
     if (indirect) ++address;
-    if (!sscanf(address, "%x", &rd_address)) {
+    if (sscanf(address, "%x", &rd_address) != 1 || rd_address > 0xffffffu) {
       usage(argv[0]);
       return 1;
     }
-- 
2.43.0


From 6a16d08c8fbcba88fec387031a988cc80245813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 43/44] fix: quick_disassemble combines the modes given for one
 address

---
 util/quick_disassemble.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 274c148..3b547f1 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -67,7 +67,7 @@ int main(int argc, char** argv) {
       }
       rd_address = *indirect_address;
     }
-    seeds.emplace(nsasm::Address(rd_address), *parsed_flag);
+    CombineStates(&seeds, {{nsasm::Address(rd_address), *parsed_flag}});
   }
 
   nsasm::Disassembler disassembler(std::move(*rom));
-- 
2.43.0


From 4e2867ed821d86c8d6a5fba7778cbf6a0a883c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:16 +0000
Subject: [PATCH 44/44] fix: dumb_disassemble lists an instruction at the end
 of readable memory

---
 util/dumb_disassemble.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 059b341..87f04bb 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -43,7 +43,11 @@ int main(int argc, char** argv) {
   nsasm::ExecutionState execution_state(*parsed_flag);
   std::map<nsasm::Address, nsasm::ExecutionState> local_jumps;
   while (true) {
+    // An instruction may be the last in readable memory.
     auto instruction_data = (*rom)->Read(address, 4);
+    for (int length = 3; length > 0 && !instruction_data.ok(); --length) {
+      instruction_data = (*rom)->Read(address, length);
+    }
     if (!instruction_data.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
                    instruction_data.error().ToString());
-- 
2.43.0

