From eeb782680ebd79e36714efcc3790fe2ba830aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 01/72] fix: keep references to in-flight memory writes valid

MemoryWritesManager keeps references to the elements of MemoryWrites, which
were stored in a vector, so a second write to the same address made the
reference to the first one dangle.
---
 .../cpu/memory_writes_manager/memory_writes.cpp    |  4 ++--
 src/t86/cpu/memory_writes_manager/memory_writes.h  | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.cpp b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
index 9526ca3..2676d90 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.cpp
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
@@ -4,11 +4,11 @@
 #include <algorithm>
 
 namespace tiny::t86 {
-    std::vector<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
+    std::list<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
-    std::vector<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
+    std::list<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.h b/src/t86/cpu/memory_writes_manager/memory_writes.h
index 9edf239..c8cf4ed 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.h
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.h
@@ -3,6 +3,8 @@
 #include <utility>
 #include <optional>
 #include <set>
+#include <list>
+#include <vector>
 
 #include "../../ram.h"
 #include "memory_write.h"
@@ -43,14 +45,14 @@ namespace tiny::t86 {
             return e.id() > i;
         }
 
-        // This vector is sorted using comp function, so that we can find writes
+        // This list is sorted using comp function, so that we can find writes
         // with id up to some value
-        // List would have slow lookup times, but better insertions
+        // References to the elements are handed out by add, so they have to stay
+        // valid while other writes are added and removed
         // Set does not allow modifications of it's elements once inserted
-        // Might change to list in the future after some benchmarking
-        std::vector<MemoryWrite> writes_;
+        std::list<MemoryWrite> writes_;
 
-        std::vector<MemoryWrite>::iterator find(MemoryWrite::Id id);
-        std::vector<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
+        std::list<MemoryWrite>::iterator find(MemoryWrite::Id id);
+        std::list<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
     };
 }
-- 
2.43.0


From ac61604ae5c45c63befa76659e75c86b19dd5eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 02/72] fix: LEA R, [R + R] reads its second operand

It has two operands, reading the third one was out of bounds.
---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 07bc03e..7f02513 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -676,7 +676,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
             assert(operands.size() == 2);
             address = Operand::supply(
                     Operand::supply(mem_.getMemoryRegisterRegister(), operands[0].getValue()),
-                    operands[2].getValue()
+                    operands[1].getValue()
             ).index();
         }
         else if (mem_.isMemoryRegisterOffsetRegister()) {
-- 
2.43.0


From bcd6cf3bdb06ca5eab504b17133cdd053d6af64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 03/72] fix: POP SP writes SP once

It tripped an assertion, because SP was set twice.
---
 src/t86/instruction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 7f02513..2ae0dcc 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -554,7 +554,10 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
         const auto& operands = entry.operands();
         assert(operands.size() == 2);
         entry.setRegister(reg_, operands[0].getValue());
-        entry.setStackPointer(operands[1].getValue() + 1);
+        // POP SP loads SP from the stack
+        if (reg_ != Register::StackPointer()) {
+            entry.setStackPointer(operands[1].getValue() + 1);
+        }
     }
 
     void FPOP::execute(ReservationStation::Entry& entry) const {
-- 
2.43.0


From b6e7be9066b68cbb4f64ece93823e34480ecefd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:56 +0000
Subject: [PATCH 04/72] fix: report CPU errors of executed instructions only

Errors other than illegal memory reads, such as using a register that does not
exist, were thrown even if the instruction was only speculated. Keep the error
with the instruction and throw it when it retires. Nothing of the failed or
later instructions is visible then.
---
 src/t86/cpu/reservation_station.cpp | 43 ++++++++++++++++++++++++-----
 src/t86/cpu/reservation_station.h   |  8 +++++-
 2 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/t86/cpu/reservation_station.cpp b/src/t86/cpu/reservation_station.cpp
index e0ec5cf..783721f 100644
--- a/src/t86/cpu/reservation_station.cpp
+++ b/src/t86/cpu/reservation_station.cpp
@@ -47,6 +47,7 @@ namespace tiny::t86 {
                 case Entry::State::preparing: {
                     entry.logPreparing();
                     bool fetchStall{false};
+                    try {
                     for (Operand& operand : entry.operands()) {
                         // Check if we need to fetch and fetch as much as we can right now
                         while(!operand.isFetched()) {
@@ -105,6 +106,10 @@ namespace tiny::t86 {
                             }
                         }
                     }
+                    } catch (...) {
+                        entry.fail(std::current_exception());
+                        break;
+                    }
                     if (fetchStall) {
                         entry.logStallFetch();
                     }
@@ -154,6 +159,8 @@ namespace tiny::t86 {
         cpu_.setRegister(Register::ProgramCounter(), nextPc);
         RegisterAllocationTable readRat = cpu_.getRat();
         std::vector<MemoryWrite::Id> memWriteIds;
+        std::exception_ptr renameException;
+        try {
         for (const auto& product : instruction->produces()) {
             if (product.isRegister()) {
                 Register reg = product.getRegister();
@@ -172,6 +179,9 @@ namespace tiny::t86 {
                 assert(false && "Missing product type");
             }
         }
+        } catch (...) {
+            renameException = std::current_exception();
+        }
         RegisterAllocationTable writeRat = cpu_.getRat();
         auto& entry = entries_.emplace_back(instruction, cpu_,
                               std::move(readRat), std::move(writeRat),
@@ -180,6 +190,10 @@ namespace tiny::t86 {
 
         // Log as preparing status
         entry.logPreparing();
+        if (renameException) {
+            entry.fail(renameException);
+            return;
+        }
         // Check if ready (for some instructions that do not have any operands)
         entry.checkReady();
     }
@@ -275,8 +289,12 @@ namespace tiny::t86 {
         }
         // This is done "two-steps" because some instructions might have zero execution tickCount required
         if (remainingExecutionTime_ == 0) {
-            instruction_->execute(*this);
-            state_ = State::retiring;
+            try {
+                instruction_->execute(*this);
+                state_ = State::retiring;
+            } catch (...) {
+                fail(std::current_exception());
+            }
             return true;
         }
         return false;
@@ -303,10 +321,16 @@ namespace tiny::t86 {
     }
 
     void ReservationStation::Entry::retire() {
-        instruction_->retire(*this);
-        // delay throwing illegal read exception until we know that the instruction will be executed
-        if (memoryAccessException_) {
-            std::rethrow_exception(memoryAccessException_);
+        try {
+            // delay throwing exceptions until we know that the instruction will be executed
+            if (exception_) {
+                std::rethrow_exception(exception_);
+            }
+            instruction_->retire(*this);
+        } catch (...) {
+            // The failed instruction and those after it have no effect
+            cpu_.unrollSpeculation(readRat_);
+            throw;
         }
 
         // Handle single step with trapflags here
@@ -319,6 +343,11 @@ namespace tiny::t86 {
         log_info("Retired instruction '{}'", instruction_->toString());
     }
 
+    void ReservationStation::Entry::fail(std::exception_ptr exception) {
+        exception_ = std::move(exception);
+        state_ = State::retiring;
+    }
+
     Cpu& ReservationStation::Entry::cpu() const {
         return cpu_;
     }
@@ -349,7 +378,7 @@ namespace tiny::t86 {
         try {
             return cpu_.readMemory(address, maxWriteId_);
         } catch(...) {
-            memoryAccessException_ = std::current_exception();
+            exception_ = std::current_exception();
             return {-1};
         }
     }
diff --git a/src/t86/cpu/reservation_station.h b/src/t86/cpu/reservation_station.h
index a238f05..bf9175e 100644
--- a/src/t86/cpu/reservation_station.h
+++ b/src/t86/cpu/reservation_station.h
@@ -10,6 +10,7 @@
 #include <vector>
 #include <optional>
 #include <condition_variable>
+#include <exception>
 
 namespace tiny::t86 {
     // Forward declaration
@@ -81,6 +82,10 @@ namespace tiny::t86 {
 
         void retire();
 
+        /// Marks the instruction as failed. The exception is thrown when the
+        /// instruction retires, so never if it was only speculated.
+        void fail(std::exception_ptr exception);
+
         void checkReady();
 
         void startExecution();
@@ -172,6 +177,7 @@ namespace tiny::t86 {
 
         std::size_t loggingId_;
 
-        std::exception_ptr memoryAccessException_;
+        // Error of this instruction, reported when it retires.
+        std::exception_ptr exception_;
     };
 }
-- 
2.43.0


From ab93dab7ccc308cf028ec6853a323044df4af8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:56 +0000
Subject: [PATCH 05/72] fix: division by zero is a CPU error

DIV and IDIV by zero, also a speculated one, killed the VM with SIGFPE. So did
IDIV and the overflow check of IMUL for the smallest number and -1.
---
 src/t86/cpu/alu.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 4132f59..6cf89ad 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -1,4 +1,5 @@
 #include "alu.h"
+#include "../execution_error.h"
 
 #include <limits>
 #include <cmath>
@@ -64,6 +65,9 @@ namespace tiny::t86::Alu {
     }
 
     Result divide(int64_t x, int64_t y) {
+        if (y == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
         uint64_t ux = static_cast<uint64_t>(x);
         uint64_t uy = static_cast<uint64_t>(y);
         uint64_t uresult = ux / uy;
@@ -76,16 +80,20 @@ namespace tiny::t86::Alu {
     }
 
     Result signed_multiply(int64_t x, int64_t y) {
-        int64_t result = x * y;
+        int64_t result;
+        bool overflowFlag = __builtin_mul_overflow(x, y, &result);
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool carryFlag = false;
-        bool overflowFlag = x != 0 && y != 0 && x != result / y;
         return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
     }
 
     Result signed_divide(int64_t x, int64_t y) {
-        int64_t result = x / y;
+        if (y == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
+        // The quotient of the smallest number and -1 does not fit, wrap around
+        int64_t result = y == -1 ? static_cast<int64_t>(-static_cast<uint64_t>(x)) : x / y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
-- 
2.43.0


From f459f5d6f8d97702143d3a70c6102352380c9ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:56 +0000
Subject: [PATCH 06/72] fix: shift by zero does not set carry

The carry was computed with a shift by -1.
---
 src/t86/cpu/alu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 6cf89ad..5da0d36 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -143,7 +143,7 @@ namespace tiny::t86::Alu {
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
         bool carryFlag = false;
-        if (y <= 64) {
+        if (y > 0 && y <= 64) {
             // the most significant bit before the last shift
             carryFlag = (x << (y - 1)) < 0;
         }
@@ -156,7 +156,7 @@ namespace tiny::t86::Alu {
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
         bool carryFlag = false;
-        if (y <= 64) {
+        if (y > 0 && y <= 64) {
             // the most significant bit before the last shift
             carryFlag = ((x >> (y - 1)) & 1) != 0;
         }
-- 
2.43.0


From d83e74c332be4b45e6480ac0d054f771a3baebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:56 +0000
Subject: [PATCH 07/72] fix: PUTNUM prints the whole register

The value was truncated to 32 bits.
---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 2ae0dcc..ac30ecf 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -718,7 +718,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
     void PUTNUM::retire(ReservationStation::Entry& entry) const {
         const auto& operands = entry.operands();
         assert(operands.size() == 1);
-        os_ << static_cast<int>(operands[0].getValue()) << std::endl;
+        os_ << operands[0].getValue() << std::endl;
     }
 
     void GETCHAR::retire(ReservationStation::Entry& entry) const {
-- 
2.43.0


From 53f1a74b8254f5e53510e5f80a2805525cb12b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:56 +0000
Subject: [PATCH 08/72] fix: GETCHAR stores zero at the end of input

It stored an indeterminate value.
---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index ac30ecf..c981eab 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -722,7 +722,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
     }
 
     void GETCHAR::retire(ReservationStation::Entry& entry) const {
-        char c;
+        char c = 0;
         is_ >> c;
         entry.setRegister(reg_, c);
     }
-- 
2.43.0


From 077d7326e2ce0549464c4b9f752d0917cfbf5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 09/72] fix: NEG of the smallest number sets the sign flag

---
 src/t86/cpu/alu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 5da0d36..6d5d45f 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -44,7 +44,7 @@ namespace tiny::t86::Alu {
     }
 
     Result negate(int64_t x) {
-        int64_t result = -x;
+        int64_t result = static_cast<int64_t>(-static_cast<uint64_t>(x));
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
-- 
2.43.0


From fc47ba11fbc007bbe575a0240ede26193885b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 10/72] fix: the lexer reads 64 bit numbers and reports
 malformed ones

Numbers that did not fit int escaped as std::out_of_range, and 1.2.3 was
read as 1.2.
---
 src/common/parsing.cpp | 19 ++++++++++++++-----
 src/common/parsing.h   |  5 +++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index ec2cc2a..7d6a576 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -1,4 +1,5 @@
 #include "parsing.h"
+#include <charconv>
 
 TokenKind Lexer::ParseNumber() {
     bool is_float = false;
@@ -6,20 +7,28 @@ TokenKind Lexer::ParseNumber() {
     while (true) {
         lookahead = GetChar();
         if (lookahead == '.') {
+            if (is_float) {
+                throw ParserError(fmt::format("{}:{}:Number with two decimal points", row, col));
+            }
             is_float = true;
-
         } else if (!isdigit(lookahead)) {
             break;
         }
         num += lookahead;
     }
+    std::from_chars_result result;
     if (is_float) {
-        float_number = std::stod(num);
-        return TokenKind::FLOAT;
+        result = std::from_chars(num.data(), num.data() + num.size(), float_number);
     } else {
-        number = std::stoi(num);
-        return TokenKind::NUM;
+        // Any 64 bit pattern is allowed
+        uint64_t pattern = 0;
+        result = std::from_chars(num.data(), num.data() + num.size(), pattern);
+        number = static_cast<int64_t>(pattern);
+    }
+    if (result.ec != std::errc{}) {
+        throw ParserError(fmt::format("{}:{}:Number '{}' is out of range", row, col, num));
     }
+    return is_float ? TokenKind::FLOAT : TokenKind::NUM;
 }
 
 void Lexer::ParseString() {
diff --git a/src/common/parsing.h b/src/common/parsing.h
index 7f46a62..acd7590 100644
--- a/src/common/parsing.h
+++ b/src/common/parsing.h
@@ -3,6 +3,7 @@
 #include <variant>
 #include <iostream>
 #include <sstream>
+#include <cstdint>
 #include <cstring>
 #include <string>
 #include <string_view>
@@ -93,7 +94,7 @@ public:
     }
 
     std::string getId() const { return id; }
-    int getNumber() const noexcept { return number; }
+    int64_t getNumber() const noexcept { return number; }
     double getFloat() const noexcept { return float_number; }
     std::string getStr() const noexcept { return str; }
 private:
@@ -138,7 +139,7 @@ private:
     size_t tok_begin_row{0};
     size_t tok_begin_col{0};
 
-    int number{-1};
+    int64_t number{-1};
     double float_number{-1};
     std::string id;
     std::string str;
-- 
2.43.0


From 23c133a66392c7906e946a98daeebcce32b633b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 11/72] fix: the assembler does not misread operands

A minus sign before a missing number used the previous number, [-5] and
[R1 - R2] were read as other operands, [R1 + R2 * x] was an assertion
failure, negative float constants were refused, and R1x was R1.
---
 src/t86-parser/parser.cpp | 67 +++++++++++++++++++++++++++------------
 src/t86-parser/parser.h   |  2 ++
 2 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index c4c62a4..a4aaafe 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -1,5 +1,10 @@
 #include "parser.h"
+#include <charconv>
 
+/// Negates with wraparound, so that it is defined for every value.
+static int64_t Negate(int64_t value) {
+    return static_cast<int64_t>(-static_cast<uint64_t>(value));
+}
 
 TokenKind Parser::GetNext() {
     curtok = lex.getNext();
@@ -28,6 +33,19 @@ void Parser::Section() {
     }
 }
 
+size_t Parser::getRegisterNumber(std::string_view number) {
+    if (number.empty() || !isdigit(static_cast<unsigned char>(number[0]))) {
+        // Existing programs use names such as RBP for the zeroth register.
+        return 0;
+    }
+    size_t result;
+    auto [end, ec] = std::from_chars(number.data(), number.data() + number.size(), result);
+    if (ec != std::errc{} || end != number.data() + number.size()) {
+        throw CreateError("Expected a register number, got '{}'", number);
+    }
+    return result;
+}
+
 tiny::t86::Register Parser::getRegister(std::string_view regname) {
     if (regname == "BP") {
         return tiny::t86::Register::StackBasePointer();
@@ -39,7 +57,7 @@ tiny::t86::Register Parser::getRegister(std::string_view regname) {
         throw CreateError("Registers must begin with an R, unless IP, BP or SP, got {}", regname);
     }
     regname.remove_prefix(1);
-    return tiny::t86::Register{static_cast<size_t>(std::atoi(regname.data()))};
+    return tiny::t86::Register{getRegisterNumber(regname)};
 }
 
 tiny::t86::FloatRegister Parser::getFloatRegister(std::string_view regname) {
@@ -47,7 +65,7 @@ tiny::t86::FloatRegister Parser::getFloatRegister(std::string_view regname) {
         throw CreateError("Float registers must begin with an F");
     }
     regname.remove_prefix(1);
-    return tiny::t86::FloatRegister{static_cast<size_t>(std::atoi(regname.data()))};
+    return tiny::t86::FloatRegister{getRegisterNumber(regname)};
 }
 
 /// Allows only register as operand
@@ -76,24 +94,27 @@ tiny::t86::FloatRegister Parser::FloatRegister() {
 /// Allows only immediate as operand
 int64_t Parser::Imm() {
     if (IsNumber(curtok) || curtok.kind == TokenKind::MINUS) {
-        int neg = 1;
-        if (curtok.kind == TokenKind::MINUS) {
-            neg = -1;
-            GetNext();
+        bool neg = curtok.kind == TokenKind::MINUS;
+        if (neg && GetNext() != TokenKind::NUM) {
+            throw CreateError("Expected i");
         }
-        auto val = neg * lex.getNumber();
+        auto val = lex.getNumber();
         GetNext();
-        return val;
+        return neg ? Negate(val) : val;
     } else {
         throw CreateError("Expected i");
     }
 }
 
 tiny::t86::Operand Parser::FloatImm() {
+    bool neg = curtok.kind == TokenKind::MINUS;
+    if (neg) {
+        GetNext();
+    }
     if (curtok.kind == TokenKind::FLOAT) {
         double val = lex.getFloat();
         GetNext();
-        return tiny::t86::Operand(val);
+        return tiny::t86::Operand(neg ? -val : val);
     } else {
         throw CreateError("Expected f");
     }
@@ -102,7 +123,7 @@ tiny::t86::Operand Parser::FloatImm() {
 tiny::t86::Operand Parser::FloatImmOrRegister() {
     if (curtok.kind == TokenKind::ID) {
         return FloatRegister();
-    } else if (curtok.kind == TokenKind::FLOAT) {
+    } else if (curtok.kind == TokenKind::FLOAT || curtok.kind == TokenKind::MINUS) {
         return FloatImm();
     } else {
         throw CreateError("Expected either f or F");
@@ -138,7 +159,7 @@ tiny::t86::Operand Parser::ImmOrRegisterOrRegisterPlusImm() {
             return reg + imm;
         } else if (curtok.kind == TokenKind::MINUS) {
             GetNext();
-            auto imm = -Imm();
+            auto imm = Negate(Imm());
             return reg + imm;
         }
         return reg;
@@ -158,7 +179,7 @@ tiny::t86::Operand Parser::SimpleMemory() {
                 GetNext();
                 auto imm = Imm();
                 if (minus) {
-                    imm = -imm;
+                    imm = Negate(imm);
                 }
                 if (curtok.kind != TokenKind::RBRACKET) {
                     throw CreateError("Expected end of ']'");
@@ -227,8 +248,7 @@ tiny::t86::Operand Parser::Memory() {
         GetNext();
         // Must be [i]
         if (IsNumber(curtok)) {
-            auto imm = lex.getNumber();
-            GetNext();
+            auto imm = Imm();
             result = Mem(imm);
         } else if (curtok.kind == TokenKind::ID) {
             auto regname1 = lex.getId();
@@ -241,7 +261,7 @@ tiny::t86::Operand Parser::Memory() {
                 if (IsNumber(curtok)) {
                     auto imm1 = Imm();
                     if (minus) {
-                        imm1 = -imm1;
+                        imm1 = Negate(imm1);
                     }
                     // Can be either [R + i + R] or [R + i + R * i]
                     if (curtok.kind == TokenKind::PLUS) {
@@ -266,17 +286,15 @@ tiny::t86::Operand Parser::Memory() {
                     } else {
                         result = Mem(reg1 + imm1);
                     }
-                } else if (curtok.kind == TokenKind::ID) {
+                } else if (curtok.kind == TokenKind::ID && !minus) {
                     auto regname2 = lex.getId();
                     auto reg2 = getRegister(regname2);
                     GetNext();
                     // Must be [R + R * i]
                     if (curtok.kind == TokenKind::TIMES) {
                         GetNext();
-                        if (IsNumber(curtok)) {
-                            auto imm = Imm();
-                            result = Mem(reg1 + reg2 * imm);
-                        }
+                        auto imm = Imm();
+                        result = Mem(reg1 + reg2 * imm);
                     // Must be [R + R]
                     } else {
                         result = Mem(reg1 + reg2);
@@ -322,6 +340,13 @@ tiny::t86::Operand Parser::Operand() {
         } else {
             return Register();
         }
+    } else if (curtok.kind == TokenKind::MINUS) {
+        if (GetNext() == TokenKind::FLOAT) {
+            return tiny::t86::Operand(-FloatImm().getFloatValue());
+        } else if (curtok.kind == TokenKind::NUM) {
+            return Negate(Imm());
+        }
+        throw CreateError("Expected i or f");
     } else if (IsNumber(curtok)) {
         return Imm();
     } else if (curtok.kind == TokenKind::FLOAT) {
@@ -394,7 +419,7 @@ std::unique_ptr<tiny::t86::MOV> Parser::ParseMOV() {
 
 std::unique_ptr<tiny::t86::Instruction> Parser::Instruction() {
     // Address at the beginning is optional
-    if (IsNumber(curtok)) {
+    if (curtok.kind == TokenKind::NUM) {
         GetNext();
     }
 
diff --git a/src/t86-parser/parser.h b/src/t86-parser/parser.h
index 11e0cae..0ed6f53 100644
--- a/src/t86-parser/parser.h
+++ b/src/t86-parser/parser.h
@@ -19,6 +19,8 @@ public:
 
     void Section();
 
+    size_t getRegisterNumber(std::string_view number);
+
     tiny::t86::Register getRegister(std::string_view regname);
 
     tiny::t86::FloatRegister getFloatRegister(std::string_view regname);
-- 
2.43.0


From acb2b503daa50d753ced421c658241939191a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 12/72] fix: print float constants exactly

Code is patched through its text, so the printed constant must be the same
number when read again.
---
 src/t86/instructions/operand.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/t86/instructions/operand.cpp b/src/t86/instructions/operand.cpp
index c4bbc97..3ea0f11 100644
--- a/src/t86/instructions/operand.cpp
+++ b/src/t86/instructions/operand.cpp
@@ -3,10 +3,22 @@
 #include "helpers.h"
 
 #include <cassert>
+#include <charconv>
 
 
 namespace tiny::t86 {
 
+    /// Prints the value so that reading it back gives exactly the same number.
+    static std::string floatToString(double value) {
+        std::string buffer(512, '\0');
+        auto res = std::to_chars(buffer.data(), buffer.data() + buffer.size(), value, std::chars_format::fixed);
+        buffer.resize(res.ptr - buffer.data());
+        if (buffer.find('.') == buffer.npos) {
+            buffer += ".0";
+        }
+        return buffer;
+    }
+
     Operand::Operand(int64_t value) : value_(value) {}
 
     Operand::Operand(double value) : value_(value) {}
@@ -417,7 +429,7 @@ namespace tiny::t86 {
         } else if (isMemoryRegisterOffsetRegisterScaled()) {
             return getMemoryRegisterOffsetRegisterScaled().toString();
         } else if (isFloatValue()) {
-            return std::to_string(getFloatValue());
+            return floatToString(getFloatValue());
         } else if (isFloatRegister()) {
             return getFloatRegister().toString();
         }
-- 
2.43.0


From e5faa8eabb3e3d3462309c7436ce7f80f7683806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:21 +0000
Subject: [PATCH 13/72] fix: malformed or out of bounds debug requests are
 refused

---
 src/common/helpers.h        |  4 ++--
 src/debugger/T86Process.cpp |  8 +++++--
 src/t86/debug.cpp           | 46 ++++++++++++++++++++++++++-----------
 src/t86/debug.h             |  4 ++++
 4 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/common/helpers.h b/src/common/helpers.h
index 8a9606b..1867159 100644
--- a/src/common/helpers.h
+++ b/src/common/helpers.h
@@ -71,7 +71,7 @@ namespace utils {
     inline std::optional<int64_t> svtoi64(std::string_view s) {
         int64_t result;
         auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
-        if (ec == std::errc()) {
+        if (ec == std::errc() && ptr == s.data() + s.size()) {
             return result;
         }
         return std::nullopt;
@@ -92,7 +92,7 @@ namespace utils {
 #endif
             T result;
             auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
-            if (ec == std::errc()) {
+            if (ec == std::errc() && ptr == s.data() + s.size()) {
                 return result;
             }
             return std::nullopt;
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 69cde65..dfb696b 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -30,12 +30,16 @@ std::vector<std::string> T86Process::ReadText(uint64_t address, size_t amount) {
     if (!text) {
         throw DebuggerError("PEEKTEXT err");
     }
+    if (text->starts_with("ERROR")) {
+        throw DebuggerError(fmt::format("Reading text at {}-{}: {}", address,
+                                        address + amount, *text));
+    }
 
     return utils::split(*text, '\n');
 }
 
 void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data) {
-    if (address + data.size() > data_size) {
+    if (address > data_size || data.size() > data_size - address) {
         throw DebuggerError(fmt::format("Writing memory at {}-{}, but size is {}",
                     address, address + data.size() - 1, data_size));
     }
@@ -46,7 +50,7 @@ void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data)
 }
 
 std::vector<int64_t> T86Process::ReadMemory(uint64_t address, size_t amount) {
-    if (address + amount > data_size) {
+    if (address > data_size || amount > data_size - address) {
         throw DebuggerError(fmt::format("Reading memory at {}-{}, but size is {}",
                     address, address + amount - 1, data_size));
     }
diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index 9044c52..741a07f 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -32,7 +32,7 @@ namespace tiny::t86 {
             return Register::Flags();
         } 
         auto idx = utils::svtonum<size_t>(s.substr(1));
-        if (!idx) {
+        if (s[0] != 'R' || !idx || *idx >= cpu.registersCount()) {
             throw std::runtime_error(
                     fmt::format("TranslateToRegister failed, got '{}' as index",
                         s.substr(1)));
@@ -43,7 +43,7 @@ namespace tiny::t86 {
 
     FloatRegister Debug::TranslateToFloatRegister(std::string_view s) {
         auto idx = utils::svtonum<size_t>(s.substr(1));
-        if (!idx) {
+        if (s[0] != 'F' || !idx || *idx >= cpu.floatRegistersCount()) {
             throw std::runtime_error(
                     fmt::format("TranslateToRegister failed, got '{}' as index",
                         s.substr(1)));
@@ -54,7 +54,7 @@ namespace tiny::t86 {
 
     size_t Debug::TranslateToDebugRegister(std::string_view s) {
         auto idx = utils::svtonum<size_t>(s.substr(1));
-        if (!idx) {
+        if (s[0] != 'D' || !idx) {
             throw std::runtime_error(fmt::format("Wrong debug register,"
                        " expected D<index>, got '{}'", s));
         }
@@ -65,6 +65,7 @@ namespace tiny::t86 {
         std::istringstream is{std::string(s)};
         Parser parser(is);
         auto ins = parser.Instruction();
+        parser.CheckEnd();
         return ins;
     }
 
@@ -109,7 +110,21 @@ namespace tiny::t86 {
         } 
         log_info("Sending stop message to the debugger");
         messenger->Send("STOPPED");
-        
+
+        while (true) {
+            try {
+                return HandleRequests(reason);
+            } catch (const TCP::TCPError&) {
+                throw;
+            } catch (const std::exception& e) {
+                // The request was malformed or out of bounds, refuse it
+                log_error("Refusing request: {}", e.what());
+                messenger->Send(fmt::format("ERROR: {}", e.what()));
+            }
+        }
+    }
+
+    bool Debug::HandleRequests(BreakReason reason) {
         while (true) {
             log_info("Waiting for message from the debugger");
             auto message = messenger->Receive();
@@ -120,22 +135,25 @@ namespace tiny::t86 {
             }
             log_info("Received message '{}' from debugger", *message);
             auto commands = utils::split_v(*message, ' ');
-            auto command = commands[0];
+            auto command = commands.at(0);
             if (command == "REASON") {
                 std::string r = ReasonToString(reason);
                 messenger->Send(r);
             } else if (message == "CONTINUE") {
                 messenger->Send("OK");
                 break;
-            } else if (command.starts_with("PEEKTEXT")) {
+            } else if (command == "PEEKTEXT") {
                 auto index = svtoidx(commands.at(1));
                 auto count = svtoidx(commands.at(2));
+                if (index + count > cpu.textSize()) {
+                    throw std::runtime_error("Reading text out of bounds");
+                }
                 std::string result;
                 for (size_t i = index; i < index + count; ++i) {
                     result += cpu.getText(i).toString() + "\n";
                 }
                 messenger->Send(result);
-            } else if (command.starts_with("POKETEXT")) {
+            } else if (command == "POKETEXT") {
                 // We unfortunately broke the instruction into several parts,
                 // need to glue it back together
                 auto index = svtoidx(commands.at(1));
@@ -149,7 +167,7 @@ namespace tiny::t86 {
                 auto ins = ParseInstruction(ins_s);
                 cpu.setText(index, std::move(ins));
                 messenger->Send("OK");
-            } else if (command.starts_with("PEEKDATA")) {
+            } else if (command == "PEEKDATA") {
                 auto index = svtoidx(commands.at(1));
                 auto count = svtoidx(commands.at(2));
                 std::string result;
@@ -157,7 +175,7 @@ namespace tiny::t86 {
                     result += fmt::format("{}\n", cpu.getMemory(i)); 
                 }
                 messenger->Send(result);
-            } else if (command.starts_with("POKEDATA")) {
+            } else if (command == "POKEDATA") {
                 auto index = svtoidx(commands.at(1));
                 auto value = utils::svtoi64(commands.at(2));
                 if (!value) {
@@ -176,17 +194,17 @@ namespace tiny::t86 {
                 messenger->Send(regs);
             } else if (command == "POKEDEBUGREGS") {
                 auto reg = TranslateToDebugRegister(commands.at(1));
-                auto val = *utils::svtonum<uint64_t>(commands.at(2));
+                auto val = utils::svtonum<uint64_t>(commands.at(2)).value();
                 cpu.setDebugRegister(reg, val);
                 messenger->Send("OK");
-            } else if (command.starts_with("POKEFLOATREGS")) {
+            } else if (command == "POKEFLOATREGS") {
                 auto reg = TranslateToFloatRegister(commands.at(1));
-                auto val = *utils::svtonum<double>(commands.at(2));
+                auto val = utils::svtonum<double>(commands.at(2)).value();
                 cpu.setFloatRegisterDebug(reg, val);
                 messenger->Send("OK");
-            } else if (command.starts_with("POKEREGS")) {
+            } else if (command == "POKEREGS") {
                 auto reg = TranslateToRegister(commands.at(1));
-                auto val = *utils::svtonum<int64_t>(commands.at(2));
+                auto val = utils::svtonum<int64_t>(commands.at(2)).value();
                 cpu.setRegisterDebug(reg, val);
                 messenger->Send("OK");
             } else if (command == "SINGLESTEP") {
diff --git a/src/t86/debug.h b/src/t86/debug.h
index 774cf49..ad75d8b 100644
--- a/src/t86/debug.h
+++ b/src/t86/debug.h
@@ -50,6 +50,10 @@ public:
     /// Should be called on any break situation.
     bool Work(BreakReason reason);
 private:
+    /// Answers requests until one of them resumes or ends the program.
+    /// Throws when a request can not be satisfied.
+    bool HandleRequests(BreakReason reason);
+
     Cpu& cpu;
     std::unique_ptr<Messenger> messenger;
 };
-- 
2.43.0


From 245433054166dc5e746e8388f01a53f857a3d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:19 +0000
Subject: [PATCH 14/72] fix: a step that ends in a watchpoint or BKPT clears
 the trap flag

---
 src/t86/debug.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index 741a07f..440f1bd 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -104,10 +104,8 @@ namespace tiny::t86 {
     /// which will communicate with the client.
     /// Should be called on any break situation.
     bool Debug::Work(BreakReason reason) {
-        if (reason == BreakReason::SingleStep) {
-            log_info("Debug handler: After singlestep");
-            cpu.unsetTrapFlag();
-        } 
+        // A step can also end with another reason (watchpoint, breakpoint)
+        cpu.unsetTrapFlag();
         log_info("Sending stop message to the debugger");
         messenger->Send("STOPPED");
 
-- 
2.43.0


From 0153e49b4ef11926d3d6e712bad574d4bbd89a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:44 +0000
Subject: [PATCH 15/72] fix: code writes take effect under disabled breakpoints
 and are validated under enabled ones

---
 src/debugger/Native.cpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index e2b1d8b..0d0dfe2 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -53,7 +53,7 @@ void Native::DisableSoftwareBreakpoint(uint64_t address) {
 std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
     // TODO: Needs to replace if some breakpoints are set.
     auto text_size = TextSize();
-    if (address + amount > text_size) {
+    if (address > text_size || amount > text_size - address) {
         throw DebuggerError(
             fmt::format("Reading text at range {}-{}, but text size is {}",
                         address, address + amount, text_size));
@@ -73,24 +73,40 @@ std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
 
 void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     auto text_size = TextSize();
-    if (address + text.size() > text_size) {
+    if (address > text_size || text.size() > text_size - address) {
         throw DebuggerError(
             fmt::format("Writing text at range {}-{}, but text size is {}",
                         address, address + text.size(), text_size));
     }
     // Some of the code we want to rewrite might
-    // be occupied by a breakpoint, so instead
-    // we write it into its saved data and
-    // persist the breakpoint in the debuggee.
-    for (size_t i = 0; i < text.size(); ++i) {
-        uint64_t curr_addr = i + address;
-        auto bp = software_breakpoints.find(curr_addr);
-        if (bp != software_breakpoints.end()) {
-            bp->second.data = text[i];
-            text[i] = GetSoftwareBreakpointOpcode();
+    // be occupied by a breakpoint, so we take those off
+    // and put them back on the new code.
+    std::vector<uint64_t> enabled;
+    for (const auto& [bp_addr, bp]: software_breakpoints) {
+        if (bp.enabled && bp_addr >= address && bp_addr - address < text.size()) {
+            enabled.push_back(bp_addr);
+        }
+    }
+    auto restore = [&] {
+        for (auto& [bp_addr, bp]: software_breakpoints) {
+            if (!bp.enabled && bp_addr >= address && bp_addr - address < text.size()) {
+                bp.data = process->ReadText(bp_addr, 1).at(0);
+            }
         }
+        for (auto bp_addr: enabled) {
+            EnableSoftwareBreakpoint(bp_addr);
+        }
+    };
+    for (auto bp_addr: enabled) {
+        DisableSoftwareBreakpoint(bp_addr);
+    }
+    try {
+        process->WriteText(address, text);
+    } catch (const DebuggerError&) {
+        restore();
+        throw;
     }
-    process->WriteText(address, text);
+    restore();
 }
 
 DebugEvent Native::PerformSingleStep() {
-- 
2.43.0


From 3074718fd1d3388f894555be319235b82740a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:25 +0000
Subject: [PATCH 16/72] fix: removing a watchpoint deactivates it in the
 machine

---
 src/debugger/Native.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 0d0dfe2..583c97b 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -393,11 +393,12 @@ void Native::SetWatchpointWrite(uint64_t address) {
 void Native::RemoveWatchpoint(uint64_t address) {
     auto wp = watchpoints.find(address);
     if (wp == watchpoints.end()) {
-        throw DebuggerError("A watchpoint is already set on that address.");
+        throw DebuggerError("No watchpoint is set on that address.");
     }
     
     auto dbg_regs = process->FetchDebugRegisters();
     Arch::DeactivateDebugRegister(wp->second.hw_reg, dbg_regs);
+    process->SetDebugRegisters(dbg_regs);
     watchpoints.erase(address); 
 }
 
-- 
2.43.0


From c95674e087e67cd38c314863d248a7d749c80e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:45 +0000
Subject: [PATCH 17/72] fix: memory written by the debugger replaces accesses
 in flight

---
 src/t86/ram.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/t86/ram.cpp b/src/t86/ram.cpp
index 1797e99..ab4c055 100644
--- a/src/t86/ram.cpp
+++ b/src/t86/ram.cpp
@@ -75,6 +75,12 @@ namespace tiny::t86 {
 
     void RAM::set(std::size_t address, int64_t value) {
         mem_.at(address) = value;
+        // Forget accesses in flight, they carry the previous value
+        reads_.erase(address);
+        if (auto it = writes_.find(address); it != writes_.end()) {
+            writesById_.erase(it->second.id);
+            writes_.erase(it);
+        }
     }
 
     std::size_t RAM::size() const {
-- 
2.43.0


From 504e4ab0a091d9e677af028f35a8fefae88ce139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:57 +0000
Subject: [PATCH 18/72] fix: step over and step out report what happens inside
 the call

---
 src/debugger/Native.cpp | 57 +++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 583c97b..d919537 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -132,54 +132,49 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
             "Singlestep is not supported for current architecture");
     }
     auto ip = GetIP();
+    if (auto bp = software_breakpoints.find(ip);
+            !skip_bp && bp != software_breakpoints.end() && bp->second.enabled) {
+        return DoRawSingleStep();
+    }
     auto text = ReadText(ip, 1)[0];
     auto calls = Arch::GetCallInstructions();
     auto is_call = std::find_if(calls.begin(), calls.end(),
                                 [&text](auto&& ins) { return text.starts_with(ins); });
     if (is_call != calls.end()) {
-        bool bp_exists = software_breakpoints.contains(ip + 1);
+        auto bp = software_breakpoints.find(ip + 1);
+        bool bp_exists = bp != software_breakpoints.end();
+        bool bp_enabled = bp_exists && bp->second.enabled;
         if (!bp_exists) {
-            SetBreakpoint(ip + 1); 
-        }
-        // To step over a breakpoint on current line.
-        if (skip_bp) {
-            PerformSingleStep();
+            SetBreakpoint(ip + 1);
+        } else if (!bp_enabled) {
+            EnableSoftwareBreakpoint(ip + 1);
         }
         // There is a problem with recursive functions. They can hit the breakpoint
-        // also. We do this bold heuristic where we check if the BP is the same,
-        // because functions with some normal calling convention have to backup
-        // this guy, especially if they're recursive.
-        auto bp = GetRegister("BP");
+        // also. The stack is higher there than at the call we're stepping over,
+        // because the return addresses of the calls in between are on it.
+        auto sp = GetRegister("SP");
         DebugEvent e;
-        while (true) {
+        bool at_return = false;
+        bool returned = false;
+        do {
+            // This also steps over a breakpoint on current line.
             ContinueExecution();
             e = WaitForDebugEvent();
-            // If we landed on the same position we came from
-            if (bp == GetRegister("BP")
-                    && GetIP() == ip + 1
-                    && std::holds_alternative<BreakpointHit>(e)) {
-                break;
-            }
-            // If other breakpoint happened
-            if (std::holds_alternative<BreakpointHit>(e)
-                    && GetIP() != ip + 1) {
-                break;
-            }
-            // Totally other event
-            if (!std::holds_alternative<BreakpointHit>(e)) {
-                break;
-            }
-        }
+            at_return = std::holds_alternative<BreakpointHit>(e)
+                        && GetIP() == ip + 1;
+            returned = at_return && GetRegister("SP") >= sp;
+        } while (at_return && !returned && !bp_enabled);
 
         if (!bp_exists) {
             UnsetBreakpoint(ip + 1);
+        } else if (!bp_enabled) {
+            DisableSoftwareBreakpoint(ip + 1);
         }
-        // We probably hit some other breakpoint in the call.
-        if (GetIP() != ip + 1) {
-            return e;
-        } else {
+        if (returned) {
             return Singlestep{};
         }
+        // We probably hit some other breakpoint in the call.
+        return e;
     } else {
         if (skip_bp) {
             return PerformSingleStep();
-- 
2.43.0


From eff5c642afb0a73922d5c061f0f161891783c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:56 +0000
Subject: [PATCH 19/72] fix: MOV does not accept a float constant as
 destination

---
 src/t86-parser/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index a4aaafe..4ba57cc 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -388,8 +388,8 @@ std::unique_ptr<tiny::t86::MOV> Parser::ParseMOV() {
     }
     GetNext();
     auto from = Operand();
-    if (dest.isValue() || dest.isRegisterOffset()) {
-        throw CreateError("MOV can't have i or R + i as dest");
+    if (dest.isValue() || dest.isFloatValue() || dest.isRegisterOffset()) {
+        throw CreateError("MOV can't have i, f or R + i as dest");
     } else if (dest.isRegister()) {
         // Allows almost everyting
         if (from.isRegisterOffset()) {
-- 
2.43.0


From 12648a6e0ce17abcbeada901f32647cb850aeba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:47 +0000
Subject: [PATCH 20/72] fix: a byte with value 255 is not the end of the input

---
 src/common/parsing.cpp | 6 +++---
 src/common/parsing.h   | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index 7d6a576..038e87a 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -3,7 +3,7 @@
 
 TokenKind Lexer::ParseNumber() {
     bool is_float = false;
-    std::string num{lookahead};
+    std::string num(1, lookahead);
     while (true) {
         lookahead = GetChar();
         if (lookahead == '.') {
@@ -47,7 +47,7 @@ void Lexer::ParseString() {
             } else if (lookahead == '\"') {
                 str += '\"';
             } else {
-                throw ParserError(fmt::format("Unknown escape sequence: '\\{}'", lookahead));
+                throw ParserError(fmt::format("Unknown escape sequence: '\\{}'", static_cast<char>(lookahead)));
             }
         } else {
             str += lookahead;
@@ -191,7 +191,7 @@ Token Lexer::getNext() {
             return getNext();
         } else {
             throw ParserError(fmt::format("{}:{}:No token beginning with '{}'",
-                                          row, col, lookahead));
+                                          row, col, static_cast<char>(lookahead)));
         }
     }
 }
diff --git a/src/common/parsing.h b/src/common/parsing.h
index acd7590..9a25dab 100644
--- a/src/common/parsing.h
+++ b/src/common/parsing.h
@@ -106,7 +106,7 @@ private:
     }
 
     void ParseIdentifier() {
-        std::string str{lookahead};
+        std::string str(1, lookahead);
         while (true) {
             GetChar();
             if (!isalnum(lookahead) && lookahead != '_') {
@@ -117,7 +117,7 @@ private:
         id = str;
     }
 
-    char GetChar() {
+    int GetChar() {
         if (lookahead == '\n') {
             row += 1;
             col = 0;
@@ -145,7 +145,8 @@ private:
     std::string str;
 
     std::istream& input;
-    char lookahead;
+    /// Either a character (as unsigned char) or EOF
+    int lookahead;
 
     bool ignore{false};
 };
-- 
2.43.0


From 0bb5ddd901f6166a9837dd41a44b6a0b650a9cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:52 +0000
Subject: [PATCH 21/72] fix: property P14: receive a message header that
 arrives in parts

---
 src/common/TCP.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index b3960f4..3ddaf28 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -69,14 +69,20 @@ inline void Send(int socket, const std::string& s) {
 inline std::optional<std::string> Receive(int socket) {
     // The messages are in form 8b | data
     size_t size = 0;
-    int err = read(socket, &size, sizeof(size_t));
-    if (err < 0) {
-        throw TCPError("Reading failed");
-    } if (err == 0) {
-        return std::nullopt;
+    size_t received = 0;
+    // A read may return fewer bytes than asked for
+    while (received < sizeof(size_t)) {
+        int err = read(socket, reinterpret_cast<uint8_t*>(&size) + received,
+                       sizeof(size_t) - received);
+        if (err < 0) {
+            throw TCPError("Reading failed");
+        } else if (err == 0) {
+            return std::nullopt;
+        }
+        received += err;
     }
 
-    size_t received = 0;
+    received = 0;
     std::vector<uint8_t> data(size);
     while (received < size) {
         int err = read(socket, data.data() + received, size - received);
-- 
2.43.0


From 570668427763533ec09000b54b3482ddbcb732c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:52 +0000
Subject: [PATCH 22/72] fix: property P14: report a failed send instead of
 retrying forever

---
 src/common/TCP.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index 3ddaf28..7b60440 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -52,7 +52,11 @@ private:
 inline void SendRaw(int socket, const uint8_t* data, size_t size) {
     size_t sent = 0;
     while (sent < size) {
-        sent += send(socket, &data[sent], size - sent, 0);
+        ssize_t cnt = send(socket, &data[sent], size - sent, MSG_NOSIGNAL);
+        if (cnt < 0) {
+            throw TCPError("Sending failed");
+        }
+        sent += cnt;
     }
 }
 
-- 
2.43.0


From 74ac4a16c9127c385825ced614b7cb9cc975863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:00 +0000
Subject: [PATCH 23/72] fix: property P16: a variable of an inner scope hides
 outer ones declared after it

---
 src/debugger/Source/Source.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index f57a198..ed533e2 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -326,8 +326,14 @@ void FindVariables(uint64_t address, const DIE& die, std::map<std::string, const
             return;
         }
     }
-    for (const auto& d: die) {
-        FindVariables(address, d, result);
+    // The variables in nested scopes hide those declared here, no matter
+    // in which order they are, so the nested scopes have to be searched last.
+    for (bool variables: {true, false}) {
+        for (const auto& d: die) {
+            if ((d.get_tag() == DIE::TAG::variable) == variables) {
+                FindVariables(address, d, result);
+            }
+        }
     }
 }
 
-- 
2.43.0


From 0d0c9def3e19ab2d6fc619485723b8887bfa9065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 24/72] fix: property P16: location program taking from an
 empty stack is an error

---
 src/debugger/Source/ExpressionInterpreter.cpp | 17 ++++++++++++-----
 src/debugger/Source/ExpressionInterpreter.h   |  3 +++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/debugger/Source/ExpressionInterpreter.cpp b/src/debugger/Source/ExpressionInterpreter.cpp
index b42ed87..c8f18a8 100644
--- a/src/debugger/Source/ExpressionInterpreter.cpp
+++ b/src/debugger/Source/ExpressionInterpreter.cpp
@@ -47,6 +47,15 @@ expr::Location ExpressionInterpreter::AddOperands(const expr::Location& o1,
     }, o1);
 }
 
+expr::Location ExpressionInterpreter::Pop() {
+    if (s.empty()) {
+        throw DebuggerError("Location expression takes a value from an empty stack.");
+    }
+    auto v = s.top();
+    s.pop();
+    return v;
+}
+
 void ExpressionInterpreter::Interpret() {
     for (const auto& ins: exprs) {
         std::visit(utils::overloaded {
@@ -54,10 +63,8 @@ void ExpressionInterpreter::Interpret() {
                 s.push(ins.value);
             },
             [&](const expr::Add& ins) {
-                auto v1 = s.top();
-                s.pop();
-                auto v2 = s.top();
-                s.pop();
+                auto v1 = Pop();
+                auto v2 = Pop();
                 auto res = AddOperands(v1, v2);
                 s.push(std::move(res));
             },
@@ -67,7 +74,7 @@ void ExpressionInterpreter::Interpret() {
                 s.push(expr::Offset{loc});
             },
             [&](const expr::Dereference& ins) {
-                auto v1 = s.top();
+                auto v1 = Pop();
                 auto v = std::visit(utils::overloaded {
                         [&](const expr::Register& reg) {
                             auto idx = native.GetRegister(reg.name);
diff --git a/src/debugger/Source/ExpressionInterpreter.h b/src/debugger/Source/ExpressionInterpreter.h
index ac2c139..0e77530 100644
--- a/src/debugger/Source/ExpressionInterpreter.h
+++ b/src/debugger/Source/ExpressionInterpreter.h
@@ -35,6 +35,9 @@ private:
                 exprs(exprs), native(native),
                 frame_base_reg_name(std::move(frame_base_reg_name)) { }
 
+    /// Pops the top of the stack, throws if the stack is empty.
+    expr::Location Pop();
+
     expr::Location AddOperands(const expr::Location& o1,
                               const expr::Location& o2) const;
 
-- 
2.43.0


From ffb722f575ed4f767669395c065f704594a6bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 25/72] fix: property P16: DEREFERENCE of an address reads that
 memory cell once

---
 src/debugger/Source/ExpressionInterpreter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/debugger/Source/ExpressionInterpreter.cpp b/src/debugger/Source/ExpressionInterpreter.cpp
index c8f18a8..5ac71c0 100644
--- a/src/debugger/Source/ExpressionInterpreter.cpp
+++ b/src/debugger/Source/ExpressionInterpreter.cpp
@@ -81,8 +81,7 @@ void ExpressionInterpreter::Interpret() {
                             return native.ReadMemory(idx, 1)[0];
                         },
                         [&](const expr::Offset& offset) {
-                            auto idx = native.ReadMemory(offset.value, 1)[0];
-                            return native.ReadMemory(idx, 1)[0];
+                            return native.ReadMemory(offset.value, 1)[0];
                         }
                 }, v1);
                 s.push(expr::Offset{v});
-- 
2.43.0


From a0a87ee05b3e21a0602f79f3a3a7f235aad1d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:27 +0000
Subject: [PATCH 26/72] fix: property P16: structure in a register was read
 from the memory at the register value

---
 src/debugger/Source/Expression.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 8b329f2..36e4d2f 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -53,6 +53,11 @@ TypedValue ExpressionEvaluator::EvaluateTypeAndLocation(const expr::Location& lo
             return PointerValue{t, raw_value, loc};
         },
         [&](const StructuredType& t) -> TypedValue {
+            // The members would be looked for in the memory that
+            // the register happens to point to.
+            if (!std::holds_alternative<expr::Offset>(loc)) {
+                throw DebuggerError("Structure stored in register is not supported");
+            }
             std::map<std::string, TypedValue> members; 
             for (auto&& member: t.members) {
                 auto member_loc = ExpressionInterpreter::Interpret({
-- 
2.43.0


From 505ab4d22971a4600eefa3bf80b5450ce9158c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 27/72] fix: property P16: a char array is shown with the
 characters behind its end

---
 src/debugger/Source/Source.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index ed533e2..b60ded7 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -420,9 +420,11 @@ std::string Source::TypeToString(const Type& type) const {
     }, type);
 }
 
-std::string ReadMemoryAsString(Native& native, uint64_t addr) {
+/// Reads a string that ends with zero, but at most 'max_size' characters.
+std::string ReadMemoryAsString(Native& native, uint64_t addr,
+                               size_t max_size = std::string::npos) {
     std::string result;
-    while (true) {
+    for (size_t i = 0; i < max_size; ++i) {
         char c = native.ReadMemory(addr++, 1).at(0);
         // TODO: Handle all unprintable or whitespace characters.
         if (c == '\0') {
@@ -455,7 +457,7 @@ std::string Source::TypedValueToString(Native& native, const TypedValue& v) {
         [&](const ArrayValue& v) {
             if (!v.members.empty()
                     && std::holds_alternative<CharValue>(v.members.back())) {
-                auto s = ReadMemoryAsString(native, v.begin_address);
+                auto s = ReadMemoryAsString(native, v.begin_address, v.members.size());
                 return fmt::format("{} \"{}\"", v.begin_address, s);
             } else {
                 std::vector<std::string> res;
-- 
2.43.0


From 0163bb92dc1ba74f5e0d15162426bcbf7dbb67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:02 +0000
Subject: [PATCH 28/72] fix: property P16: showing a pointer type that refers
 to itself overflows the stack

---
 src/debugger/Source/Source.cpp | 14 +++++++-------
 src/debugger/Source/Source.h   |  4 +++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index b60ded7..8eec0fa 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -397,19 +397,19 @@ std::string Source::TypedValueTypeToString(const TypedValue& v) const {
     }, v);
 }
 
-std::string Source::TypeToString(const Type& type) const {
+std::string Source::TypeToString(const Type& type, std::set<size_t> seen) const {
     return std::visit(utils::overloaded {
-        [this](const PointerType& t) {
-            if (!types.contains(t.type_id)) {
+        [&](const PointerType& t) {
+            if (!types.contains(t.type_id) || !seen.insert(t.type_id).second) {
                 return fmt::format("<unknown>*");
             }
-            return fmt::format("{}*", TypeToString(types.at(t.type_id))); 
+            return fmt::format("{}*", TypeToString(types.at(t.type_id), seen)); 
         },
-        [this](const ArrayType& t) {
-            if (!types.contains(t.type_id)) {
+        [&](const ArrayType& t) {
+            if (!types.contains(t.type_id) || !seen.insert(t.type_id).second) {
                 return fmt::format("<unknown>*");
             }
-            return fmt::format("{}[]", TypeToString(types.at(t.type_id))); 
+            return fmt::format("{}[]", TypeToString(types.at(t.type_id), seen)); 
         },
         [](const StructuredType& t) {
             return fmt::format("{}", t.name);
diff --git a/src/debugger/Source/Source.h b/src/debugger/Source/Source.h
index 091f5af..ca1929e 100644
--- a/src/debugger/Source/Source.h
+++ b/src/debugger/Source/Source.h
@@ -144,7 +144,9 @@ public:
     }
 
     /// Returns the type as a string, if the type is known.
-    std::string TypeToString(const Type& type) const;
+    /// The types with ids in 'seen' are shown as unknown, so that
+    /// it ends even if a type refers to itself.
+    std::string TypeToString(const Type& type, std::set<size_t> seen = {}) const;
 
     std::string TypedValueTypeToString(const TypedValue& v) const;
 
-- 
2.43.0


From 5f85eb4a38a900550de666eea1f096b5aec41820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:02 +0000
Subject: [PATCH 29/72] fix: property P16: a type that contains itself
 overflows the stack

---
 src/debugger/Source/Source.cpp | 33 +++++++++++++++++++++++++++++++++
 src/debugger/Source/Source.h   |  3 +++
 2 files changed, 36 insertions(+)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 8eec0fa..e02f06a 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -263,6 +263,39 @@ void Source::ReconstructTypeInformation() {
         }
         // Else not a type die.
     }
+
+    // Types that contain themselves have no size nor value.
+    std::vector<size_t> infinite;
+    for (const auto& [id, type]: types) {
+        std::set<size_t> parts;
+        CollectParts(id, parts);
+        if (parts.contains(id)) {
+            log_error("Type of id {} contains itself!", id);
+            infinite.push_back(id);
+        }
+    }
+    for (auto id: infinite) {
+        types.erase(id);
+    }
+}
+
+void Source::CollectParts(size_t id, std::set<size_t>& parts) const {
+    auto add = [&](size_t part) {
+        if (parts.insert(part).second) {
+            CollectParts(part, parts);
+        }
+    };
+    auto type = GetType(id);
+    if (type == nullptr) {
+        return;
+    }
+    if (auto structured = std::get_if<StructuredType>(type)) {
+        for (const auto& member: structured->members) {
+            add(member.type_id);
+        }
+    } else if (auto array = std::get_if<ArrayType>(type)) {
+        add(array->type_id);
+    }
 }
 
 std::optional<Type> Source::GetVariableTypeInformation(Native& native, std::string_view name) const {
diff --git a/src/debugger/Source/Source.h b/src/debugger/Source/Source.h
index ca1929e..22dbbb2 100644
--- a/src/debugger/Source/Source.h
+++ b/src/debugger/Source/Source.h
@@ -156,6 +156,9 @@ private:
     /// Builds type debugging information and stores it as class state.
     void ReconstructTypeInformation();
 
+    /// Adds the types whose values are stored inside a value of type 'id'.
+    void CollectParts(size_t id, std::set<size_t>& parts) const;
+
     std::map<std::string, const DIE*> GetActiveVariables(uint64_t address) const;
 
     template<typename T>
-- 
2.43.0


From 4648d84af1dd01aba7eb9a4b79c5b9d87b54e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 30/72] fix: property P17: text behind an expression was
 ignored

---
 src/debugger/Source/ExpressionParser.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/ExpressionParser.h b/src/debugger/Source/ExpressionParser.h
index 8a7e9b1..bc848dd 100644
--- a/src/debugger/Source/ExpressionParser.h
+++ b/src/debugger/Source/ExpressionParser.h
@@ -27,7 +27,11 @@ class ExpressionParser {
 public:
     ExpressionParser(std::istream& is): lex(is) { GetNext(); }
     std::unique_ptr<Expression> ParseExpression() {
-        return expr();
+        auto e = expr();
+        if (curtok.kind != TokenKind::END) {
+            throw CreateError("Expected end of expression");
+        }
+        return e;
     }
 private:
     template<typename ...Args>
-- 
2.43.0


From aad7e12c0ddd741eac9a7d29bec7f03ef0139c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 31/72] fix: property P17: parse the documented operators <=
 and >=

---
 src/debugger/Source/ExpressionParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debugger/Source/ExpressionParser.cpp b/src/debugger/Source/ExpressionParser.cpp
index 7407878..9878291 100644
--- a/src/debugger/Source/ExpressionParser.cpp
+++ b/src/debugger/Source/ExpressionParser.cpp
@@ -76,6 +76,8 @@ std::unique_ptr<Expression> ExpressionParser::logical() {
 std::unique_ptr<Expression> ExpressionParser::comparison() {
     std::unique_ptr<Expression> result = shifts();
     while (curtok.kind == TokenKind::LESS
+            || curtok.kind == TokenKind::LEQ
+            || curtok.kind == TokenKind::GEQ
             || curtok.kind == TokenKind::GREATER) {
         auto kind = curtok.kind;
         GetNext();
-- 
2.43.0


From 85fe427fcfe8d98ea9f9084bdfd4b3ebea38697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 32/72] fix: property P17: assignment associates to the right

---
 src/debugger/Source/ExpressionParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/ExpressionParser.cpp b/src/debugger/Source/ExpressionParser.cpp
index 9878291..9853c7e 100644
--- a/src/debugger/Source/ExpressionParser.cpp
+++ b/src/debugger/Source/ExpressionParser.cpp
@@ -34,10 +34,10 @@ std::unique_ptr<Expression> ExpressionParser::expr() {
 
 std::unique_ptr<Expression> ExpressionParser::assign() {
     std::unique_ptr<Expression> result = equality();
-    while (curtok.kind == TokenKind::ASSIGN) {
+    if (curtok.kind == TokenKind::ASSIGN) {
         auto kind = curtok.kind;
         GetNext();
-        auto next = equality();
+        auto next = assign();
         result = std::make_unique<BinaryOperator>(std::move(result),
                                                   operators.at(kind),
                                                   std::move(next));
-- 
2.43.0


From 9688641c9d7a8e777be9ac4ad38c088f292bc0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 33/72] fix: property P17: assigning a float stores its bits,
 not its integral part

---
 src/debugger/Source/Expression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 36e4d2f..3ad0eff 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -327,7 +327,8 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             return std::move(left);
         },
         [&](FloatValue&& left, FloatValue&& right) -> TypedValue {
-            SetRaw(native, left.loc.value(), right.value);
+            SetRaw(native, left.loc.value(),
+                   utils::reinterpret_safe<uint64_t>(right.value));
             left.value = right.value;
             return std::move(left);
         },
-- 
2.43.0


From 4c666e494b2f9ca120df70df93adb65935ab7073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:25 +0000
Subject: [PATCH 34/72] fix: property P17: expression starting with an invalid
 token ended the debugger

---
 src/debugger/Source/Source.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index e02f06a..38efdd8 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -381,9 +381,10 @@ std::map<std::string, const DIE*> Source::GetActiveVariables(uint64_t address) c
 std::pair<TypedValue, size_t>
 Source::EvaluateExpression(Native& native, std::string expression, bool cache) {
     std::istringstream iss(std::move(expression));
-    ExpressionParser parser(iss);
     std::unique_ptr<Expression> e; 
     try {
+        // Reads the first token, so it can fail as well.
+        ExpressionParser parser(iss);
         e = parser.ParseExpression();
     } catch (const ParserError& err) {
         throw DebuggerError(fmt::format("Unable to parse expression: {}", err.what()));
-- 
2.43.0


From 753f8329a257ebc15ce366d03f5da7060551a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:25 +0000
Subject: [PATCH 35/72] fix: property P17: negative index read in front of the
 array members

---
 src/debugger/Source/Expression.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 3ad0eff..ddd148b 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -246,6 +246,9 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
         if (idx == nullptr) {
             throw DebuggerError("Can only indexate with integers");
         }
+        if (idx->value < 0) {
+            throw DebuggerError(fmt::format("Out of bounds access: {} < 0", idx->value));
+        }
         if (idx->value >= static_cast<int64_t>(av->members.size())) {
             throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, av->members.size()));
         }
-- 
2.43.0


From 8e466b1e270f368d01c14eced11e72a859f70c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:25 +0000
Subject: [PATCH 36/72] fix: property P17: assigning arrays of different sizes
 ended the debugger

---
 src/debugger/Source/Expression.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index ddd148b..bb9a53c 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -352,7 +352,9 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Incopatible pointer types");
             }
-            assert(left.members.size() == right.members.size());
+            if (left.members.size() != right.members.size()) {
+                throw DebuggerError("Can't assign arrays of different sizes");
+            }
             for (size_t i = 0; i < left.members.size(); ++ i) {
                 left.members.at(i) = Assignment(std::move(left.members.at(i)),
                                                 std::move(right.members.at(i)));
-- 
2.43.0


From aaa1df1bb1938b447a3bf2ce872610d5c4453ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:25 +0000
Subject: [PATCH 37/72] fix: property P17: difference of pointers counts items

---
 src/debugger/Source/Expression.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index bb9a53c..090c7eb 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -166,11 +166,16 @@ TypedValue ExpressionEvaluator::SubValues(TypedValue&& left, TypedValue&& right)
             auto item_size = source.GetTypeSize(left.type.type_id);
             return PointerValue{left.type, left.value - right.value * item_size};
         },
-        [](PointerValue&& left, PointerValue&& right) -> TypedValue {
+        [this](PointerValue&& left, PointerValue&& right) -> TypedValue {
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Only pointers to the same type can be substracted");
             }
-            return IntegerValue{static_cast<int64_t>(left.value - right.value)};
+            auto item_size = static_cast<int64_t>(
+                source.GetTypeSize(left.type.type_id));
+            if (item_size == 0) {
+                throw DebuggerError("Unknown size of the type pointed to");
+            }
+            return IntegerValue{static_cast<int64_t>(left.value - right.value) / item_size};
         },
         [](auto&&, auto&&) -> TypedValue {
             throw DebuggerError("Unsupported types for operator '-'");
-- 
2.43.0


From eac54f25ec194066e3ac5419d815457b1baa102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:57 +0000
Subject: [PATCH 38/72] fix: property P17: dividing the smallest integer by -1
 killed the debugger

---
 src/debugger/Source/Expression.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 090c7eb..ece8046 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -1,5 +1,6 @@
 #include <variant>
 #include <functional>
+#include <limits>
 #include "Expression.h"
 #include "Source.h"
 #include "debugger/Source/ExpressionInterpreter.h"
@@ -280,6 +281,19 @@ bool CheckZero(const TypedValue& val) {
     }, val);
 }
 
+/// Throws if the operands can't be divided.
+void CheckDivision(const TypedValue& left, const TypedValue& right) {
+    if (!CheckZero(right)) {
+        throw DebuggerError("Can't divide by zero");
+    }
+    auto* l = std::get_if<IntegerValue>(&left);
+    auto* r = std::get_if<IntegerValue>(&right);
+    if (l && r && r->value == -1
+            && l->value == std::numeric_limits<int64_t>::min()) {
+        throw DebuggerError("Overflow in division");
+    }
+}
+
 template<typename UnaryOp>
 TypedValue EvaluateUnary(const TypedValue& val, UnaryOp&& op) {
     return std::visit(utils::overloaded{
@@ -404,16 +418,12 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
                                      std::multiplies{},
                                      std::move(right));
     break; case BinaryOperator::Op::Div: 
-        if (!CheckZero(right)) {
-            throw DebuggerError("Can't divide by zero");
-        }
+        CheckDivision(left, right);
         visitor_value = ArithmeticOp(std::move(left),
                                      std::divides{},
                                      std::move(right));
     break; case BinaryOperator::Op::Mod: 
-        if (!CheckZero(right)) {
-            throw DebuggerError("Can't divide by zero");
-        }
+        CheckDivision(left, right);
         visitor_value = BitValues(std::move(left),
                                   std::modulus{},
                                   std::move(right));
-- 
2.43.0


From 8b08df4bf152a9db81a1b0c3e5c69b97ba0f0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:57 +0000
Subject: [PATCH 39/72] fix: property P17: shift by a negative or too big
 amount is an error

---
 src/debugger/Source/Expression.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index ece8046..479adfb 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -294,6 +294,20 @@ void CheckDivision(const TypedValue& left, const TypedValue& right) {
     }
 }
 
+/// Throws if a value can't be shifted by 'amount' bits.
+void CheckShift(const TypedValue& amount) {
+    std::visit(utils::overloaded{
+        [](const PointerValue&) {},
+        [](const StructuredValue&) {},
+        [](const ArrayValue&) {},
+        [](const auto& v) {
+            if (v.value < 0 || v.value >= 64) {
+                throw DebuggerError("Can only shift by 0 to 63 bits");
+            }
+        },
+    }, amount);
+}
+
 template<typename UnaryOp>
 TypedValue EvaluateUnary(const TypedValue& val, UnaryOp&& op) {
     return std::visit(utils::overloaded{
@@ -472,12 +486,17 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
                                   std::bit_xor{},
                                   std::move(right));
     break; case BinaryOperator::Op::LShift: 
+        CheckShift(right);
         visitor_value = BitValues(std::move(left),
-                                  [](auto&& l, auto&& r) { return l << r; },
+                                  [](int64_t l, int64_t r) {
+                                      return static_cast<int64_t>(
+                                          static_cast<uint64_t>(l) << r);
+                                  },
                                   std::move(right));
     break; case BinaryOperator::Op::RShift: 
+        CheckShift(right);
         visitor_value = BitValues(std::move(left),
-                                  [](auto&& l, auto&& r) { return l >> r; },
+                                  [](int64_t l, int64_t r) { return l >> r; },
                                   std::move(right));
     break; case BinaryOperator::Op::Assign: 
         visitor_value = Assignment(std::move(left), std::move(right));
-- 
2.43.0


From da44f3791056942bd86249152d3c0182ac84fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:57 +0000
Subject: [PATCH 40/72] fix: property P17: && and || evaluate their right
 operand only if it matters

---
 src/debugger/Source/Expression.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 479adfb..658bf6e 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -275,12 +275,20 @@ bool CheckZero(const TypedValue& val) {
         [](const CharValue& v) {
             return v.value != 0;
         },
+        [](const PointerValue& v) {
+            return v.value != 0;
+        },
         [](const auto&) {
             return true;
         }
     }, val);
 }
 
+bool IsScalar(const TypedValue& val) {
+    return !std::holds_alternative<StructuredValue>(val)
+        && !std::holds_alternative<ArrayValue>(val);
+}
+
 /// Throws if the operands can't be divided.
 void CheckDivision(const TypedValue& left, const TypedValue& right) {
     if (!CheckZero(right)) {
@@ -420,6 +428,14 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
 void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
     plus.left->Accept(*this);
     auto left = std::move(visitor_value);
+    if (plus.op == BinaryOperator::Op::And || plus.op == BinaryOperator::Op::Or) {
+        // The right operand isn't evaluated if the left one decides.
+        bool decides = plus.op == BinaryOperator::Op::Or;
+        if (IsScalar(left) && CheckZero(left) == decides) {
+            visitor_value = IntegerValue{decides};
+            return;
+        }
+    }
     plus.right->Accept(*this);
     auto right = std::move(visitor_value);
     switch (plus.op) {
-- 
2.43.0


From cc9daf92ec5fe456cc639a90a25438ce3b052f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:57 +0000
Subject: [PATCH 41/72] fix: property P17: unary operators on a char lost bits
 of the result

---
 src/debugger/Source/Expression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 658bf6e..8571d9c 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -323,7 +323,8 @@ TypedValue EvaluateUnary(const TypedValue& val, UnaryOp&& op) {
             return IntegerValue{op(v.value)};
         },
         [&](const CharValue& v) -> TypedValue {
-            return CharValue{static_cast<char>(op(v.value))};
+            // As with the binary operators, the result is an integer.
+            return IntegerValue{op(static_cast<int64_t>(v.value))};
         },
         [](const auto&) -> TypedValue {
             throw DebuggerError("Unsupported type for unary operation");
-- 
2.43.0


From cd1926e53a4a42a2b2a8b9bae6e0d2407bd710b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:41 +0000
Subject: [PATCH 42/72] fix: property P17: chars can be subtracted like they
 can be added

---
 src/debugger/Source/Expression.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 8571d9c..7a24d22 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -163,6 +163,9 @@ TypedValue ExpressionEvaluator::SubValues(TypedValue&& left, TypedValue&& right)
         [](FloatValue&& left, FloatValue&& right) -> TypedValue {
             return FloatValue{left.value - right.value};
         },
+        [](CharValue&& left, CharValue&& right) -> TypedValue {
+            return IntegerValue{left.value - right.value};
+        },
         [this](PointerValue&& left, IntegerValue&& right) -> TypedValue {
             auto item_size = source.GetTypeSize(left.type.type_id);
             return PointerValue{left.type, left.value - right.value * item_size};
-- 
2.43.0


From 930cb4472707a64fa14ae01d1db87f36fbdb619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:11 +0000
Subject: [PATCH 43/72] fix: property P18: file starting with an invalid
 character ended the debugger

---
 src/debugger/Source/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/Source/Parser.h b/src/debugger/Source/Parser.h
index 57412ac..66ad987 100644
--- a/src/debugger/Source/Parser.h
+++ b/src/debugger/Source/Parser.h
@@ -16,7 +16,7 @@ struct DebuggingInfo {
 /// Parser debugging information, like DIEs, line to addr mapping and so on.
 class Parser {
 public:
-    Parser(std::istream& iss) noexcept : lex(iss) { GetNext(); }
+    Parser(std::istream& iss) : lex(iss) { GetNext(); }
 
     template<typename ...Args>
     ParserError CreateError(fmt::format_string<Args...> format, Args&& ...args) const {
-- 
2.43.0


From b281c3b76bbb665c174667bb5096b255806fff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:11 +0000
Subject: [PATCH 44/72] fix: property P18: debug info that isn't an attribute
 or DIE is an error

---
 src/debugger/Source/Parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index f65690e..a210415 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -242,6 +242,9 @@ DIE Parser::ParseDIE(std::string name) {
     std::vector<DIE_ATTR> attributes;
     std::vector<DIE> childs;
     while (curtok.kind != TokenKind::RBRACE) {
+        if (curtok.kind != TokenKind::ID) {
+            throw CreateError("Expected attribute or DIE name");
+        }
         auto id = lex.getId();
         GetNext();
         if (id.starts_with("ATTR")) {
@@ -250,6 +253,8 @@ DIE Parser::ParseDIE(std::string name) {
         } else if (id.starts_with("DIE")) {
             auto die = ParseDIE(std::move(id));
             childs.push_back(std::move(die));
+        } else {
+            throw CreateError("Expected attribute or DIE name, got '{}'", id);
         }
         if (curtok.kind == TokenKind::COMMA) {
             GetNext();
-- 
2.43.0


From d1fa726b255afd170a8874e8355bcafe3d20d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:11 +0000
Subject: [PATCH 45/72] fix: property P18: location in backticks must be closed

---
 src/debugger/Source/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index a210415..84e32d5 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -145,6 +145,9 @@ std::vector<expr::LocExpr> Parser::ParseExprLoc() {
             auto loc = ParseOneExprLoc();
             result.push_back(std::move(loc));
         }
+        if (curtok.kind != TokenKind::BACKTICK) {
+            throw CreateError("Expected closing '`'");
+        }
         GetNext(); // Eat the '`'
     } else if (curtok.kind == TokenKind::LBRACKET) {
         GetNext();
-- 
2.43.0


From 30f47867ec1021bbdeb03e45e443e98072b5672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:11 +0000
Subject: [PATCH 46/72] fix: property P18: structured type without name, size
 or members crashed the debugger

---
 src/debugger/Source/Source.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 38efdd8..42b301f 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -222,6 +222,10 @@ void Source::ReconstructTypeInformation() {
             auto name = FindDieAttribute<ATTR_name>(die);
             auto size = FindDieAttribute<ATTR_size>(die);
             auto members = FindDieAttribute<ATTR_members>(die);
+            if (!name || !size || !members) {
+                log_error("DIE structured type, missing name, size or members");
+                continue;
+            }
             std::vector<StructuredMember> members_vec;
             std::transform(members->m.begin(), members->m.end(),
                     std::back_inserter(members_vec),
-- 
2.43.0


From e9194309e86efd9506ea40ae6368e1d48024c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:16 +0000
Subject: [PATCH 47/72] fix: property P18: data that doesn't fit into the
 memory ended the process

---
 src/t86/os.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/t86/os.cpp b/src/t86/os.cpp
index e3803e5..7e7b552 100644
--- a/src/t86/os.cpp
+++ b/src/t86/os.cpp
@@ -26,7 +26,13 @@ void OS::DispatchInterrupt(int n) {
 }
 
 bool OS::Run(Program program) {
-    cpu.start(std::move(program));
+    try {
+        cpu.start(std::move(program));
+    } catch (const std::exception& e) {
+        log_error("The program can't be started! {}", e.what());
+        DebuggerMessage(Debug::BreakReason::CpuError);
+        return false;
+    }
     DebuggerMessage(Debug::BreakReason::Begin);
     log_info("Starting execution\n");
     while (true) {
-- 
2.43.0


From 2479c036e11e1c64acd9125302664b1514db9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:09 +0000
Subject: [PATCH 48/72] fix: property P18: value of an unsigned type ended the
 debugger

---
 src/debugger/Source/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 7a24d22..d003d4b 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -46,7 +46,7 @@ TypedValue ExpressionEvaluator::EvaluateTypeAndLocation(const expr::Location& lo
             } else if (t.type == PrimitiveType::Type::CHAR) {
                 return CharValue{utils::reinterpret_safe<char>(raw_value), loc};
             } else {
-                NOT_IMPLEMENTED;
+                throw DebuggerError("Values of this primitive type are not supported");
             }
         },
         [&](const PointerType& t) -> TypedValue {
-- 
2.43.0


From 010bd59901feff1301c652b4aa9adcf86e54c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:59 +0000
Subject: [PATCH 49/72] fix: property P18: a long run of blanks or comments
 overflowed the stack

---
 src/common/parsing.cpp | 21 +++++++++++----------
 src/common/parsing.h   |  4 ++++
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index 038e87a..f5cc22b 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -57,19 +57,20 @@ void Lexer::ParseString() {
 }
 
 Token Lexer::getNext() {
-    if (lookahead == '#') {
-        while (lookahead != EOF && lookahead != '\n') {
-            GetChar();
-        }
-        if (lookahead == '\n') {
+    while (true) {
+        if (lookahead == '#') {
+            while (lookahead != EOF && lookahead != '\n') {
+                GetChar();
+            }
+        } else if (isspace(lookahead)) {
             GetChar();
+        } else if (auto token = ScanToken()) {
+            return *token;
         }
-        return getNext();
-    } else if (isspace(lookahead)) {
-        GetChar();
-        return getNext();
     }
+}
 
+std::optional<Token> Lexer::ScanToken() {
     RecordTokLoc();
     if (lookahead == EOF) {
         return MakeToken(TokenKind::END);
@@ -188,7 +189,7 @@ Token Lexer::getNext() {
     } else {
         if (ignore) {
             GetChar();
-            return getNext();
+            return std::nullopt;
         } else {
             throw ParserError(fmt::format("{}:{}:No token beginning with '{}'",
                                           row, col, static_cast<char>(lookahead)));
diff --git a/src/common/parsing.h b/src/common/parsing.h
index 9a25dab..78437eb 100644
--- a/src/common/parsing.h
+++ b/src/common/parsing.h
@@ -98,6 +98,10 @@ public:
     double getFloat() const noexcept { return float_number; }
     std::string getStr() const noexcept { return str; }
 private:
+    /// Reads the token that begins at the lookahead, returns
+    /// nullopt if it was an ignored character.
+    std::optional<Token> ScanToken();
+
     TokenKind ParseNumber();
 
     Token MakeToken(TokenKind kind) {
-- 
2.43.0


From e99d7b32aa22cfe117ef6be968ccecd5d3a313f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 50/72] fix: property P19: breakpoint on a function without a
 line read a missing value

---
 src/dbg-cli/CLI.h | 54 +++++++++++++++++------------------------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 9c2ced0..73a7339 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -453,6 +453,21 @@ Most often, the correct address will be one below it.)";
         }
     }
 
+    /// Returns line which is mapped to the address and its source code,
+    /// or just the address if there is no such line.
+    std::string LocationToString(uint64_t addr) {
+        auto line = source.AddrToLine(addr);
+        if (!line) {
+            return fmt::format("address {}", addr);
+        }
+        auto location = fmt::format("line {} (addr {})", *line + 1, addr);
+        auto source_line = source.GetLine(*line);
+        if (source_line) {
+            location += fmt::format(": {}", *source_line);
+        }
+        return location;
+    }
+
     void HandleBreakpoint(std::string_view command) {
         // TODO: Lot of repeated code
         if (!process.Active()) {
@@ -469,50 +484,19 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "set", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.SetBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint set on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            fmt::print("Breakpoint set on {}\n", LocationToString(addr));
         } else if (check_command(subcommands, "remove", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.UnsetBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint removed from line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            fmt::print("Breakpoint removed from {}\n", LocationToString(addr));
         } else if (check_command(subcommands, "enable", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.EnableSoftwareBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint enabled on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            fmt::print("Breakpoint enabled on {}\n", LocationToString(addr));
         } else if (check_command(subcommands, "disable", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.DisableSoftwareBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint disabled on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            fmt::print("Breakpoint disabled on {}\n", LocationToString(addr));
         } else if (check_command(subcommands, "idisable", 2)) {
             auto address = ParseAddress(subcommands.at(1));
             process.DisableSoftwareBreakpoint(address);
-- 
2.43.0


From 6630c4a438627e2c6b9530e480750337e038be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 51/72] fix: property P19: bad address in memory set read a
 missing value

---
 src/dbg-cli/CLI.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 73a7339..8189632 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -843,6 +843,9 @@ Most often, the correct address will be one below it.)";
                 }
                 return *v;
             });
+            if (!cell) {
+                Error("Expected memory cell, got '{}'", subcommands.at(1));
+            }
             process.SetMemory(*cell, values);
         } else if (check_command(subcommands, "setstr", 3)) {
             auto cell = utils::svtonum<size_t>(subcommands.at(1));
-- 
2.43.0


From a7dd9a82b17378271fba1f5b000049e2d9608c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 52/72] fix: property P19: bad address in assemble ended the
 debugger

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 8189632..c580c02 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -782,7 +782,7 @@ Most often, the correct address will be one below it.)";
         if (check_command(subcommands, "interactive", 2)) {
             auto addr = utils::svtonum<size_t>(subcommands.at(1));
             if (!addr) {
-                Error("Expected address, got '{}'", subcommands.at(2));
+                Error("Expected address, got '{}'", subcommands.at(1));
             }
             InteractiveAssemble(*addr);
         } else {
-- 
2.43.0


From 7322ed303dbe407647091e779e8630fa2737eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 53/72] fix: property P19: printing a huge amount of lines
 never ended

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index c580c02..2a07b8c 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -348,7 +348,7 @@ public:
         for (size_t i = from; i < to; ++i) {
             auto line = source.GetLine(i);
             if (!line) {
-                continue;
+                break;
             }
             std::string pretty_rest;
             if (curr_loc && i == *curr_loc) {
-- 
2.43.0


From 7b78096f534fa39cfd80bf51f94ffb445e4a3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 54/72] fix: property P19: disassemble range includes the last
 address

---
 src/dbg-cli/CLI.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 2a07b8c..23b7ff3 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -694,7 +694,10 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "range", 3)) {
             auto begin = ParseAddress(subcommands.at(1));
             auto end = ParseAddress(subcommands.at(2));
-            auto text = process.ReadText(begin, end - begin);
+            if (end < begin) {
+                Error("Range {}-{} ends before it begins", begin, end);
+            }
+            auto text = process.ReadText(begin, end - begin + 1);
             PrintText(begin, text);
         } else if (check_command(subcommands, "from", 2)) {
             auto begin = ParseAddress(subcommands.at(1));
-- 
2.43.0


From 51214c3905ee29185e2d2c083a12a4a58960beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 55/72] fix: property P19: breakpoint unset from the help did
 not exist

---
 src/dbg-cli/CLI.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 23b7ff3..9d17061 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -485,7 +485,8 @@ Most often, the correct address will be one below it.)";
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.SetBreakpoint(addr);
             fmt::print("Breakpoint set on {}\n", LocationToString(addr));
-        } else if (check_command(subcommands, "remove", 2)) {
+        } else if (check_command(subcommands, "remove", 2)
+                || check_command(subcommands, "unset", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.UnsetBreakpoint(addr);
             fmt::print("Breakpoint removed from {}\n", LocationToString(addr));
@@ -505,7 +506,8 @@ Most often, the correct address will be one below it.)";
             auto address = ParseAddress(subcommands.at(1));
             process.EnableSoftwareBreakpoint(address);
             fmt::print("Breakpoint enabled at address {}\n", address);
-        } else if (check_command(subcommands, "iremove", 2)) {
+        } else if (check_command(subcommands, "iremove", 2)
+                || check_command(subcommands, "iunset", 2)) {
             auto address = ParseAddress(subcommands.at(1));
             process.UnsetBreakpoint(address);
             fmt::print("Breakpoint removed from address {}\n", address);
-- 
2.43.0


From fc6cab6b594275e12bc04bc3ce5466e9a35c8f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 56/72] fix: property P19: malformed file or failed connection
 ended the session

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 9d17061..9dff72c 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1124,7 +1124,7 @@ Most often, the correct address will be one below it.)";
             linenoiseHistoryAdd(line_raw);
             try {
                 HandleCommand(line);
-            } catch (const DebuggerError& err) {
+            } catch (const std::exception& err) {
                 fmt::print("Error: {}\n", err.what());
             }
 FREE_LINE:
-- 
2.43.0


From 2e2f130cd6d520a21f8fed05dff3b19f9e75889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 57/72] fix: property P19: failed run or attach left a
 terminated process behind

---
 src/dbg-cli/CLI.h       | 25 +++++++++++++++----------
 src/debugger/Native.cpp |  5 +++++
 src/debugger/Native.h   |  4 ++++
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 9dff72c..59ef820 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -984,14 +984,10 @@ Most often, the correct address will be one below it.)";
         if (main_command == "") {
             fmt::print("{}", USAGE);
         } else if (utils::is_prefix_of(main_command, "run")) {
-            ExitProcess();
             HandleRun(command);
             return;
         } else if (utils::is_prefix_of(main_command, "attach")) {
-            ExitProcess();
             Attach(command);
-            is_running = true;
-            process.WaitForDebugEvent();
             return;
         } else if (utils::is_prefix_of(main_command, "help")) {
             HandleHelp(command);
@@ -1067,6 +1063,8 @@ Most often, the correct address will be one below it.)";
             memory_size = *v;
         }
 
+        ExitProcess();
+
         auto m1 = std::make_unique<ThreadMessengerOwner>();
         auto m2 = std::make_unique<ThreadMessenger>(m1->GetOutQueue(), m1->GetInQueue());
 
@@ -1104,6 +1102,7 @@ Most often, the correct address will be one below it.)";
             if (t86vm.joinable()) {
                 t86vm.join();
             }
+            process.Release();
         }
     }
 
@@ -1161,22 +1160,28 @@ private:
     void Attach(std::string_view command) {
         auto subcommands = utils::split_v(command);
         if (subcommands.size() < 1) {
-            fmt::print("A port is needed, use `attach <port>`");
-            return;
+            Error("A port is needed, use `attach <port>`");
         }
         auto port_o = utils::svtonum<int>(subcommands.at(0));
         if (!port_o) {
-            fmt::print("Expected port, got '{}'", *port_o);
+            Error("Expected port, got '{}'", subcommands.at(0));
         }
-        auto debuggee = Native::Initialize(*port_o);
-        process = Native(std::move(debuggee));
+        Source new_source;
         if (fname) {
             std::ifstream file(*fname);
             if (!file) {
                 Error("Unable to open file '{}'\n", *fname);
             }
-            source = ParseDebugInfo(file);
+            new_source = ParseDebugInfo(file);
         }
+
+        ExitProcess();
+        auto debuggee = Native::Initialize(*port_o);
+        process = Native(std::move(debuggee));
+        source = std::move(new_source);
+
+        is_running = true;
+        process.WaitForDebugEvent();
     }
 
     Source ParseDebugInfo(std::ifstream& file) {
diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index d919537..006d688 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -409,6 +409,11 @@ void Native::Terminate() {
     process->Terminate();
 }
 
+void Native::Release() {
+    process.reset();
+    cached_event.reset();
+}
+
 bool Native::Active() const {
     return static_cast<bool>(process);
 }
diff --git a/src/debugger/Native.h b/src/debugger/Native.h
index d422705..f89f09c 100644
--- a/src/debugger/Native.h
+++ b/src/debugger/Native.h
@@ -146,6 +146,10 @@ public:
     /// be made after this.
     void Terminate();
 
+    /// Forgets about the process, the instance then does not represent
+    /// a running process. The breakpoints and watchpoints are kept.
+    void Release();
+
     /// Returns true if this instance represents a running process.
     bool Active() const;
 
-- 
2.43.0


From 02f888b6df54714d750fedc373cb22a26f3e18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 58/72] fix: property P19: continuing a program that could not
 be started never ended

---
 src/dbg-cli/CLI.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 59ef820..c0bdca2 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1088,9 +1088,13 @@ Most often, the correct address will be one below it.)";
         this->source = std::move(source);
 
         is_running = true;
-        process.WaitForDebugEvent();
+        auto e = process.WaitForDebugEvent();
         process.SetAllBreakpoints(std::move(bkpts));
         process.SetAllWatchpoints(std::move(wtchpts));
+        if (std::holds_alternative<CpuError>(e)) {
+            ReportDebugEvent(e);
+            return;
+        }
         fmt::print("Started process '{}'\n", *fname);
     }
 
@@ -1181,7 +1185,10 @@ private:
         source = std::move(new_source);
 
         is_running = true;
-        process.WaitForDebugEvent();
+        auto e = process.WaitForDebugEvent();
+        if (std::holds_alternative<CpuError>(e)) {
+            ReportDebugEvent(e);
+        }
     }
 
     Source ParseDebugInfo(std::ifstream& file) {
-- 
2.43.0


From 8887ffa2521e18d2a50d08b98f2f42681ba22052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 59/72] fix: property P19: machine too big for the memory ended
 the debugger

---
 src/dbg-cli/CLI.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index c0bdca2..3970718 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1063,18 +1063,19 @@ Most often, the correct address will be one below it.)";
             memory_size = *v;
         }
 
+        auto os = std::make_unique<tiny::t86::OS>(reg_count, float_reg_count,
+                                                  memory_size);
         ExitProcess();
 
         auto m1 = std::make_unique<ThreadMessengerOwner>();
         auto m2 = std::make_unique<ThreadMessenger>(m1->GetOutQueue(), m1->GetInQueue());
 
         t86vm = std::thread([](std::unique_ptr<ThreadMessenger> messenger,
-                           tiny::t86::Program program, size_t reg_cnt,
-                           double float_reg_cnt, size_t memory_size) {
-            tiny::t86::OS os(reg_cnt, float_reg_cnt, memory_size);
-            os.SetDebuggerComms(std::move(messenger));
-            os.Run(std::move(program));
-        }, std::move(m2), std::move(program), reg_count, float_reg_count, memory_size);
+                           tiny::t86::Program program,
+                           std::unique_ptr<tiny::t86::OS> os) {
+            os->SetDebuggerComms(std::move(messenger));
+            os->Run(std::move(program));
+        }, std::move(m2), std::move(program), std::move(os));
         
         auto t86dbg = std::make_unique<T86Process>(std::move(m1), reg_count,
                                                    float_reg_count, memory_size);
-- 
2.43.0


From 86316f2a62e8e766fc2fe2eae36b9df914a828c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 60/72] fix: property P19: breakpoint outside of a shorter
 program lost the other ones

---
 src/debugger/Native.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 006d688..8ae7757 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -272,10 +272,13 @@ void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
     for (auto&& bp: software_breakpoints) {
         DisableSoftwareBreakpoint(bp.first);
     }
+    software_breakpoints.clear();
 
+    auto text_size = TextSize();
     for (auto&& breakpoint: bkpts) {
         auto& [address, bp] = breakpoint;
-        if (bp.enabled) {
+        // The program may be shorter than it was
+        if (bp.enabled && address < text_size) {
             SetBreakpoint(address);
         } else {
             software_breakpoints[address] = SoftwareBreakpoint{.enabled = false};
@@ -284,8 +287,8 @@ void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
 }
 
 void Native::SetAllWatchpoints(std::map<uint64_t, Watchpoint> watchpoints) {
-    for (auto&& wp: this->watchpoints) {
-        RemoveWatchpoint(wp.first);
+    while (!this->watchpoints.empty()) {
+        RemoveWatchpoint(this->watchpoints.begin()->first);
     }
 
     for (auto&& wp: watchpoints) {
-- 
2.43.0


From 57340e3548a0c4a6342f760927a4a550864bfbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:13 +0000
Subject: [PATCH 61/72] fix: property P19: keep spaces inside of strings of
 memory setstr

---
 src/common/helpers.h | 6 +++++-
 src/dbg-cli/CLI.h    | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/helpers.h b/src/common/helpers.h
index 1867159..218f1dc 100644
--- a/src/common/helpers.h
+++ b/src/common/helpers.h
@@ -116,6 +116,7 @@ namespace utils {
     inline std::string squash_strip_whitespace(std::string_view s) {
         std::string result;
         bool last_space = true;
+        bool in_quotes = false;
         while (!s.empty() && std::isspace(s.back())) {
             s.remove_suffix(1);
         }
@@ -123,7 +124,10 @@ namespace utils {
             s.remove_prefix(1);
         }
         for (const auto c: s) {
-            if (!std::isspace(c)) {
+            if (c == '"') {
+                in_quotes = !in_quotes;
+            }
+            if (in_quotes || !std::isspace(c)) {
                 result.push_back(c);
                 last_space = false;
             } else if (!last_space) {
diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 3970718..61a1b28 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -857,7 +857,8 @@ Most often, the correct address will be one below it.)";
             if (!cell) {
                 Error("Expected memory cell and string");
             }
-            auto str = utils::join(std::next(subcommands.begin(), 2), subcommands.end());
+            // The string may contain spaces, take the rest of the command as is.
+            auto str = std::string(command.substr(subcommands.at(2).data() - command.data()));
             auto unescaped_str = ParseString(str);
             log_info("setstr: string = '{}'", unescaped_str);
             std::vector<int64_t> data;
-- 
2.43.0


From b2617084ca73176f2643a7cc570e8917af7a86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 62/72] fix: property P21: nothing could be run after the
 connection was lost

---
 src/dbg-cli/CLI.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 61a1b28..876b9ae 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1104,7 +1104,12 @@ Most often, the correct address will be one below it.)";
     // Cleanly exits the underlying VM if running.
     void ExitProcess() {
         if (process.Active()) {
-            process.Terminate();
+            try {
+                process.Terminate();
+            } catch (const std::exception& err) {
+                // An attached VM can already be gone.
+                log_info("Unable to terminate the process: {}", err.what());
+            }
             if (t86vm.joinable()) {
                 t86vm.join();
             }
-- 
2.43.0


From 418b214b00da6f04aa148caaad001120a7b8aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 63/72] fix: property P21: reading registers over a lost
 connection read a missing value

---
 src/debugger/T86Process.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debugger/T86Process.h b/src/debugger/T86Process.h
index e6172eb..b6b6e55 100644
--- a/src/debugger/T86Process.h
+++ b/src/debugger/T86Process.h
@@ -91,6 +91,9 @@ private:
     template<typename T>
     std::map<std::string, T> FetchRegistersOfType() {
         auto regs = process->Receive();
+        if (!regs) {
+            throw DebuggerError("Reading of registers failed, no response");
+        }
         auto lines = utils::split_v(*regs, '\n');
         std::map<std::string, T> result;
         for (const auto& line: lines) {
-- 
2.43.0


From e6b160f4fbc24656400e280c6b01f1a8e23fb2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 64/72] fix: property P21: lost connection ended the machine by
 an exception

---
 src/t86/os.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/t86/os.cpp b/src/t86/os.cpp
index 7e7b552..6e8526b 100644
--- a/src/t86/os.cpp
+++ b/src/t86/os.cpp
@@ -63,7 +63,12 @@ bool OS::Run(Program program) {
 
 void OS::DebuggerMessage(Debug::BreakReason reason) {
     if (debug_interface) {
-        stop = !debug_interface->Work(reason);
+        try {
+            stop = !debug_interface->Work(reason);
+        } catch (const TCP::TCPError& e) {
+            log_error("Connection with the debugger was lost: {}", e.what());
+            stop = true;
+        }
     } else {
         log_info("Call to debugger interface was initiated but no "
                     "debugger is connected!");
-- 
2.43.0


From c81663f3b79efd0334024338f2b0bee81c75d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 65/72] fix: property P21: failed accept was taken for a
 connection

---
 src/common/TCP.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index 7b60440..70dcce1 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -131,7 +131,7 @@ public:
 protected:
     bool initialized = false;
     int port;
-    int sock;
+    int sock{-1};
 };
 
 class TCPClient : public TCP<TCPClient> {
@@ -160,7 +160,9 @@ public:
     }
 
     ~TCPClient() {
-        close(sock);
+        if (sock >= 0) {
+            close(sock);
+        }
     }
 };
 
@@ -205,6 +207,9 @@ public:
 
         int addrlen = sizeof(address);
         sock = accept(server_fd, (sockaddr*)&address, (socklen_t*)&addrlen);
+        if (sock < 0) {
+            throw TCPError("Unable to accept a connection");
+        }
     }
 
     ~TCPServer() {
-- 
2.43.0


From c0c98b25eff2444484015dff4e8134a982b7c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:28 +0000
Subject: [PATCH 66/72] fix: property P22: configured processor had two memory
 cells and wrong float registers

---
 src/t86/cpu.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/t86/cpu.cpp b/src/t86/cpu.cpp
index 34d7ccc..0442771 100644
--- a/src/t86/cpu.cpp
+++ b/src/t86/cpu.cpp
@@ -339,8 +339,11 @@ namespace tiny::t86 {
     }
 
     Cpu::Cpu() : Cpu(Cpu::Config::instance().registerCnt(),
+                     Cpu::Config::instance().floatRegisterCnt(),
                      Cpu::Config::instance().aluCnt(),
-                     Cpu::Config::instance().reservationStationEntriesCnt()) {}
+                     Cpu::Config::instance().reservationStationEntriesCnt(),
+                     Cpu::Config::instance().ramSize(),
+                     Cpu::Config::instance().ramGatesCount()) {}
 
     MemoryWrite::Id Cpu::registerPendingWrite(Memory::Immediate mem) {
         return writesManager_.registerPendingWrite(mem.index());
-- 
2.43.0


From 3dd4fd134a20d9bd6027a104e230815e1fa8eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:45 +0000
Subject: [PATCH 67/72] fix: property P24: average fetch and decode stalls
 counted the instructions' own ticks

---
 src/t86/utils/stats_logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t86/utils/stats_logger.cpp b/src/t86/utils/stats_logger.cpp
index 201f9ce..fbf345c 100644
--- a/src/t86/utils/stats_logger.cpp
+++ b/src/t86/utils/stats_logger.cpp
@@ -125,8 +125,8 @@ namespace tiny::t86 {
     void StatsLogger::processAverageLifetime(std::ostream& os, const StatsLogger::InstructionLifeTime& lt, std::size_t totalCount) {
         os << "  Times executed: " << totalCount << '\n'
            << "  Average instruction lifetime: " << static_cast<double>(lt.totalTime()) / totalCount << " ticks\n"
-           << "    Average fetch stalls: " << static_cast<double>(lt.fetch - 1) / totalCount << " ticks\n"
-           << "    Average decode stalls: " << static_cast<double>(lt.decode - 1) / totalCount << " ticks\n"
+           << "    Average fetch stalls: " << static_cast<double>(lt.fetch - totalCount) / totalCount << " ticks\n"
+           << "    Average decode stalls: " << static_cast<double>(lt.decode - totalCount) / totalCount << " ticks\n"
            << "    Average operand fetching stalls: " << static_cast<double>(lt.fetchingStalls) / totalCount << " ticks\n";
 
         std::size_t totalWaitingForRegisters = 0;
-- 
2.43.0


From c4bb7ab136d0bb8d645e53fd546d14f413439db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:11 +0000
Subject: [PATCH 68/72] fix: property P25: t86-cli aborted on an option value
 that is not a number

---
 src/t86-cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index 693e76d..c00c998 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -45,7 +45,7 @@ int main(int argc, char* argv[]) {
 
     try {
         args.parse_args(argc, argv);
-    } catch (const std::runtime_error& err) {
+    } catch (const std::exception& err) {
         std::cerr << err.what() << "\n";
         std::cerr << args;
         std::exit(1);
-- 
2.43.0


From 749ad73dce0d7ac37acfe8a36243e1198d587856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 69/72] fix: property P25: t86-cli aborted on a register count
 or memory size that cannot be allocated

---
 src/t86-cli/main.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index c00c998..2c526c2 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -1,5 +1,6 @@
 #include <fstream>
 #include <iostream>
+#include <optional>
 #include <argparse/argparse.hpp>
 
 #include "TCP.h"
@@ -72,7 +73,16 @@ int main(int argc, char* argv[]) {
     size_t fltregs = args.get<size_t>("--float-register-cnt");
     size_t memsize = args.get<size_t>("--memory-size");
 
-    OS os(regs, fltregs, memsize);
+    std::optional<OS> machine;
+    try {
+        machine.emplace(regs, fltregs, memsize);
+    } catch (const std::exception& err) {
+        // std::length_error or std::bad_alloc
+        std::cerr << "Unable to create a machine of the requested size: "
+                  << err.what() << "\n";
+        return 1;
+    }
+    OS& os = *machine;
 
     if (args["debug"] == true) {
         auto m = std::make_unique<TCP::TCPServer>(DEFAULT_DBG_PORT);
-- 
2.43.0


From 885218b141190422d5f71b587e8d4290db1a1185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 70/72] fix: property P25: t86-cli aborted on a program file
 whose first characters are no token

---
 src/t86-cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index 2c526c2..c191958 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -59,9 +59,9 @@ int main(int argc, char* argv[]) {
         return 3;
     }
 
-    Parser parser(f);
     tiny::t86::Program program;
     try {
+        Parser parser(f);
         program = parser.Parse();
         // program.dump();
     } catch (ParserError &err) {
-- 
2.43.0


From d0250dcfb43246539556cd16bdafbf37a24d8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:42 +0000
Subject: [PATCH 71/72] fix: property P25: t86-cli aborted when it could not
 open the debugging port

---
 src/t86-cli/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index c191958..4d1c419 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -86,7 +86,12 @@ int main(int argc, char* argv[]) {
 
     if (args["debug"] == true) {
         auto m = std::make_unique<TCP::TCPServer>(DEFAULT_DBG_PORT);
-        m->Initialize();
+        try {
+            m->Initialize();
+        } catch (const TCP::TCPError& err) {
+            std::cerr << err.what() << "\n";
+            return 4;
+        }
         os.SetDebuggerComms(std::move(m));
         log_info("Listening for debugger connections");
     }
-- 
2.43.0


From 00c82395657030d6416764edb19df3936a8db28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:24 +0000
Subject: [PATCH 72/72] fix: property P20 breakpoint list counts source lines
 from one

Every command takes source lines counted from one and every other message
shows them so; only the listing of the breakpoints was counted from zero.
---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 876b9ae..4402f9e 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -516,7 +516,7 @@ Most often, the correct address will be one below it.)";
             for (auto&& [addr, b]: bps) {
                 auto line = source.AddrToLine(addr);
                 fmt::print("addr: {}{}; {}", addr,
-                        line ? fmt::format(", line: {}", *line) : "",
+                        line ? fmt::format(", line: {}", *line + 1) : "",
                         b.enabled ? "enabled" : "disabled");
                 auto fun = source.GetFunctionNameByAddress(addr);
                 if (fun) {
-- 
2.43.0

