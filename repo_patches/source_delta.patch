From 8099605cb81e650ebcfcee11a3db3bb0192d433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 01/68] fix: do not consume operators as part of a number in
 constraints

The lexer took every digit, 'e', '+' and '-' following a digit as one number,
so '1+2' or '3-A' were read as one unreadable literal and silently clamped.
---
 include/vara/Feature/ConstraintParser.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 57f8aa9..d5d9d18 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -244,9 +244,19 @@ private:
   }
 
   static ResultTy munchNumber(const llvm::StringRef &Str) {
-    auto Munch = Str.take_while([](auto C) {
-      return llvm::isDigit(C) || C == 'e' || C == 'E' || C == '+' || C == '-';
-    });
+    auto Munch = Str.take_while([](auto C) { return llvm::isDigit(C); });
+
+    // The exponent only belongs to the number if it has at least one digit.
+    auto Exponent = Str.drop_front(Munch.size());
+    if (Exponent.consume_front("e") || Exponent.consume_front("E")) {
+      if (!Exponent.consume_front("+")) {
+        Exponent.consume_front("-");
+      }
+      auto Digits = Exponent.take_while([](auto C) { return llvm::isDigit(C); });
+      if (!Digits.empty()) {
+        Munch = Str.take_front(Digits.end() - Str.begin());
+      }
+    }
 
     return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NUMBER,
                             Munch.lower()),
-- 
2.43.0


From a958e4452e58e6dd4b6f6e6acd9e4d89e65b68d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 02/68] fix: do not access the last token of an empty
 constraint text

---
 include/vara/Feature/ConstraintParser.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index d5d9d18..118c9f3 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -129,9 +129,11 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
-        Kind != ConstraintToken::ConstraintTokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() !=
+             ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
+         TokenList.back().getKind() !=
+             ConstraintToken::ConstraintTokenKind::ERROR)) {
       TokenList.push_back(
           ConstraintToken(ConstraintToken::ConstraintTokenKind::END_OF_FILE));
     }
-- 
2.43.0


From 8dff030770e1263d925c2a07b32ea364b5a6067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 03/68] fix: parse the operators and literals that constraints
 print

XOR, division and negative integers are printed by constraints, and so written
to model files, but the constraint parser could not read them back.
---
 include/vara/Feature/ConstraintParser.h | 36 ++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 118c9f3..ab03522 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -54,8 +54,10 @@ public:
     OR,
     PLUS,
     R_PAR,
+    SLASH,
     STAR,
-    WHITESPACE
+    WHITESPACE,
+    XOR
   };
 
   ConstraintToken(ConstraintTokenKind Kind) : Kind(Kind) {}
@@ -71,6 +73,7 @@ public:
 
   [[nodiscard]] PrecedenceTy calcPrecedence() const {
     switch (Kind) {
+    case ConstraintTokenKind::SLASH:
     case ConstraintTokenKind::STAR:
       return 1;
     case ConstraintTokenKind::PLUS:
@@ -87,6 +90,7 @@ public:
     case ConstraintTokenKind::AND:
       return 5;
     case ConstraintTokenKind::OR:
+    case ConstraintTokenKind::XOR:
       return 6;
     case ConstraintTokenKind::IMPLIES:
       return 7;
@@ -174,6 +178,10 @@ private:
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NEG), 1};
     case '*':
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::STAR), 1};
+    case '/':
+      return {ConstraintToken(ConstraintToken::ConstraintTokenKind::SLASH), 1};
+    case '^':
+      return {ConstraintToken(ConstraintToken::ConstraintTokenKind::XOR), 1};
     case '&':
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::AND), 1};
     case '|':
@@ -374,7 +382,9 @@ private:
       case ConstraintToken::ConstraintTokenKind::NOT_EQUAL:
       case ConstraintToken::ConstraintTokenKind::OR:
       case ConstraintToken::ConstraintTokenKind::PLUS:
-      case ConstraintToken::ConstraintTokenKind::STAR: {
+      case ConstraintToken::ConstraintTokenKind::SLASH:
+      case ConstraintToken::ConstraintTokenKind::STAR:
+      case ConstraintToken::ConstraintTokenKind::XOR: {
         auto NextPrecedence = peek().calcPrecedence();
         if (NextPrecedence >= Precedence) {
           return LHS;
@@ -451,6 +461,10 @@ private:
         consume(ConstraintToken::ConstraintTokenKind::STAR);
         return createConstraint<MultiplicationConstraint>(
             std::move(LHS), NestingLevel + 1, Precedence);
+      case ConstraintToken::ConstraintTokenKind::SLASH:
+        consume(ConstraintToken::ConstraintTokenKind::SLASH);
+        return createConstraint<DivisionConstraint>(
+            std::move(LHS), NestingLevel + 1, Precedence);
       case ConstraintToken::ConstraintTokenKind::PLUS:
         consume(ConstraintToken::ConstraintTokenKind::PLUS);
         return createConstraint<AdditionConstraint>(
@@ -475,6 +489,10 @@ private:
         consume(ConstraintToken::ConstraintTokenKind::OR);
         return createConstraint<OrConstraint>(std::move(LHS), NestingLevel + 1,
                                               Precedence);
+      case ConstraintToken::ConstraintTokenKind::XOR:
+        consume(ConstraintToken::ConstraintTokenKind::XOR);
+        return createConstraint<XorConstraint>(std::move(LHS), NestingLevel + 1,
+                                               Precedence);
       case ConstraintToken::ConstraintTokenKind::IMPLIES:
         consume(ConstraintToken::ConstraintTokenKind::IMPLIES);
         return createConstraint<ImpliesConstraint>(
@@ -514,11 +532,12 @@ private:
       case ConstraintToken::ConstraintTokenKind::IMPLIES:
       case ConstraintToken::ConstraintTokenKind::LESS:
       case ConstraintToken::ConstraintTokenKind::LESS_EQUAL:
-      case ConstraintToken::ConstraintTokenKind::MINUS:
       case ConstraintToken::ConstraintTokenKind::NOT_EQUAL:
       case ConstraintToken::ConstraintTokenKind::OR:
       case ConstraintToken::ConstraintTokenKind::PLUS:
+      case ConstraintToken::ConstraintTokenKind::SLASH:
       case ConstraintToken::ConstraintTokenKind::STAR:
+      case ConstraintToken::ConstraintTokenKind::XOR:
         llvm::errs()
             << "Syntax error: Unexpected token before unary expression.\n";
         return nullptr;
@@ -533,6 +552,17 @@ private:
         assert(peek().getValue().has_value());
         return std::make_unique<PrimaryIntegerConstraint>(
             parseInteger(*next().getValue(), Line));
+      case ConstraintToken::ConstraintTokenKind::MINUS:
+        // Sign of a negative integer
+        consume(ConstraintToken::ConstraintTokenKind::MINUS);
+        if (peek().getKind() != ConstraintToken::ConstraintTokenKind::NUMBER) {
+          llvm::errs()
+              << "Syntax error: Unexpected token before unary expression.\n";
+          return nullptr;
+        }
+        assert(peek().getValue().has_value());
+        return std::make_unique<PrimaryIntegerConstraint>(
+            parseInteger("-" + *next().getValue(), Line));
       case ConstraintToken::ConstraintTokenKind::NOT:
         consume(ConstraintToken::ConstraintTokenKind::NOT);
         return createConstraint<NotConstraint>(NestingLevel + 1,
-- 
2.43.0


From 820b3f5ec83992cc4104d30a469dcb8ea28f56fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 04/68] fix: escape operands in the HTML form of constraints

Only the outermost operator was escaped, nested operands and feature names
were inserted as plain text.
---
 include/vara/Feature/Constraint.h | 50 ++++++-------------------------
 1 file changed, 9 insertions(+), 41 deletions(-)

diff --git a/include/vara/Feature/Constraint.h b/include/vara/Feature/Constraint.h
index 45062aa..3304646 100644
--- a/include/vara/Feature/Constraint.h
+++ b/include/vara/Feature/Constraint.h
@@ -1,8 +1,10 @@
 #ifndef VARA_FEATURE_CONSTRAINT_H
 #define VARA_FEATURE_CONSTRAINT_H
 
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/FormatVariadic.h"
+#include "llvm/Support/raw_ostream.h"
 
 #include <cassert>
 #include <memory>
@@ -78,7 +80,13 @@ public:
 
   [[nodiscard]] virtual std::string toString() const = 0;
 
-  [[nodiscard]] virtual std::string toHTML() const { return toString(); }
+  /// \return textual representation with all markup characters escaped
+  [[nodiscard]] virtual std::string toHTML() const {
+    std::string HTML;
+    llvm::raw_string_ostream OS(HTML);
+    llvm::printHTMLEscaped(toString(), OS);
+    return OS.str();
+  }
 
   virtual bool accept(ConstraintVisitor &V) = 0;
 
@@ -175,11 +183,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &amp; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_AND;
   }
@@ -246,11 +249,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_IMPLIES;
   }
@@ -273,11 +271,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; !{1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EXCLUDES;
   }
@@ -301,11 +294,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;=&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EQUIVALENCE;
   }
@@ -418,11 +406,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS;
   }
@@ -445,11 +428,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER;
   }
@@ -472,11 +450,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS_EQUAL;
   }
@@ -500,11 +473,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER_EQUAL;
   }
-- 
2.43.0


From 69a61ffc6bf972697d43cc771ccde8e6a3dfea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 05/68] fix: do not build a constraint from already moved parts

Calling ConstraintBuilder::build() a second time returned a constraint whose
features were null pointers.
---
 include/vara/Feature/ConstraintBuilder.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/ConstraintBuilder.h b/include/vara/Feature/ConstraintBuilder.h
index b21a249..c35fa92 100644
--- a/include/vara/Feature/ConstraintBuilder.h
+++ b/include/vara/Feature/ConstraintBuilder.h
@@ -132,7 +132,11 @@ public:
       llvm::errs() << "Syntax error: Incomplete constraint.\n";
       return nullptr;
     }
-    return Root->build();
+    auto Result = Root->build();
+    // The built parts are moved into the result and must not be built again.
+    Root = nullptr;
+    Head = &Root;
+    return Result;
   }
 
   /// Parenthesizes intermediate constraint.
-- 
2.43.0


From 35163fb0cc057045fb03eeb7a1cc6aab394aadc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 06/68] fix: convert capitalised truth values to their value

'True' and 'TRUE' were recognised as boolean, but converted to false.
---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index f09d957..fe0f775 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -111,7 +111,7 @@ private:
   convert(llvm::StringRef ValueToConvert) {
     // Parse the value
     if (ValueToConvert.lower() == "true" || ValueToConvert.lower() == "false") {
-      return ValueToConvert == "true";
+      return ValueToConvert.lower() == "true";
     }
     int64_t IntegerValue;
     if (!ValueToConvert.getAsInteger(0, IntegerValue)) {
-- 
2.43.0


From 1b23e00f1df701b7891ca0dad89119880c4be8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 07/68] fix: let a constant configuration begin at its first
 option

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index fe0f775..0ec80ee 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -143,7 +143,7 @@ public:
   [[nodiscard]] llvm::StringMapConstIterator<
       std::unique_ptr<ConfigurationOption>>
   begin() const {
-    return OptionMappings.end();
+    return OptionMappings.begin();
   }
 
   [[nodiscard]] llvm::StringMapIterator<std::unique_ptr<ConfigurationOption>>
-- 
2.43.0


From 61cb7addec2ce1a7f218d6617b4e347cfe9288c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 08/68] fix: reject invalid numbers in step functions

Numbers such as '1.2.3' left the parsed operand uninitialized.
---
 include/vara/Feature/StepFunctionParser.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index faf7288..a8d1b3f 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -199,8 +199,12 @@ private:
         return {*next().getValue()};
       case StepFunctionToken::TokenKind::NUMBER:
         assert(peek().getValue().has_value());
+        auto Value = *next().getValue();
         double Number;
-        llvm::StringRef(*next().getValue()).getAsDouble(Number);
+        if (llvm::StringRef(Value).getAsDouble(Number)) {
+          llvm::errs() << "Lexical error: Invalid number '" << Value << "'\n";
+          return std::nullopt;
+        }
         return {Number};
       }
     }
-- 
2.43.0


From e00edd81f7da31830f45b9f82341335a2020f906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 09/68] fix: do not access the last token of an empty step
 function

---
 include/vara/Feature/StepFunctionParser.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index a8d1b3f..a5b3081 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -68,9 +68,10 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != StepFunctionToken::TokenKind::END_OF_FILE &&
-        Kind != StepFunctionToken::TokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() !=
+             StepFunctionToken::TokenKind::END_OF_FILE &&
+         TokenList.back().getKind() != StepFunctionToken::TokenKind::ERROR)) {
       TokenList.push_back(
           StepFunctionToken(StepFunctionToken::TokenKind::END_OF_FILE));
     }
-- 
2.43.0


From ca1d078780ff6543c1826c4db13aebeadbc58901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 10/68] fix: print step functions so that they can be read back

Constants were printed with two decimals, which changed the function, and
negative constants could not be parsed.
---
 include/vara/Feature/StepFunction.h       | 22 ++++++++++++++++------
 include/vara/Feature/StepFunctionParser.h | 14 +++++++++++---
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/vara/Feature/StepFunction.h b/include/vara/Feature/StepFunction.h
index 19464f4..8061e47 100644
--- a/include/vara/Feature/StepFunction.h
+++ b/include/vara/Feature/StepFunction.h
@@ -4,6 +4,8 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/FormatVariadic.h"
 
+#include <array>
+#include <charconv>
 #include <cmath>
 #include <memory>
 #include <variant>
@@ -62,30 +64,38 @@ public:
       switch (Op) {
       case StepOperation::ADDITION:
         return llvm::formatv("{0} + {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             numberToString(std::get<double>(RHS)));
       case StepOperation::MULTIPLICATION:
         return llvm::formatv("{0} * {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             numberToString(std::get<double>(RHS)));
       case StepOperation::EXPONENTIATION:
         return llvm::formatv("{0} ^ {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             numberToString(std::get<double>(RHS)));
       }
     }
     assert(std::holds_alternative<double>(LHS));
     switch (Op) {
     case StepOperation::ADDITION:
-      return llvm::formatv("{0} + {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} + {1}", numberToString(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     case StepOperation::MULTIPLICATION:
-      return llvm::formatv("{0} * {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} * {1}", numberToString(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     case StepOperation::EXPONENTIATION:
-      return llvm::formatv("{0} ^ {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} ^ {1}", numberToString(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     }
   }
 
 private:
+  /// Prints the shortest decimal number that is read as exactly this value.
+  [[nodiscard]] static std::string numberToString(double Value) {
+    std::array<char, 512> Buffer{};
+    auto Result = std::to_chars(Buffer.data(), Buffer.data() + Buffer.size(),
+                                Value, std::chars_format::fixed);
+    return {Buffer.data(), Result.ptr};
+  }
+
   StepOperation Op;
   OperandVariantType LHS;
   OperandVariantType RHS;
diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index a5b3081..b067d32 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -87,7 +87,8 @@ private:
         ('A' <= Str.front() && Str.front() <= 'Z')) {
       return munchIdentifier(Str);
     }
-    if (('0' <= Str.front() && Str.front() <= '9') || Str.front() == '.') {
+    if (isNumberStart(Str) ||
+        (Str.front() == '-' && isNumberStart(Str.drop_front()))) {
       return munchNumber(Str);
     }
 
@@ -120,9 +121,16 @@ private:
             Munch.size()};
   }
 
+  static bool isNumberStart(const llvm::StringRef &Str) {
+    return !Str.empty() && (llvm::isDigit(Str.front()) || Str.front() == '.');
+  }
+
   static ResultTy munchNumber(const llvm::StringRef &Str) {
-    auto Munch =
-        Str.take_while([](auto C) { return llvm::isDigit(C) || C == '.'; });
+    auto Sign = Str.take_front(Str.front() == '-' ? 1 : 0);
+    auto Digits = Str.drop_front(Sign.size()).take_while([](auto C) {
+      return llvm::isDigit(C) || C == '.';
+    });
+    auto Munch = Str.take_front(Sign.size() + Digits.size());
     return {
         StepFunctionToken(StepFunctionToken::TokenKind::NUMBER, Munch.lower()),
         Munch.size()};
-- 
2.43.0


From 2e685e13b980c8b211540f923955a20680b117b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 11/68] fix: compare the revision range of source ranges

Ranges that only differ in their revision range were treated as equal, so
updating, removing or merging locations picked or dropped the wrong one.
---
 include/vara/Feature/FeatureSourceRange.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureSourceRange.h b/include/vara/Feature/FeatureSourceRange.h
index 8ef57b0..f164f63 100644
--- a/include/vara/Feature/FeatureSourceRange.h
+++ b/include/vara/Feature/FeatureSourceRange.h
@@ -44,6 +44,14 @@ public:
                                  : llvm::StringRef();
     }
 
+    inline bool operator==(const FeatureRevisionRange &Other) const {
+      return Introduced == Other.Introduced && Removed == Other.Removed;
+    }
+
+    inline bool operator!=(const FeatureRevisionRange &Other) const {
+      return !(*this == Other);
+    }
+
   private:
     std::string Introduced;
     std::optional<std::string> Removed;
@@ -246,7 +254,8 @@ public:
   inline bool operator==(const FeatureSourceRange &Other) const {
     return CategoryKind == Other.CategoryKind and Path == Other.Path and
            Start == Other.Start and End == Other.End and
-           MemberOffset == Other.MemberOffset;
+           MemberOffset == Other.MemberOffset and
+           RevisionRange == Other.RevisionRange;
   }
 
   inline bool operator!=(const FeatureSourceRange &Other) const {
-- 
2.43.0


From 8f2fc97283e1d90c8aad2e325a46163dff9aa3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 12/68] fix: do not erase a location that does not exist

---
 include/vara/Feature/Feature.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/Feature.h b/include/vara/Feature/Feature.h
index d44e9ec..484d5e4 100644
--- a/include/vara/Feature/Feature.h
+++ b/include/vara/Feature/Feature.h
@@ -99,7 +99,8 @@ public:
 
   std::vector<FeatureSourceRange>::iterator
   removeLocation(const FeatureSourceRange &Fsr) {
-    return Locations.erase(std::find(Locations.begin(), Locations.end(), Fsr));
+    auto Loc = std::find(Locations.begin(), Locations.end(), Fsr);
+    return Loc != Locations.end() ? Locations.erase(Loc) : Loc;
   }
 
   bool updateLocation(const FeatureSourceRange &OldFsr,
-- 
2.43.0


From 91ba787ac2ff0edb1744ca8976cc59cea8345759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 13/68] fix: report unsatisfiable models as not valid

---
 include/vara/Solver/ConfigurationFactory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Solver/ConfigurationFactory.h b/include/vara/Solver/ConfigurationFactory.h
index a4b4d2f..6cdad07 100644
--- a/include/vara/Solver/ConfigurationFactory.h
+++ b/include/vara/Solver/ConfigurationFactory.h
@@ -160,7 +160,8 @@ public:
   static bool isValid(feature::FeatureModel &Model,
                       const vara::solver::SolverType Type = SolverType::Z3) {
     auto S = SolverFactory::initializeSolver(Model, Type);
-    return S->hasValidConfigurations();
+    auto R = S->hasValidConfigurations();
+    return R && R.extractValue();
   }
 };
 
-- 
2.43.0


From 925c9d4e1a9559006b8ea2963c74bda5d650e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 14/68] fix: encode exclusive or in the Z3 solver

---
 lib/Solver/Z3Solver.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 1df128a..83af495 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -321,8 +321,7 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::BinaryConstraint *C) {
     Z3ConstraintExpression = Left - Z3ConstraintExpression;
     break;
   case feature::Constraint::ConstraintKind::CK_XOR:
-    Z3ConstraintExpression = z3::implies(Left, !Z3ConstraintExpression) &&
-                             z3::implies(Z3ConstraintExpression, !Left);
+    Z3ConstraintExpression = Left != Z3ConstraintExpression;
     break;
   default:
     llvm_unreachable(
-- 
2.43.0


From 7bc67a3b85c8aa9edafb5a35062fcf4559857b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 15/68] fix: store negative values in configurations as plain
 numbers

---
 lib/Solver/Z3Solver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 83af495..13cad4c 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -241,8 +241,13 @@ Z3Solver::getCurrentConfiguration() {
   for (const auto &Entry : OptionToVariableMapping) {
     const z3::expr OptionExpr = *Entry.getValue();
     const z3::expr Value = CurrentModel->eval(OptionExpr, true);
+    // Z3 prints negative numbers as an s-expression, e.g., '(- 5)'
+    std::string ValueString;
+    if (!Value.is_numeral(ValueString)) {
+      ValueString = Value.to_string();
+    }
     Config->setConfigurationOption(Entry.getKey(),
-                                   llvm::StringRef(Value.to_string()));
+                                   llvm::StringRef(ValueString));
   }
   return Config;
 }
-- 
2.43.0


From b7529a45863d745e69c43ab76b4e15c190eaef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 16/68] fix: enumerate ranges without or with non-advancing
 step functions

---
 lib/Solver/Z3Solver.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 13cad4c..373a786 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -46,7 +46,25 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
       std::vector<int64_t> Vals;
       while (Step <= Range.second) {
         Vals.insert(Vals.begin(), Step);
-        Step = StepFunction->next(Step);
+        if (Step == Range.second) {
+          break;
+        }
+        // Without a step function, the range contains all of its values
+        auto Next = Step + 1;
+        if (StepFunction) {
+          const double NextValue =
+              StepFunction->next(static_cast<double>(Step));
+          // The range ends if the next value is not representable
+          if (!(NextValue >= -0x1p63 && NextValue < 0x1p63)) {
+            break;
+          }
+          Next = static_cast<int64_t>(NextValue);
+        }
+        // ... or if the step function makes no progress
+        if (Next <= Step) {
+          break;
+        }
+        Step = Next;
       }
       if (auto R = addFeature(F->getName().str(), Vals); !R) {
         return R;
-- 
2.43.0


From 9322fce2ff42eac3636e9882d47abc1e0a882eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 17/68] fix: add binary features without parent to the Z3
 solver

---
 lib/Solver/Z3Solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 373a786..be110e9 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -213,6 +213,9 @@ Result<SolverErrorCode>
 Z3Solver::setBinaryFeatureConstraints(const feature::BinaryFeature &Feature,
                                       bool IsInAlternativeGroup) {
   // Add constraint to parent
+  if (!Feature.getParentFeature()) {
+    return Ok();
+  }
   Solver->add(z3::implies(
       *OptionToVariableMapping[Feature.getName()],
       *OptionToVariableMapping[Feature.getParentFeature()->getName()]));
-- 
2.43.0


From eb1d5dc301ce16711f1b3900f7701b6faa3eef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 18/68] fix: refuse constraints over features missing in the Z3
 solver

---
 lib/Solver/Z3Solver.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index be110e9..a5242a8 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -143,11 +143,19 @@ Result<SolverErrorCode>
 Z3Solver::addRelationship(const feature::Relationship &R) {
   const auto *Parent =
       reinterpret_cast<const feature::Feature *>(R.getParent());
+  if (OptionToVariableMapping.find(Parent->getName()) ==
+      OptionToVariableMapping.end()) {
+    return PARENT_NOT_PRESENT;
+  }
   auto ParentOption = Context.bool_const(Parent->getName().str().c_str());
   z3::expr_vector V(Context);
   for (const auto &Child : R.children()) {
     const auto *ChildFeature =
         reinterpret_cast<const feature::Feature *>(Child);
+    if (OptionToVariableMapping.find(ChildFeature->getName()) ==
+        OptionToVariableMapping.end()) {
+      return NOT_ALL_CONSTRAINTS_PROCESSED;
+    }
     V.push_back(Context.bool_const(ChildFeature->getName().str().c_str()));
   }
   switch (R.getKind()) {
@@ -166,7 +174,7 @@ Z3Solver::addConstraint(feature::Constraint &ConstraintToAdd) {
   Z3SolverConstraintVisitor SCV(this);
   const bool Succ = SCV.addConstraint(&ConstraintToAdd);
   if (!Succ) {
-    return SolverErrorCode::NOT_SUPPORTED;
+    return SolverErrorCode::NOT_ALL_CONSTRAINTS_PROCESSED;
   }
   return Ok();
 }
@@ -181,7 +189,7 @@ Result<SolverErrorCode> Z3Solver::addMixedConstraint(
       ExprKind == feature::FeatureModel::MixedConstraint::ExprKind::NEG,
       Req == feature::FeatureModel::MixedConstraint::Req::ALL);
   if (!Succ) {
-    return SolverErrorCode::NOT_SUPPORTED;
+    return SolverErrorCode::NOT_ALL_CONSTRAINTS_PROCESSED;
   }
   return Ok();
 }
@@ -377,6 +385,11 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::UnaryConstraint *C) {
 
 bool Z3SolverConstraintVisitor::visit(
     vara::feature::PrimaryFeatureConstraint *C) {
+  // All features of a constraint have to be added before the constraint
+  if (S->OptionToVariableMapping.find(C->getFeature()->getName()) ==
+      S->OptionToVariableMapping.end()) {
+    return false;
+  }
   if (C->getFeature()->getKind() ==
       vara::feature::Feature::FeatureKind::FK_NUMERIC) {
     Z3ConstraintExpression =
-- 
2.43.0


From 5213abceeba33d18b69bff849bdb3fd5b68a2e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 19/68] fix: refuse edges that make a node its own ancestor

---
 include/vara/Feature/FeatureModelTransaction.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1946bc1..a93ad94 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -783,8 +783,11 @@ public:
       return MISSING_PARENT;
     }
 
-    if (C == P) {
-      return RECURSIVE_EDGE;
+    // A node must not become its own (transitive) parent
+    for (auto *N = P; N; N = N->getParent()) {
+      if (C == N) {
+        return RECURSIVE_EDGE;
+      }
     }
 
     if (C->getParent()) {
-- 
2.43.0


From 91e1920839fd357a8c4d18cec8d9eaff61cc3304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 20/68] fix: execute addChild in copy transactions

---
 .../vara/Feature/FeatureModelTransaction.h    | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index a93ad94..a95e8ed 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -960,9 +960,14 @@ protected:
         *FM);
   }
 
-  static void addChildImpl(const FeatureTreeNodeVariantTy &Parent,
-                           const FeatureTreeNodeVariantTy &Child) {
-    FeatureModelModification::makeModification<AddChild>(Parent, Child);
+  Result<FTErrorCode> addChildImpl(const FeatureTreeNodeVariantTy &Parent,
+                                   const FeatureTreeNodeVariantTy &Child) {
+    if (!FM) {
+      return ERROR;
+    }
+
+    return FeatureModelModification::makeModification<AddChild>(
+        translateNode(Parent), translateNode(Child))(*FM);
   }
 
 private:
@@ -971,6 +976,26 @@ private:
     return FM->getFeature(F.getName());
   }
 
+  /// Translate a node of the original FeatureModel to our copied FeatureModel.
+  [[nodiscard]] FeatureTreeNode *
+  translateNode(const FeatureTreeNodeVariantTy &N) {
+    if (const auto *Name = std::get_if<std::string>(&N)) {
+      return FM->getFeature(*Name);
+    }
+    auto *Node = std::get<FeatureTreeNode *>(N);
+    if (auto *F = llvm::dyn_cast_or_null<Feature>(Node)) {
+      return translateFeature(*F);
+    }
+    if (auto *P = Node ? llvm::dyn_cast_or_null<Feature>(Node->getParent())
+                       : nullptr) {
+      if (auto *TranslatedParent = translateFeature(*P)) {
+        auto Relationships = TranslatedParent->getChildren<Relationship>(1);
+        return Relationships.empty() ? nullptr : *Relationships.begin();
+      }
+    }
+    return nullptr;
+  }
+
   std::unique_ptr<FeatureModel> FM;
 };
 
-- 
2.43.0


From 146591208d0af4aeac75185656973f8324b73669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 21/68] fix: refuse edits of missing features instead of
 crashing

---
 .../vara/Feature/FeatureModelTransaction.h    | 117 ++++++++----------
 1 file changed, 55 insertions(+), 62 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index a95e8ed..f4bc8a2 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -402,18 +402,25 @@ public:
   }
 
   Result<FTErrorCode, Relationship *> operator()(FeatureModel &FM) {
-    auto *InsertedRelationship =
-        addRelationship(FM, std::make_unique<Relationship>(Kind));
-    if (!InsertedRelationship) {
-      return ERROR;
-    }
-
     auto *P = std::visit(
         Overloaded{
             [&FM](const std::string &Name) { return FM.getFeature(Name); },
             [](Feature *Ptr) { return Ptr; },
         },
         Parent);
+    if (!P) {
+      return MISSING_PARENT;
+    }
+    // The children of a feature form at most one group
+    if (!P->getChildren<Relationship>(1).empty()) {
+      return ALREADY_PRESENT;
+    }
+
+    auto *InsertedRelationship =
+        addRelationship(FM, std::make_unique<Relationship>(Kind));
+    if (!InsertedRelationship) {
+      return ERROR;
+    }
 
     setParent(*InsertedRelationship, *P);
     addEdge(*P, *InsertedRelationship);
@@ -463,7 +470,10 @@ public:
       return MISSING_PARENT;
     }
 
-    auto Relationships = P->getChildren<Relationship>();
+    auto Relationships = P->getChildren<Relationship>(1);
+    if (Relationships.empty()) {
+      return MISSING_CHILD;
+    }
     Relationship *R = *Relationships.begin();
 
     removeEdge(*P, *R);
@@ -501,14 +511,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    addLocation(*std::visit(Overloaded{
-                                [&FM](const std::string &Name) {
-                                  return FM.getFeature(Name);
-                                },
-                                [](Feature *Ptr) { return Ptr; },
-                            },
-                            F),
-                FSR);
+    auto *TargetFeature = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!TargetFeature) {
+      return MISSING_FEATURE;
+    }
+    addLocation(*TargetFeature, FSR);
     return Ok();
   }
 
@@ -536,14 +548,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    removeLocation(*std::visit(Overloaded{
-                                   [&FM](const std::string &Name) {
-                                     return FM.getFeature(Name);
-                                   },
-                                   [](Feature *Ptr) { return Ptr; },
-                               },
-                               F),
-                   FSR);
+    auto *TargetFeature = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!TargetFeature) {
+      return MISSING_FEATURE;
+    }
+    removeLocation(*TargetFeature, FSR);
     return Ok();
   }
 
@@ -840,8 +854,12 @@ protected:
     if (Parent) {
       // To correctly add a parent, we need to translate it to a Feature in
       // our copied FeatureModel
+      auto *TranslatedParent = translateFeature(*Parent);
+      if (!TranslatedParent) {
+        return MISSING_PARENT;
+      }
       return FeatureModelModification::makeModification<AddFeatureToModel>(
-          std::move(NewFeature), translateFeature(*Parent))(*FM);
+          std::move(NewFeature), TranslatedParent)(*FM);
     }
 
     return FeatureModelModification::makeModification<AddFeatureToModel>(
@@ -852,14 +870,7 @@ protected:
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveFeatureFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        Recursive)(*FM);
+        translateFeature(F), Recursive)(*FM);
   }
 
   Result<FTErrorCode, Relationship *>
@@ -870,54 +881,28 @@ protected:
     }
 
     return FeatureModelModification::makeModification<AddRelationshipToModel>(
-        Kind, translateFeature(*std::visit(Overloaded{
-                                               [this](const std::string &Name) {
-                                                 return FM->getFeature(Name);
-                                               },
-                                               [](Feature *Ptr) { return Ptr; },
-                                           },
-                                           Parent)))(*FM);
+        Kind, translateFeature(Parent))(*FM);
   }
 
   void removeRelationshipImpl(const FeatureVariantTy &F) {
     assert(FM && "Feature model is null.");
 
     FeatureModelModification::makeModification<RemoveRelationshipFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)))(*FM);
+        translateFeature(F))(*FM);
   }
 
   void addLocationImpl(const FeatureVariantTy &F, FeatureSourceRange FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<AddLocationToFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        std::move(FSR))(*FM);
+        translateFeature(F), std::move(FSR))(*FM);
   }
 
   void removeLocationImpl(const FeatureVariantTy &F, FeatureSourceRange &FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveLocationFromFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        FSR)(*FM);
+        translateFeature(F), FSR)(*FM);
   }
 
   template <class ConstraintTy>
@@ -976,6 +961,14 @@ private:
     return FM->getFeature(F.getName());
   }
 
+  [[nodiscard]] Feature *translateFeature(const FeatureVariantTy &F) {
+    if (const auto *Name = std::get_if<std::string>(&F)) {
+      return FM->getFeature(*Name);
+    }
+    auto *Ptr = std::get<Feature *>(F);
+    return Ptr ? translateFeature(*Ptr) : nullptr;
+  }
+
   /// Translate a node of the original FeatureModel to our copied FeatureModel.
   [[nodiscard]] FeatureTreeNode *
   translateNode(const FeatureTreeNodeVariantTy &N) {
-- 
2.43.0


From 4b53a6880d3d3c81c4e6a9d9e56644bf392a55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 22/68] fix: refuse to remove the root or to add a second one

---
 include/vara/Feature/FeatureModelTransaction.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index f4bc8a2..d806ea2 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -305,6 +305,10 @@ public:
   }
 
   Result<FTErrorCode, Feature *> operator()(FeatureModel &FM) {
+    // A FeatureModel has exactly one root, see SetRoot
+    if (FM.getRoot() && llvm::isa<RootFeature>(NewFeature.get())) {
+      return INCONSISTENT;
+    }
     auto *InsertedFeature = addFeature(FM, std::move(NewFeature));
     if (!InsertedFeature) {
       return ALREADY_PRESENT;
@@ -353,6 +357,10 @@ public:
     if (!F) {
       return MISSING_FEATURE;
     }
+    // A FeatureModel needs its root
+    if (!F->getParent()) {
+      return INCONSISTENT;
+    }
 
     if (Recursive) {
       for (auto *C : F->getChildren<Feature>()) {
-- 
2.43.0


From 106c2c0e8a2f08259db86d1317b70271c2e56f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 23/68] fix: keep constraints consistent if features are
 removed

---
 .../vara/Feature/FeatureModelTransaction.h    | 16 ++++++++++
 lib/Feature/FeatureModel.cpp                  | 30 +++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index d806ea2..38a24d4 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -215,6 +215,21 @@ protected:
     F.addConstraint(&Constraint);
   }
 
+  /// \brief Let all \a Constraints on \a Feature Old refer to New instead.
+  static void moveConstraints(Feature &Old, Feature &New) {
+    const std::vector<Constraint *> Constraints(Old.constraints().begin(),
+                                                Old.constraints().end());
+    for (auto *C : Constraints) {
+      Old.removeConstraintNonPreserve(C);
+    }
+    for (auto *C : Constraints) {
+      if (auto *P = llvm::dyn_cast<PrimaryFeatureConstraint>(C)) {
+        setFeature(*P, New);
+        addConstraint(New, *P);
+      }
+    }
+  }
+
   static void addLocation(Feature &F, FeatureSourceRange FSR) {
     F.addLocation(std::move(FSR));
   }
@@ -753,6 +768,7 @@ public:
           removeEdge(*FM.getRoot(), *C);
         }
       }
+      moveConstraints(*FM.getRoot(), *InsertedRoot);
       removeFeature(FM, *FM.getRoot());
     }
     setRoot(FM, *InsertedRoot);
diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 56a1040..9b7ac20 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -34,6 +34,36 @@ void FeatureModel::removeFeature(Feature &F) {
   if (&F == Root) {
     Root = nullptr;
   }
+
+  // Constraints on a feature can not outlive it, so we also need to remove them
+  // from all other features they refer to
+  std::set<Constraint *> ToRemove;
+  for (auto *C : F.constraints()) {
+    ToRemove.insert(C->getRoot());
+  }
+  if (!ToRemove.empty()) {
+    for (auto &KV : Features) {
+      const std::vector<Constraint *> Constraints(
+          KV.getValue()->constraints().begin(),
+          KV.getValue()->constraints().end());
+      for (auto *C : Constraints) {
+        if (ToRemove.count(C->getRoot())) {
+          KV.getValue()->removeConstraintNonPreserve(C);
+        }
+      }
+    }
+    auto Remove = [&ToRemove](auto &Container) {
+      Container.erase(std::remove_if(Container.begin(), Container.end(),
+                                     [&ToRemove](const auto &C) {
+                                       return ToRemove.count(C->constraint());
+                                     }),
+                      Container.end());
+    };
+    Remove(BooleanConstraints);
+    Remove(NonBooleanConstraints);
+    Remove(MixedConstraints);
+  }
+
   Features.erase(F.getName());
 }
 
-- 
2.43.0


From 0075fe6e200b19cc1b343c506749d6c5bac8e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 24/68] fix: do not add constraints over missing features

---
 include/vara/Feature/FeatureModelTransaction.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 38a24d4..55747af 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -609,6 +609,11 @@ public:
   }
 
   Result<FTErrorCode, Constraint *> operator()(FeatureModel &FM) {
+    // Do not add a constraint if one of its features is missing
+    auto Check = MissingFeatureVisitor(&FM);
+    if (!NewConstraint->constraint()->accept(Check)) {
+      return MISSING_FEATURE;
+    }
     auto *InsertedConstraint = addConstraint(FM, std::move(NewConstraint));
     if (!InsertedConstraint) {
       return ERROR;
@@ -621,6 +626,19 @@ public:
   }
 
 private:
+  class MissingFeatureVisitor : public ConstraintVisitor {
+
+  public:
+    MissingFeatureVisitor(FeatureModel *FM) : FM(FM) {}
+
+    bool visit(PrimaryFeatureConstraint *C) override {
+      return FM->getFeature(C->getFeature()->getName()) != nullptr;
+    };
+
+  private:
+    FeatureModel *FM;
+  };
+
   class AddConstraintToModelVisitor : public ConstraintVisitor {
 
   public:
-- 
2.43.0


From f50de642a2d463a455c059382363ba252ced4cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 25/68] fix: clone all attributes of features

---
 lib/Feature/FeatureModel.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 9b7ac20..c9cc6e8 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -92,14 +92,18 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
     case Feature::FeatureKind::FK_BINARY:
       if (auto *F = llvm::dyn_cast<BinaryFeature>(KV.getValue().get()); F) {
         FMB.makeFeature<BinaryFeature>(F->getName().str(), F->isOptional(),
-                                       std::move(SourceRanges));
+                                       std::move(SourceRanges),
+                                       F->getOutputString().str());
       }
       break;
     case Feature::FeatureKind::FK_NUMERIC:
       if (auto *F = llvm::dyn_cast<NumericFeature>(KV.getValue().get()); F) {
-        FMB.makeFeature<NumericFeature>(F->getName().str(), F->getValues(),
-                                        F->isOptional(),
-                                        std::move(SourceRanges));
+        FMB.makeFeature<NumericFeature>(
+            F->getName().str(), F->getValues(), F->isOptional(),
+            std::move(SourceRanges), F->getOutputString().str(),
+            F->getStepFunction()
+                ? std::make_unique<StepFunction>(*F->getStepFunction())
+                : nullptr);
       }
       break;
     }
@@ -139,6 +143,25 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
   //  valid.
   auto FM = FMB.buildFeatureModel();
   assert(FM);
+
+  for (const auto &KV : this->Features) {
+    auto *F = FM->getFeature(KV.getValue()->getName());
+    // Not all features can be created with locations
+    if (!F->hasLocations()) {
+      for (const auto &Location : KV.getValue()->getLocations()) {
+        F->addLocation(Location);
+      }
+    }
+    // The builder adds all children of a feature to its group, even those that
+    // are not part of it
+    if (auto *P = F->getParentFeature();
+        P && F->getParent() != P &&
+        llvm::isa<Feature>(KV.getValue()->getParent())) {
+      F->getParent()->removeEdge(F);
+      P->addEdge(F);
+      F->setParent(P);
+    }
+  }
   return FM;
 }
 
-- 
2.43.0


From 50e922342f55bb953c7e448196d81f3f6252b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 26/68] fix: let the builder set the root before it adds
 features

A feature named like the default root was refused if it was added before
the root got its name, so that clone() failed for some models.
---
 include/vara/Feature/FeatureModelBuilder.h | 6 +++++-
 lib/Feature/FeatureModelBuilder.cpp        | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelBuilder.h b/include/vara/Feature/FeatureModelBuilder.h
index 63fe0e9..6de8fe6 100644
--- a/include/vara/Feature/FeatureModelBuilder.h
+++ b/include/vara/Feature/FeatureModelBuilder.h
@@ -17,6 +17,7 @@ class FeatureModelBuilder {
 public:
   FeatureModelBuilder()
       : FM(std::make_unique<FeatureModel>()),
+        RootBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         FeatureBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         ModelBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         RelationBuilder(FeatureModelModifyTransaction::openTransaction(*FM)) {}
@@ -27,6 +28,7 @@ public:
   FeatureModelBuilder &operator=(FeatureModelBuilder &&) = default;
 
   ~FeatureModelBuilder() {
+    RootBuilder.abort();
     FeatureBuilder.abort();
     ModelBuilder.abort();
     RelationBuilder.abort();
@@ -92,7 +94,7 @@ public:
   }
 
   FeatureModelBuilder *makeRoot(const std::string &Name) {
-    FeatureBuilder.setRoot(std::make_unique<RootFeature>(Name));
+    RootBuilder.setRoot(std::make_unique<RootFeature>(Name));
     return this;
   }
 
@@ -104,6 +106,8 @@ public:
 private:
   std::unique_ptr<FeatureModel> FM;
   llvm::StringMap<std::string> Parents;
+  // Modifications to replace the default root, whose name is free otherwise.
+  FeatureModelTransaction<detail::ModifyTransactionMode> RootBuilder;
   // Modifications to initialize features as children of root.
   FeatureModelTransaction<detail::ModifyTransactionMode> FeatureBuilder;
   // Modifications to build tree structure and set FM meta information.
diff --git a/lib/Feature/FeatureModelBuilder.cpp b/lib/Feature/FeatureModelBuilder.cpp
index fd8a96a..32f7dec 100644
--- a/lib/Feature/FeatureModelBuilder.cpp
+++ b/lib/Feature/FeatureModelBuilder.cpp
@@ -9,6 +9,14 @@ namespace vara::feature {
 std::unique_ptr<FeatureModel> FeatureModelBuilder::buildFeatureModel() {
   assert(FM->getRoot() && "FeatureModel has no root.");
 
+  if (Result E = RootBuilder.commit(); !E) {
+    llvm::errs() << "Building root failed with error: " << E << '\n';
+    FeatureBuilder.abort();
+    ModelBuilder.abort();
+    RelationBuilder.abort();
+    return nullptr;
+  }
+
   if (Result E = FeatureBuilder.commit(); !E) {
     llvm::errs() << "Building features failed with error: " << E << '\n';
     ModelBuilder.abort();
-- 
2.43.0


From 4e4b0c6c7e65b11d38888022bcb0a8492aace4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 27/68] fix: remove sets of features independent of their order

removeFeatures only looked at direct children, intersected unsorted sets, and
removed features twice (or the root) if the request was nested or repeated.
---
 lib/Feature/FeatureModelTransaction.cpp | 35 ++++++++++++++++++-------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 3e005f5..e56f9a3 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -55,7 +55,8 @@ std::optional<bool> fvIsLeaf(FeatureModel &FM, detail::FeatureVariantTy &FV) {
   if (ActualFeature == nullptr) {
     return std::nullopt;
   }
-  return std::optional<bool>{ActualFeature->isLeaf()};
+  // groups without any Feature do not prevent a deletion
+  return std::optional<bool>{ActualFeature->getChildren<Feature>().empty()};
 }
 
 /// Checks if in recursive mode the provided Feature can be deleted or not.
@@ -74,15 +75,17 @@ canBeDeletedRecursively(FeatureModel &FM, detail::FeatureVariantTy &FV,
     return std::nullopt;
   }
 
-  std::set<FeatureTreeNode *> Intersection;
-  auto AllChildrenInSubtree = ActualFeature->getChildren();
-  std::set_intersection(AllChildrenInSubtree.begin(),
-                        AllChildrenInSubtree.end(), OtherFeatures.begin(),
-                        OtherFeatures.end(),
-                        std::inserter(Intersection, Intersection.begin()));
-  // if the children are not matching the other features, the intersection is
-  // empty and we are good to go for deletion
-  return std::optional<bool>{Intersection.begin() == Intersection.end()};
+  // if no other feature is a transitive child, we are good to go for deletion
+  return std::optional<bool>{std::none_of(
+      OtherFeatures.begin(), OtherFeatures.end(),
+      [ActualFeature](FeatureTreeNode *OtherFeature) {
+        for (auto *N = OtherFeature->getParent(); N; N = N->getParent()) {
+          if (N == ActualFeature) {
+            return true;
+          }
+        }
+        return false;
+      })};
 }
 
 std::vector<detail::FeatureVariantTy> removeFeatures(
@@ -94,6 +97,14 @@ std::vector<detail::FeatureVariantTy> removeFeatures(
     return NotDeletedFeatures;
   }
 
+  // Features can only be deleted once
+  std::set<Feature *> RequestedFeatures;
+  End = std::remove_if(
+      Begin, End, [&FM, &RequestedFeatures](detail::FeatureVariantTy &FV) {
+        auto *ActualFeature = getActualFeature(FM, FV);
+        return ActualFeature && !RequestedFeatures.insert(ActualFeature).second;
+      });
+
   std::set<FeatureTreeNode *> OtherFeatures;
   std::transform(
       Begin, End, std::inserter(OtherFeatures, OtherFeatures.begin()),
@@ -110,6 +121,10 @@ std::vector<detail::FeatureVariantTy> removeFeatures(
   auto DeleteIt = std::partition(
       Begin, End,
       [&FM, Recursive, &OtherFeatures](detail::FeatureVariantTy &FV) {
+        // A FeatureModel needs its root
+        if (getActualFeature(FM, FV) == FM.getRoot()) {
+          return false;
+        }
         if (fvIsLeaf(FM, FV).value_or(false)) {
           return true;
         }
-- 
2.43.0


From dcdf1cc437658b8496f484e1708c26fec8bd1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 28/68] fix: merge all attributes of features or refuse

Merging dropped output strings and step functions of new features, added
repeated locations twice, silently ignored models with another root and never
merged features of the base kind with themselves.
---
 lib/Feature/FeatureModelTransaction.cpp | 36 ++++++++++++++++++-------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index e56f9a3..7c2a8ea 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -181,7 +181,8 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     Trans.abort();
     return nullptr;
   }
-  return *Trans.commit();
+  auto MergedFM = Trans.commit();
+  return MergedFM ? MergedFM.extractValue() : nullptr;
 }
 
 [[nodiscard]] bool mergeSubtree(FeatureModelCopyTransaction &Trans,
@@ -191,10 +192,12 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
   if (Feature *CMP = FM.getFeature(F.getName())) {
     if (compareProperties(*CMP, F, Strict)) {
       // similar feature, maybe merge locations
-      for (FeatureSourceRange const &FSR : F.getLocations()) {
-        if (std::find(CMP->getLocationsBegin(), CMP->getLocationsEnd(), FSR) ==
-            CMP->getLocationsEnd()) {
-          Trans.addLocation(CMP, FSR);
+      for (auto FSR = F.getLocationsBegin(); FSR != F.getLocationsEnd();
+           ++FSR) {
+        if (std::find(CMP->getLocationsBegin(), CMP->getLocationsEnd(), *FSR) ==
+                CMP->getLocationsEnd() &&
+            std::find(F.getLocationsBegin(), FSR, *FSR) == FSR) {
+          Trans.addLocation(CMP, *FSR);
         }
       }
     } else {
@@ -205,7 +208,9 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     if (!Copy) {
       return false;
     }
-    Trans.addFeature(std::move(Copy), F.getParentFeature());
+    if (!Trans.addFeature(std::move(Copy), F.getParentFeature())) {
+      return false;
+    }
   }
 
   // copy children if missing
@@ -219,17 +224,29 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
 
 [[nodiscard]] std::unique_ptr<Feature> featureCopy(Feature &F) {
   switch (F.getKind()) {
+  case Feature::FeatureKind::FK_UNKNOWN: {
+    auto Copy = std::make_unique<Feature>(F.getName().str());
+    for (const auto &FSR : F.getLocations()) {
+      Copy->addLocation(FSR);
+    }
+    return Copy;
+  }
   case Feature::FeatureKind::FK_BINARY:
     return std::make_unique<BinaryFeature>(
         F.getName().str(), F.isOptional(),
         std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                        F.getLocationsEnd()));
+                                        F.getLocationsEnd()),
+        F.getOutputString().str());
   case Feature::FeatureKind::FK_NUMERIC:
     if (auto *NF = llvm::dyn_cast<NumericFeature>(&F)) {
       return std::make_unique<NumericFeature>(
           F.getName().str(), NF->getValues(), F.isOptional(),
           std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                          F.getLocationsEnd()));
+                                          F.getLocationsEnd()),
+          F.getOutputString().str(),
+          NF->getStepFunction()
+              ? std::make_unique<StepFunction>(*NF->getStepFunction())
+              : nullptr);
     }
     break;
   case Feature::FeatureKind::FK_ROOT:
@@ -268,7 +285,8 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
   if (F1.getParent()->getKind() != F2.getParent()->getKind()) {
     return false;
   }
-  if (F1.getKind() == Feature::FeatureKind::FK_BINARY) {
+  if (F1.getKind() == Feature::FeatureKind::FK_BINARY ||
+      F1.getKind() == Feature::FeatureKind::FK_UNKNOWN) {
     return true;
   }
   if (const auto *NF1 = llvm::dyn_cast<NumericFeature>(&F1)) {
-- 
2.43.0


From a742f1359faac08686ec540fac69aed9c7e67bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 29/68] fix: order features whose names differ in case only

---
 include/vara/Feature/FeatureModel.h | 11 ++++-------
 lib/Feature/Feature.cpp             | 10 ++++++++--
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index 3928e59..f7053d0 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -119,13 +119,10 @@ public:
         Visited.insert(F);
         llvm::SmallVector<Feature *, 3> Children;
         for (auto *C : F->getChildren<Feature>()) {
-          Children.insert(std::upper_bound(Children.begin(), Children.end(), C,
-                                           [](Feature *A, Feature *B) {
-                                             return A->getName().lower() >
-                                                    B->getName().lower();
-                                             ;
-                                           }),
-                          C);
+          Children.insert(
+              std::upper_bound(Children.begin(), Children.end(), C,
+                               [](Feature *A, Feature *B) { return *B < *A; }),
+              C);
         }
         std::for_each(Children.begin(), Children.end(), [this](Feature *C) {
           if (Visited.find(C) == Visited.end()) {
diff --git a/lib/Feature/Feature.cpp b/lib/Feature/Feature.cpp
index cd45f3c..528f54e 100644
--- a/lib/Feature/Feature.cpp
+++ b/lib/Feature/Feature.cpp
@@ -47,6 +47,12 @@ std::string NumericFeature::toString() const {
 
 std::string BinaryFeature::toString() const { return Feature::toString(); }
 
+/// Compare names ignoring case, names that only differ in case exactly.
+static bool lessByName(const Feature &A, const Feature &B) {
+  return std::make_pair(A.getName().lower(), A.getName()) <
+         std::make_pair(B.getName().lower(), B.getName());
+}
+
 /// Find roots of subtrees containing either A (this) or B (Other) which have a
 /// common parent feature and compare them lexicographically. If no such node
 /// can be found compare names directly.
@@ -63,7 +69,7 @@ bool Feature::operator<(const Feature &Other) const {
   assert(!TraceA.empty() && !TraceB.empty());
 
   if (TraceA.top() != TraceB.top()) { // different roots
-    return this->getName().lower() < Other.getName().lower();
+    return lessByName(*this, Other);
   }
   while (!TraceA.empty() && !TraceB.empty() &&
          TraceA.top() == TraceB.top()) { // skip common ancestors
@@ -77,6 +83,6 @@ bool Feature::operator<(const Feature &Other) const {
   if (TraceB.empty()) { // A in subtree of B
     return false;
   }
-  return TraceA.top()->getName().lower() < TraceB.top()->getName().lower();
+  return lessByName(*TraceA.top(), *TraceB.top());
 }
 } // namespace vara::feature
-- 
2.43.0


From 81ba78789dbc9492a2bacbf72c0e61522d3e601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:41 +0000
Subject: [PATCH 30/68] fix: refuse documents whose attributes violate the DTD

---
 lib/Feature/FeatureModelParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1ea029c..5aecbbd 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -428,8 +428,7 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
       xmlFreeDoc);
   xmlCleanupParser();
   if (Doc && Ctxt->valid) {
-    xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get());
-    if (Ctxt->vctxt.valid) {
+    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get())) {
       return Doc;
     }
     llvm::errs() << "Failed to validate DTD.\n";
-- 
2.43.0


From b00fa83149d246dd2fccd2536118ed4b5a1c2752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 31/68] fix: read mixed constraints without attributes

---
 lib/Feature/FeatureModelParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 5aecbbd..6df6398 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -253,10 +253,10 @@ FeatureModelXmlParser::parseConstraints<FeatureModel::MixedConstraint>(
 
           FMB.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
               std::move(Constraint),
-              std::string(reinterpret_cast<char *>(R.get())) == "none"
+              R && std::string(reinterpret_cast<char *>(R.get())) == "none"
                   ? FeatureModel::MixedConstraint::Req::NONE
                   : FeatureModel::MixedConstraint::Req::ALL,
-              std::string(reinterpret_cast<char *>(E.get())) == "neg"
+              E && std::string(reinterpret_cast<char *>(E.get())) == "neg"
                   ? FeatureModel::MixedConstraint::ExprKind::NEG
                   : FeatureModel::MixedConstraint::ExprKind::POS));
         } else {
-- 
2.43.0


From 375d12851aad798a8ccf06352390c121f2ef5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 32/68] fix: trim the names of children like all other names

---
 lib/Feature/FeatureModelParser.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 6df6398..93ffd0d 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -65,10 +65,8 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
         for (xmlNode *Child = Head->children; Child; Child = Child->next) {
           if (Child->type == XML_ELEMENT_NODE) {
             if (!xmlStrcmp(Child->name, XmlConstants::OPTIONS)) {
-              auto FeatureName = std::string(reinterpret_cast<char *>(
-                  std::unique_ptr<xmlChar, void (*)(void *)>(
-                      xmlNodeGetContent(Child), xmlFree)
-                      .get()));
+              auto FeatureName = trim(reinterpret_cast<char *>(
+                  UniqueXmlChar(xmlNodeGetContent(Child), xmlFree).get()));
               if (auto P = FMB.getParentName(FeatureName); P && *P != Name) {
                 llvm::errs() << llvm::formatv(
                     "Ambiguous edge to {0} from either '{1}' or '{2}'.\n",
-- 
2.43.0


From 8142bda94986bf8712d5932f5d1dbd551db2c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 33/68] fix: read the locations of the root

---
 include/vara/Feature/FeatureModelParser.h | 1 +
 lib/Feature/FeatureModelParser.cpp        | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/vara/Feature/FeatureModelParser.h b/include/vara/Feature/FeatureModelParser.h
index 6807d6c..9325aba 100644
--- a/include/vara/Feature/FeatureModelParser.h
+++ b/include/vara/Feature/FeatureModelParser.h
@@ -62,6 +62,7 @@ public:
 private:
   std::string Xml;
   FeatureModelBuilder FMB;
+  std::vector<FeatureSourceRange> RootLocations;
 
   Result<FTErrorCode> parseConfigurationOption(xmlNode *Node, bool Num);
   Result<FTErrorCode> parseOptions(xmlNode *Node, bool Num);
diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 93ffd0d..001962b 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -135,6 +135,7 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
   // XML has those names specified as root nodes
   if (Name == "root" || Name == "base") {
     FMB.makeRoot(Name);
+    RootLocations = std::move(SourceRanges);
   } else if (Num) {
     if (Values.empty()) {
       FMB.makeFeature<NumericFeature>(Name, std::make_pair(MinValue, MaxValue),
@@ -396,6 +397,9 @@ std::unique_ptr<FeatureModel> FeatureModelXmlParser::buildFeatureModel() {
 
   auto FM = FMB.buildFeatureModel();
   if (FM) {
+    for (const auto &Location : RootLocations) {
+      FM->getRoot()->addLocation(Location);
+    }
     detectXMLAlternatives(*FM);
   }
 
-- 
2.43.0


From 07dc109988f9bd4caefc450d70021fde16d876a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 34/68] fix: write 64-bit values of numeric options

---
 lib/Feature/FeatureModelWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index e75d9d8..4149963 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -431,7 +431,7 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     } else {
       auto Values = std::get<NumericFeature::ValueListType>(ValueVariant);
       std::string Str;
-      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int X) {
+      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int64_t X) {
         Str.append(std::to_string(X));
         Str.push_back(';');
       });
-- 
2.43.0


From 2840d9614e2c80eb74030a59beb828c06dc076b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 35/68] fix: write all attributes of features as XML

---
 lib/Feature/FeatureModelWriter.cpp | 48 +++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 4149963..c919af9 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -310,6 +310,13 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                  charToUChar(Feature1.getName().data()));
   CHECK_RC
 
+  if (!Feature1.getOutputString().empty()) {
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::OUTPUTSTRING,
+        charToUChar(Feature1.getOutputString().data()));
+    CHECK_RC
+  }
+
   // parent
   if (Feature1.getParentFeature()) {
     RC = xmlTextWriterWriteElement(
@@ -431,16 +438,23 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     } else {
       auto Values = std::get<NumericFeature::ValueListType>(ValueVariant);
       std::string Str;
-      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int64_t X) {
-        Str.append(std::to_string(X));
-        Str.push_back(';');
-      });
+      std::for_each(std::begin(Values), std::end(Values) - 1,
+                    [&Str](int64_t X) {
+                      Str.append(std::to_string(X));
+                      Str.push_back(';');
+                    });
       Str.append(std::to_string(Values.back()));
 
       RC = xmlTextWriterWriteElement(Writer, XmlConstants::VALUES,
                                      charToUChar(Str.data()));
       CHECK_RC
     }
+
+    if (auto *Step = NF->getStepFunction()) {
+      RC = xmlTextWriterWriteElement(Writer, XmlConstants::STEPFUNCTION,
+                                     charToUChar(Step->toString().data()));
+      CHECK_RC
+    }
   }
 
   // locations?
@@ -478,6 +492,26 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   }
   CHECK_RC
 
+  if (auto *Range = Location.revisionRange()) {
+    RC = xmlTextWriterStartElement(Writer, XmlConstants::REVISIONRANGE);
+    CHECK_RC
+
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::INTRODUCED,
+        charToUChar(Range->introducingCommit().data()));
+    CHECK_RC
+
+    if (Range->hasRemovingCommit()) {
+      RC = xmlTextWriterWriteElement(
+          Writer, XmlConstants::REMOVED,
+          charToUChar(Range->removingCommit().data()));
+      CHECK_RC
+    }
+
+    RC = xmlTextWriterEndElement(Writer); // REVISIONRANGE
+    CHECK_RC
+  }
+
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::PATH,
       charToUChar(Location.getPath().string().data()));
@@ -517,6 +551,12 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   RC = xmlTextWriterEndElement(Writer); // END
   CHECK_RC
 
+  if (auto *Offset = Location.getMemberOffset()) {
+    RC = xmlTextWriterWriteElement(Writer, XmlConstants::MEMBEROFFSET,
+                                   charToUChar(Offset->toString().data()));
+    CHECK_RC
+  }
+
   RC = xmlTextWriterEndElement(Writer); // SOURCERANGE
   return RC;
 }
-- 
2.43.0


From 5e8024b26435cc92a675eb3a62e258c35d990af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 36/68] fix: report models that cannot be written as XML

---
 lib/Feature/FeatureModelWriter.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index c919af9..d46704b 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -27,7 +27,7 @@ int FeatureModelXmlWriter::writeFeatureModel(std::string Path) {
   std::unique_ptr<xmlTextWriter, void (*)(xmlTextWriterPtr)> Writer(
       xmlNewTextWriterFilename(Path.data(), 0), &xmlFreeTextWriter);
   if (!Writer) {
-    return false;
+    return -1;
   }
 
   RC = writeFeatureModel(Writer.get());
@@ -437,6 +437,9 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
       CHECK_RC
     } else {
       auto Values = std::get<NumericFeature::ValueListType>(ValueVariant);
+      if (Values.empty()) {
+        return -1; // the format has no empty list
+      }
       std::string Str;
       std::for_each(std::begin(Values), std::end(Values) - 1,
                     [&Str](int64_t X) {
@@ -477,6 +480,12 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
                                             FeatureSourceRange &Location) {
   int RC;
 
+  auto *Start = Location.getStart();
+  auto *End = Location.getEnd();
+  if (!Start || !End) {
+    return -1; // the format requires both
+  }
+
   RC = xmlTextWriterStartElement(Writer, XmlConstants::SOURCERANGE);
   CHECK_RC
 
@@ -520,7 +529,6 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   RC = xmlTextWriterStartElement(Writer, XmlConstants::START);
   CHECK_RC
 
-  auto *Start = Location.getStart();
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::LINE,
       BAD_CAST std::to_string(Start->getLineNumber()).data());
@@ -537,7 +545,6 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   RC = xmlTextWriterStartElement(Writer, XmlConstants::END);
   CHECK_RC
 
-  auto *End = Location.getEnd();
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::LINE,
       BAD_CAST std::to_string(End->getLineNumber()).data());
-- 
2.43.0


From 2ffc7da6a39931ed62642b9fb9e149f0f4a7d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 37/68] fix: write implied and excluded options of boolean
 constraints only, once

---
 include/vara/Feature/FeatureModelWriter.h |  2 +-
 lib/Feature/FeatureModelWriter.cpp        | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/FeatureModelWriter.h b/include/vara/Feature/FeatureModelWriter.h
index e24c56f..0068455 100644
--- a/include/vara/Feature/FeatureModelWriter.h
+++ b/include/vara/Feature/FeatureModelWriter.h
@@ -50,7 +50,7 @@ private:
   int writeBooleanConstraints(xmlTextWriterPtr Writer);
   int writeNonBooleanConstraints(xmlTextWriterPtr Writer);
   int writeMixedConstraints(xmlTextWriterPtr Writer);
-  static int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
+  int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
   static int writeSourceRange(xmlTextWriterPtr Writer,
                               FeatureSourceRange &Location);
 
diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index d46704b..33077b5 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -343,10 +343,20 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     CHECK_RC
   }
 
+  // features only know the constraints they are part of, including those that
+  // belong to other sections
+  std::set<const Constraint *> BooleanConstraints;
+  for (const auto &C : FM.booleanConstraints()) {
+    BooleanConstraints.insert(C->constraint());
+  }
+
   // implications
   deprecated::OrderedFeatureVector Implications;
 
   for (const auto *C : Feature1.implications()) {
+    if (BooleanConstraints.count(C) == 0) {
+      continue;
+    }
     if (const auto *LHS =
             llvm::dyn_cast<PrimaryFeatureConstraint>(C->getLeftOperand());
         LHS) {
@@ -356,7 +366,10 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
         if (LHS->getFeature() &&
             LHS->getFeature()->getName() == Feature1.getName() &&
             RHS->getFeature()) {
-          Implications.insert(RHS->getFeature());
+          if (std::find(Implications.begin(), Implications.end(),
+                        RHS->getFeature()) == Implications.end()) {
+            Implications.insert(RHS->getFeature());
+          }
         }
       }
     }
@@ -385,6 +398,9 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     Excludes.insert(ES.begin(), ES.end());
   }
   for (const auto *C : Feature1.excludes()) {
+    if (BooleanConstraints.count(C) == 0) {
+      continue;
+    }
     if (const auto *LHS =
             llvm::dyn_cast<PrimaryFeatureConstraint>(C->getLeftOperand());
         LHS) {
-- 
2.43.0


From 1fecaa2ed8e6d462fb9c9482db81752af3018b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 38/68] fix: write groups without an XML form as constraints

---
 lib/Feature/FeatureModelWriter.cpp | 104 +++++++++++++++++------------
 1 file changed, 62 insertions(+), 42 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 33077b5..d309bfa 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -22,6 +22,45 @@ const unsigned char *charToUChar(const char *CP) {
 static constexpr xmlChar INDENTATIONSTRING[] = "  ";
 static constexpr char ENCODING[] = "UTF-8";
 
+/// XML represents alternatives as mandatory siblings which exclude each other.
+/// All other groups are represented as optional siblings with a constraint.
+static bool isXmlAlternative(const Relationship &Group) {
+  auto *P = Group.getParent();
+  return Group.getKind() == Relationship::RelationshipKind::RK_ALTERNATIVE &&
+         std::distance(Group.begin(), Group.end()) > 1 && P &&
+         std::distance(P->begin(), P->end()) == 1;
+}
+
+/// Collect constraints of groups without other representation.
+static std::vector<std::unique_ptr<Constraint>>
+groupConstraints(const FeatureModel &FM) {
+  std::vector<std::unique_ptr<Constraint>> Constraints;
+  auto Primary = [](const Feature *F) {
+    return std::make_unique<PrimaryFeatureConstraint>(
+        std::make_unique<Feature>(F->getName().str()));
+  };
+  for (auto *F : FM.features()) {
+    for (auto *Group : F->getChildren<Relationship>(1)) {
+      auto FS = Group->getChildren<Feature>();
+      if (FS.size() < 2 || isXmlAlternative(*Group)) {
+        continue;
+      }
+      std::unique_ptr<Constraint> Any;
+      for (auto *Member :
+           deprecated::OrderedFeatureVector(FS.begin(), FS.end())) {
+        if (Any) {
+          Any = std::make_unique<OrConstraint>(std::move(Any), Primary(Member));
+        } else {
+          Any = Primary(Member);
+        }
+      }
+      Constraints.push_back(
+          std::make_unique<ImpliesConstraint>(Primary(F), std::move(Any)));
+    }
+  }
+  return Constraints;
+}
+
 int FeatureModelXmlWriter::writeFeatureModel(std::string Path) {
   int RC;
   std::unique_ptr<xmlTextWriter, void (*)(xmlTextWriterPtr)> Writer(
@@ -109,7 +148,12 @@ int FeatureModelXmlWriter::writeVm(xmlTextWriterPtr Writer) {
   RC = writeNumericFeatures(Writer);
   CHECK_RC
 
-  if (!FM.booleanConstraints().empty()) {
+  // groups of several features are read back with constraints
+  bool HasGroups = false;
+  for (const auto &Group : FM.relationships()) {
+    HasGroups |= std::distance(Group->begin(), Group->end()) > 1;
+  }
+  if (!FM.booleanConstraints().empty() || HasGroups) {
     RC = writeBooleanConstraints(Writer);
     CHECK_RC
   }
@@ -168,42 +212,6 @@ int FeatureModelXmlWriter::writeBooleanConstraints(xmlTextWriterPtr Writer) {
   RC = xmlTextWriterStartElement(Writer, XmlConstants::BOOLEANCONSTRAINTS);
   CHECK_RC
 
-  // collect alternative groups
-  struct FeatureCompare {
-    bool operator()(Feature *F1, Feature *F2) const { return *F1 < *F2; }
-  };
-  std::set<std::set<Feature *, FeatureCompare>> AltGroups;
-  //  for (auto *F : Fm.features()) {
-  //    // skip empty groups
-  //    if (F->alternatives().begin() == F->alternatives().end()) {
-  //      continue;
-  //    }
-  //    std::set<Feature *, FeatureCompare> AltGroup(F->alternatives_begin(),
-  //                                                 F->alternatives_end());
-  //    AltGroup.insert(F);
-  //    AltGroups.insert(std::move(AltGroup));
-  //  }
-
-  for (const auto &Group : AltGroups) {
-    RC = xmlTextWriterStartElement(Writer, XmlConstants::CONSTRAINT);
-    CHECK_RC
-
-    auto F = Group.begin();
-    RC = xmlTextWriterWriteString(Writer, charToUChar((*F)->getName().data()));
-    CHECK_RC
-    ++F;
-    for (; F != Group.end(); ++F) {
-      RC = xmlTextWriterWriteString(Writer, charToUChar(" | "));
-      CHECK_RC
-      RC =
-          xmlTextWriterWriteString(Writer, charToUChar((*F)->getName().data()));
-      CHECK_RC
-    }
-
-    RC = xmlTextWriterEndElement(Writer); // CONSTRAINT
-    CHECK_RC
-  }
-
   for (const auto &Constraint : FM.booleanConstraints()) {
     if (auto *Implies = llvm::dyn_cast<ImpliesConstraint>(**Constraint)) {
       if (llvm::isa_and_nonnull<PrimaryFeatureConstraint>(
@@ -233,6 +241,12 @@ int FeatureModelXmlWriter::writeBooleanConstraints(xmlTextWriterPtr Writer) {
     CHECK_RC
   }
 
+  for (const auto &Constraint : groupConstraints(FM)) {
+    RC = xmlTextWriterWriteElement(Writer, XmlConstants::CONSTRAINT,
+                                   charToUChar(Constraint->toString().data()));
+    CHECK_RC
+  }
+
   RC = xmlTextWriterEndElement(Writer); // BOOLEANCONSTRAINT
   return RC;
 }
@@ -392,8 +406,10 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
   // excludes
   deprecated::OrderedFeatureVector Excludes;
 
-  if (llvm::isa_and_nonnull<Relationship>(Feature1.getParent())) {
-    auto ES = Feature1.getParent()->getChildren<Feature>();
+  auto *Group = llvm::dyn_cast_or_null<Relationship>(Feature1.getParent());
+  if (Group &&
+      Group->getKind() == Relationship::RelationshipKind::RK_ALTERNATIVE) {
+    auto ES = Group->getChildren<Feature>();
     ES.erase(&Feature1);
     Excludes.insert(ES.begin(), ES.end());
   }
@@ -434,9 +450,13 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
   }
 
   // optional
-  RC = xmlTextWriterWriteElement(
-      Writer, XmlConstants::OPTIONAL,
-      charToUChar((Feature1.isOptional() ? "True" : "False")));
+  bool IsOptional = Feature1.isOptional();
+  if (Group) {
+    IsOptional = std::distance(Group->begin(), Group->end()) > 1 &&
+                 !isXmlAlternative(*Group);
+  }
+  RC = xmlTextWriterWriteElement(Writer, XmlConstants::OPTIONAL,
+                                 charToUChar((IsOptional ? "True" : "False")));
   CHECK_RC
 
   // numeric elements
-- 
2.43.0


From e9238fc5933b92a99ddaa0304c4c9f2723b578b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 39/68] fix: read SXFM documents without a model name

---
 lib/Feature/FeatureModelParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 001962b..924da62 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -506,7 +506,10 @@ bool FeatureModelSxfmParser::parseVm(xmlNode *Node) {
   // Parse the name first.
   {
     UniqueXmlChar Cnt(xmlGetProp(Node, XmlConstants::NAME), xmlFree);
-    FMB.setVmName(std::string(reinterpret_cast<char *>(Cnt.get())));
+    // The DTD does not require a name.
+    if (Cnt) {
+      FMB.setVmName(std::string(reinterpret_cast<char *>(Cnt.get())));
+    }
   }
   // After the feature model tag, some metadata is provided.
   // Currently, we skip the metadata and continue with parsing the feature tree
-- 
2.43.0


From 3cedec9e3e289416d12236cb85cc6159e1eb9616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 40/68] fix: refuse SXFM trees with broken indentation or root

---
 lib/Feature/FeatureModelParser.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 924da62..28d43c2 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -593,6 +593,13 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
           checkedNarrowingSignConversion(IndentationString.count(Indentation));
       int Diff = CurrentIndentationLevel - LastIndentationLevel;
 
+      if (IndentationString.size() !=
+          CurrentIndentationLevel * Indentation.length()) {
+        llvm::errs() << "Wrong indentation in feature tree in line " << To
+                     << "\n";
+        return false;
+      }
+
       // Remember the root indentation for later checks
       if (LastIndentationLevel == -1) {
         RootIndentation = CurrentIndentationLevel;
@@ -609,6 +616,10 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       // the feature (m for mandatory, o for optional, a for alternative)
       std::string::size_type Pos =
           CurrentIndentationLevel * Indentation.length() + 2;
+      if (Pos > To.length()) {
+        llvm::errs() << "Missing configuration option in line " << To << "\n";
+        return false;
+      }
       std::optional<std::tuple<int, int>> Cardinalities;
 
       switch (To.at(Pos - 1)) {
@@ -640,6 +651,11 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
             << To << "'\n";
         return false;
       }
+      if (IsRoot != (LastIndentationLevel == -1)) {
+        llvm::errs() << "Exactly the first feature has to be the root:'" << To
+                     << "'\n";
+        return false;
+      }
       // Extract the name
       Name =
           ToStringRef.substr(Pos + 1, ToStringRef.find(' ', Pos + 1) - Pos - 1)
@@ -701,7 +717,7 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
 
       // Add parent from the upper indentation level if there is one
       if (LastIndentationLevel != -1 &&
-          CurrentIndentationLevel == RootIndentation) {
+          CurrentIndentationLevel <= RootIndentation) {
         llvm::errs() << "Only one feature can be root and have the same "
                         "indentation as root.\n";
         return false;
-- 
2.43.0


From 1fd8a19e1d06148b7be724b2bda34c273a4c3b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 41/68] fix: trim SXFM feature names and name groups before
 mapping identifiers

---
 lib/Feature/FeatureModelParser.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 28d43c2..c082461 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -685,6 +685,13 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       if (Name.find_first_of('(') != std::string::npos) {
         Name = Name.substr(0, Name.find('(', 0));
       }
+      Name = trim(Name);
+
+      // If there is no name, provide an artificial one
+      if (Name.empty()) {
+        OrGroupCounter++;
+        Name = "group_" + std::to_string(OrGroupCounter);
+      }
 
       // Search for identifier
       std::regex Regex(R"(\([a-zA-Z\d_]*\))");
@@ -701,12 +708,6 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         }
       }
 
-      // If there is no name, provide an artificial one
-      if (Name.empty()) {
-        OrGroupCounter++;
-        Name = "group_" + std::to_string(OrGroupCounter);
-      }
-
       // Create the feature
       if (IsRoot) {
         FMB.makeRoot(Name);
-- 
2.43.0


From 404dd11d30cf1d16e889877c70da416904d41ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 42/68] fix: replace whole identifiers in SXFM clauses and
 refuse unreadable clauses

---
 lib/Feature/FeatureModelParser.cpp | 57 +++++++++++++-----------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index c082461..a585e06 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -775,13 +775,6 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       UniqueXmlChar(xmlNodeGetContent(Constraints), xmlFree).get()));
   std::string To;
 
-  // Prepare the identifiers for later replacement
-  std::vector<std::string> Keys;
-  Keys.reserve(IdentifierMap.size());
-  std::for_each(IdentifierMap.begin(), IdentifierMap.end(),
-                [&Keys](const auto &Entry) { Keys.push_back(Entry.first); });
-  std::sort(Keys.begin(), Keys.end(), std::greater<std::string>{});
-
   while (std::getline(Ss, To)) {
     // Ignore if a line is empty
     if (To.empty() || std::all_of(To.begin(), To.end(), isspace)) {
@@ -801,39 +794,39 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
 
     auto Pos = ToStringRef.find(':');
     ToStringRef = ToStringRef.substr(Pos + 1, ToStringRef.size() - Pos - 1);
-    std::string CnfFormula = trim(ToStringRef);
 
     // In the following lines, we replace all identifiers by the real feature
-    // name
-    for (auto &Key : Keys) {
-      std::string Value = IdentifierMap[Key];
-      if (Value == Key) {
+    // name, 'or' by '|', 'and' by '&', and the negation '~' by '!'
+    std::string CnfFormula;
+    ToStringRef = ToStringRef.trim();
+    while (!ToStringRef.empty()) {
+      auto Word = ToStringRef.take_while(
+          [](auto C) { return llvm::isAlnum(C) || C == '_'; });
+      if (Word.empty()) {
+        CnfFormula += ToStringRef.front() == '~' ? '!' : ToStringRef.front();
+        ToStringRef = ToStringRef.drop_front();
         continue;
       }
-      auto FoundPos = CnfFormula.find(Key);
-      while (FoundPos != std::string::npos) {
-        CnfFormula = CnfFormula.replace(FoundPos, Key.length(), Value);
-        FoundPos = CnfFormula.find(Key);
-      }
-    }
-
-    // Replace 'or' by '|' and 'and' by '&'
-    std::unordered_map<std::string, std::string> SpecialKeys;
-    SpecialKeys[" or "] = " | ";
-    SpecialKeys[" and "] = " & ";
-    for (auto &Key : SpecialKeys) {
-      auto FoundPos = CnfFormula.find(Key.first);
-      while (FoundPos != std::string::npos) {
-        CnfFormula =
-            CnfFormula.replace(FoundPos, Key.first.length(), Key.second);
-        FoundPos = CnfFormula.find(Key.first);
+      if (auto Entry = IdentifierMap.find(Word.str());
+          Entry != IdentifierMap.end()) {
+        CnfFormula += Entry->second;
+      } else if (Word == "or") {
+        CnfFormula += '|';
+      } else if (Word == "and") {
+        CnfFormula += '&';
+      } else {
+        CnfFormula += Word;
       }
+      ToStringRef = ToStringRef.drop_front(Word.size());
     }
 
-    if (auto Constraint = ConstraintParser(CnfFormula).buildConstraint()) {
-      FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
-          std::move(Constraint)));
+    auto Constraint = ConstraintParser(CnfFormula).buildConstraint();
+    if (!Constraint) {
+      llvm::errs() << "Failed to read in constraint '" << To << "'\n";
+      return false;
     }
+    FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
+        std::move(Constraint)));
   }
 
   return true;
-- 
2.43.0


From 124d0ed1473d8819122c67d85ee4a054bfa5ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 43/68] fix: do not recurse over long SXFM identifiers

---
 lib/Feature/FeatureModelParser.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index a585e06..81c1fd3 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -694,13 +694,15 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       }
 
       // Search for identifier
-      std::regex Regex(R"(\([a-zA-Z\d_]*\))");
-      std::string CurrentLine = ToStringRef.str();
-      for (std::sregex_iterator Match = std::sregex_iterator(
-               CurrentLine.begin(), CurrentLine.end(), Regex);
-           Match != std::sregex_iterator(); Match++) {
-        std::string Identifier = (*Match).str();
-        Identifier = Identifier.substr(1, Identifier.size() - 2);
+      for (auto Open = ToStringRef.find('('); Open != llvm::StringRef::npos;
+           Open = ToStringRef.find('(', Open + 1)) {
+        auto Rest = ToStringRef.drop_front(Open + 1);
+        std::string Identifier =
+            Rest.take_while([](auto C) { return llvm::isAlnum(C) || C == '_'; })
+                .str();
+        if (!legacy::starts_with(Rest.drop_front(Identifier.size()), ")")) {
+          continue;
+        }
         IdentifierMap[Identifier] = Name;
         if (Identifier != Name && Name.find(Identifier) != std::string::npos) {
           llvm::errs() << "Name must not contain ID:'" << Name << "'\n";
-- 
2.43.0


From 804bba239064680ed5529d1fbe40051bcb353f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 44/68] fix: enumerate all configurations of alternative groups

---
 lib/Solver/Z3Solver.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index a5242a8..8fc3c67 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -159,9 +159,18 @@ Z3Solver::addRelationship(const feature::Relationship &R) {
     V.push_back(Context.bool_const(ChildFeature->getName().str().c_str()));
   }
   switch (R.getKind()) {
-  case feature::Relationship::RelationshipKind::RK_ALTERNATIVE:
-    Solver->add(z3::implies(ParentOption, z3::atmost(V, 1) & z3::mk_or(V)));
+  case feature::Relationship::RelationshipKind::RK_ALTERNATIVE: {
+    // z3::atmost loses solutions if the solver is used incrementally
+    z3::expr_vector Exclusions(Context);
+    for (unsigned I = 0; I < V.size(); ++I) {
+      for (unsigned J = I + 1; J < V.size(); ++J) {
+        Exclusions.push_back(!V[I] || !V[J]);
+      }
+    }
+    Solver->add(
+        z3::implies(ParentOption, z3::mk_and(Exclusions) && z3::mk_or(V)));
     break;
+  }
   case feature::Relationship::RelationshipKind::RK_OR:
     Solver->add(z3::implies(ParentOption, z3::mk_or(V)));
     break;
-- 
2.43.0


From 0aad6ec60ae64d015b7a7afa78b9977b0218796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 45/68] fix: do not recurse over long numbers in XML value
 lists

---
 lib/Feature/FeatureModelParser.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 81c1fd3..98941d8 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -15,7 +15,6 @@
 #include "XmlConstants.h"
 
 #include <iostream>
-#include <regex>
 
 namespace vara::feature {
 
@@ -119,11 +118,15 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
         } else if (!xmlStrcmp(Head->name, XmlConstants::MAXVALUE)) {
           MaxValue = parseInteger(Cnt, Head->line);
         } else if (!xmlStrcmp(Head->name, XmlConstants::VALUES)) {
-          const std::regex Regex(R"(-?\d+)");
-          std::smatch Matches;
-          for (std::string Suffix = Cnt; regex_search(Suffix, Matches, Regex);
-               Suffix = Matches.suffix()) {
-            Values.emplace_back(parseInteger(Matches.str(), Head->line));
+          auto IsDigit = [](char C) { return llvm::isDigit(C); };
+          for (llvm::StringRef Suffix = Cnt;
+               Suffix.find_if(IsDigit) != llvm::StringRef::npos;) {
+            auto Pos = Suffix.find_if(IsDigit);
+            auto Digits = Suffix.drop_front(Pos).take_while(IsDigit);
+            const bool IsNegative = Pos > 0 && Suffix[Pos - 1] == '-';
+            Values.emplace_back(parseInteger(
+                (IsNegative ? "-" : "") + Digits.str(), Head->line));
+            Suffix = Suffix.drop_front(Pos + Digits.size());
           }
         } else if (!xmlStrcmp(Head->name, XmlConstants::STEPFUNCTION)) {
           Step = StepFunctionParser(Cnt, Head->line).buildStepFunction();
-- 
2.43.0


From eed5b0162ce69092a19fe5b5f2f1c1cf2ddea00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 46/68] fix: escape feature labels of the DOT export as
 HTML-like strings

The output string was not escaped at all, names and locations were escaped
for record labels, and constraints for both.
---
 include/vara/Feature/FeatureModel.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index f7053d0..fc10dd9 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -9,6 +9,7 @@
 #include "vara/Utils/UniqueIterator.h"
 
 #include "llvm/ADT/SmallSet.h"
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringMap.h"
 #include "llvm/Support/GraphWriter.h"
 
@@ -575,11 +576,19 @@ struct GraphWriter<vara::feature::FeatureModel *> {
     }
   }
 
+  /// Labels are HTML-like strings of the DOT language, in which only the
+  /// special characters of HTML need to be escaped.
+  static std::string escapeLabelText(llvm::StringRef Text) {
+    std::string Escaped;
+    llvm::raw_string_ostream S(Escaped);
+    llvm::printHTMLEscaped(Text, S);
+    return S.str();
+  }
+
   static std::string buildFeatureLabel(vara::feature::Feature *F) {
     std::stringstream CS;
     for (const auto &C : F->constraints()) {
-      CS << "<tr><td>" << DOT::EscapeString(C->getRoot()->toHTML())
-         << "</td></tr>";
+      CS << "<tr><td>" << C->getRoot()->toHTML() << "</td></tr>";
     }
 
     std::stringstream LS;
@@ -587,7 +596,7 @@ struct GraphWriter<vara::feature::FeatureModel *> {
       LS << "<hr/>";
       for (const auto &Location : F->getLocations()) {
         LS << llvm::formatv("<tr><td><b>{0}</b></td></tr>",
-                            DOT::EscapeString(Location.toString()))
+                            escapeLabelText(Location.toString()))
                   .str();
       }
     }
@@ -597,8 +606,8 @@ struct GraphWriter<vara::feature::FeatureModel *> {
         "cellborder=\"0\" "
         "cellpadding=\"5\">{0}{1}{2}</table>>",
         llvm::formatv("<tr><td><b>{0} (Flag: {1})</b></td></tr>",
-                      DOT::EscapeString(F->getName().str()),
-                      F->getOutputString().trim().str()),
+                      escapeLabelText(F->getName()),
+                      escapeLabelText(F->getOutputString().trim())),
         CS.str(), LS.str());
   }
 
-- 
2.43.0


From c56aecfc64876540373e19f73bcf407b0e21625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 47/68] fix: escape options in written sample sets

Quotes, backslashes and control characters in an option ended the quoted
string or were read as something else.
---
 lib/Sampling/SampleSetWriter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Sampling/SampleSetWriter.cpp b/lib/Sampling/SampleSetWriter.cpp
index eb63dcb..6b31235 100644
--- a/lib/Sampling/SampleSetWriter.cpp
+++ b/lib/Sampling/SampleSetWriter.cpp
@@ -1,6 +1,7 @@
 #include "vara/Sampling/SampleSetWriter.h"
 
 #include <llvm/ObjectYAML/YAML.h>
+#include <llvm/Support/YAMLParser.h>
 #include <llvm/Support/YAMLTraits.h>
 
 LLVM_YAML_IS_STRING_MAP(std::string)
@@ -25,14 +26,16 @@ std::string vara::sampling::SampleSetWriter::writeConfigurations(
           ConfigurationStringFlags.append(", ");
         }
         ConfigurationStringFlags.append("\"");
-        ConfigurationStringFlags.append(F->getOutputString().str());
+        ConfigurationStringFlags.append(llvm::yaml::escape(
+            F->getOutputString(), /*EscapePrintable=*/false));
         if (F->getKind() == feature::Feature::FeatureKind::FK_NUMERIC) {
           auto OptionValue =
               Configuration->configurationOptionValue(F->getName());
           assert(
               OptionValue.has_value() &&
               "Could not retrieve option value, broken configuration option.");
-          ConfigurationStringFlags.append(OptionValue.value());
+          ConfigurationStringFlags.append(llvm::yaml::escape(
+              OptionValue.value(), /*EscapePrintable=*/false));
         }
         ConfigurationStringFlags.append("\"");
       }
-- 
2.43.0


From 960c6e379a330cc358a36b9b38c3def01b9e5560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 48/68] fix: let fm-viewer exit after a successful verification

---
 tools/fm-viewer/FeatureModelViewer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/fm-viewer/FeatureModelViewer.cpp b/tools/fm-viewer/FeatureModelViewer.cpp
index 85e5914..e87bed7 100644
--- a/tools/fm-viewer/FeatureModelViewer.cpp
+++ b/tools/fm-viewer/FeatureModelViewer.cpp
@@ -52,9 +52,12 @@ int main(int Argc, char **Argv) {
     return 1;
   }
 
-  if (Verify && !vara::feature::verifyFeatureModel(FileName.getValue())) {
-    llvm::errs() << "error: Invalid feature model.\n";
-    return 1;
+  if (Verify) {
+    if (!vara::feature::verifyFeatureModel(FileName.getValue())) {
+      llvm::errs() << "error: Invalid feature model.\n";
+      return 1;
+    }
+    return 0;
   }
 
   std::unique_ptr<vara::feature::FeatureModel> FM =
-- 
2.43.0


From a4ce0ccfabc5cf40392cba94817a3c4787f6c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 49/68] fix: report in fm-viewer that the graph could not be
 written

---
 tools/fm-viewer/FeatureModelViewer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/fm-viewer/FeatureModelViewer.cpp b/tools/fm-viewer/FeatureModelViewer.cpp
index e87bed7..026b171 100644
--- a/tools/fm-viewer/FeatureModelViewer.cpp
+++ b/tools/fm-viewer/FeatureModelViewer.cpp
@@ -72,8 +72,11 @@ int main(int Argc, char **Argv) {
     FM->dump();
   } else if (!Out.empty()) {
     llvm::errs() << "Writing '" << Out << "'...";
-    llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()), false, "",
-                     Out.getValue());
+    if (llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()), false, "",
+                         Out.getValue())
+            .empty()) {
+      return 1;
+    }
   } else {
     auto Filename = llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()));
 
-- 
2.43.0


From e1dd30996a72dbdfc292a6282b42cf140691feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 50/68] fix: pass the optional flag to binary features built
 from Python

---
 bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
index 06b36fb..5f9382e 100644
--- a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
@@ -19,7 +19,7 @@ void init_feature_model_builder_module(py::module &M) {
       .def(
           "make_binary_feature",
           [](vf::FeatureModelBuilder &FMB, std::string feature_name, bool Opt) {
-            return FMB.makeFeature<vf::BinaryFeature>(feature_name);
+            return FMB.makeFeature<vf::BinaryFeature>(feature_name, Opt);
           },
           R"pbdoc(Create a new binary `Feature` with the given `feature_name`.)pbdoc")
       .def(
-- 
2.43.0


From d42e71174a15c96e3c7afa47748d4e7852b546bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 51/68] fix: raise an error for unknown relations in the Python
 builder

---
 bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
index 5f9382e..d750881 100644
--- a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
@@ -36,9 +36,10 @@ void init_feature_model_builder_module(py::module &M) {
             vf::Relationship::RelationshipKind RK;
             if (relation == "OR") {
               RK = vf::Relationship::RelationshipKind::RK_OR;
-            } else {
-              assert(relation == "XOR" && "relation had unhandled kind");
+            } else if (relation == "XOR") {
               RK = vf::Relationship::RelationshipKind::RK_ALTERNATIVE;
+            } else {
+              throw py::value_error("Unknown relation: " + relation);
             }
             return FMB.emplaceRelationship(RK, parent_name);
           },
-- 
2.43.0


From a155192859e22aa595ec5fa602da91adea3f7350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 52/68] fix: keep the model of a Python XML writer alive

---
 bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp b/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp
index 195910e..ba6fce6 100644
--- a/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModelXmlWriter.cpp
@@ -11,7 +11,7 @@ namespace py = pybind11;
 
 void init_xml_writer(py::module &M) {
   py::class_<vf::FeatureModelXmlWriter>(M, "FeatureModelXmlWriter")
-      .def(py::init<const vf::FeatureModel &>())
+      .def(py::init<const vf::FeatureModel &>(), py::keep_alive<1, 2>())
       .def(
           "get_feature_model_as_string",
           [](vf::FeatureModelXmlWriter &Fmxw) {
-- 
2.43.0


From 9b93a1aecff1da9493bde8d08d04821e9b58f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 53/68] fix: keep a model alive while its parts are used from
 Python

---
 .../python/vara-feature/pybind_Feature.cpp    | 23 +++++----
 .../vara-feature/pybind_FeatureModel.cpp      | 47 +++++++++++--------
 2 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/bindings/python/vara-feature/pybind_Feature.cpp b/bindings/python/vara-feature/pybind_Feature.cpp
index a06be26..4688aa8 100644
--- a/bindings/python/vara-feature/pybind_Feature.cpp
+++ b/bindings/python/vara-feature/pybind_Feature.cpp
@@ -32,7 +32,8 @@ void init_feature_module_feature_tree_node(py::module &M) {
       //===----------------------------------------------------------------===//
       // Parent
       .def("parent", &vf::FeatureTreeNode::getParent,
-           py::return_value_policy::reference, R"pbdoc(Parent feature)pbdoc")
+           py::return_value_policy::reference_internal,
+           R"pbdoc(Parent feature)pbdoc")
       .def("is_parent", &vf::FeatureTreeNode::hasEdgeFrom,
            R"pbdoc(Checks if a node is a parent of this one.)pbdoc");
 }
@@ -40,10 +41,14 @@ void init_feature_module_feature_tree_node(py::module &M) {
 void init_feature_module_feature(py::module &M) {
   py::class_<vf::Feature, vf::FeatureTreeNode>(M, "Feature")
       .def("__hash__", &vf::Feature::hash)
-      .def_property_readonly("name", &vf::Feature::getName,
-                             R"pbdoc(The name of the feature.)pbdoc")
       .def_property_readonly(
-          "output_string", &vf::Feature::getOutputString,
+          "name",
+          py::cpp_function(&vf::Feature::getName, py::keep_alive<0, 1>()),
+          R"pbdoc(The name of the feature.)pbdoc")
+      .def_property_readonly(
+          "output_string",
+          py::cpp_function(&vf::Feature::getOutputString,
+                           py::keep_alive<0, 1>()),
           R"pbdoc(Returns the output string of a feature.)pbdoc")
       .def(
           "is_root",
@@ -53,10 +58,12 @@ void init_feature_module_feature(py::module &M) {
            R"pbdoc(`True` if the feature is optional.)pbdoc")
       .def_property_readonly(
           "locations",
-          [](vf::Feature &F) {
-            return py::make_iterator(F.getLocationsBegin(),
-                                     F.getLocationsEnd());
-          },
+          py::cpp_function(
+              [](vf::Feature &F) {
+                return py::make_iterator(F.getLocationsBegin(),
+                                         F.getLocationsEnd());
+              },
+              py::keep_alive<0, 1>()),
           R"pbdoc(The mapped code locations of the feature.)pbdoc")
       .def(
           "hasLocations", &vf::Feature::hasLocations,
diff --git a/bindings/python/vara-feature/pybind_FeatureModel.cpp b/bindings/python/vara-feature/pybind_FeatureModel.cpp
index c279a25..543a303 100644
--- a/bindings/python/vara-feature/pybind_FeatureModel.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModel.cpp
@@ -55,7 +55,8 @@ void init_feature_model_module(py::module &M) {
 
   py::class_<vf::FeatureModel>(M, "FeatureModel")
       .def_property_readonly(
-          "name", &vf::FeatureModel::getName,
+          "name",
+          py::cpp_function(&vf::FeatureModel::getName, py::keep_alive<0, 1>()),
           R"pbdoc(Returns the name of the FeatureModel.)pbdoc")
       .def_property_readonly(
           "path",
@@ -68,14 +69,15 @@ void init_feature_model_module(py::module &M) {
           },
           R"pbdoc(Returns the commit associated to the FeatureModel.)pbdoc")
       .def("get_root", &vf::FeatureModel::getRoot,
-           py::return_value_policy::reference,
+           py::return_value_policy::reference_internal,
            R"pbdoc(Returns the root Feature.)pbdoc")
       .def(
           "get_feature",
           [](vf::FeatureModel &FM, const std::string &Name) {
             return FM.getFeature(Name);
           },
-          py::return_value_policy::reference, R"pbdoc(Returns Feature.)pbdoc")
+          py::return_value_policy::reference_internal,
+          R"pbdoc(Returns Feature.)pbdoc")
       .def(
           "add_binary_feature",
           [](vf::FeatureModel &FM, vf::Feature &Parent, std::string Name,
@@ -140,23 +142,30 @@ void init_feature_model_module(py::module &M) {
             return py::make_iterator(FM.begin(), FM.end());
           },
           py::keep_alive<0, 1>())
-      .def_property_readonly("booleanConstraints",
-                             [](const vf::FeatureModel &FM) {
-                               return py::make_iterator(
-                                   FM.booleanConstraints().begin(),
-                                   FM.booleanConstraints().end());
-                             })
-      .def_property_readonly("nonBooleanConstraints",
-                             [](const vf::FeatureModel &FM) {
-                               return py::make_iterator(
-                                   FM.nonBooleanConstraints().begin(),
-                                   FM.nonBooleanConstraints().end());
-                             })
       .def_property_readonly(
-          "mixedConstraints", [](const vf::FeatureModel &FM) {
-            return py::make_iterator(FM.mixedConstraints().begin(),
-                                     FM.mixedConstraints().end());
-          });
+          "booleanConstraints",
+          py::cpp_function(
+              [](const vf::FeatureModel &FM) {
+                return py::make_iterator(FM.booleanConstraints().begin(),
+                                         FM.booleanConstraints().end());
+              },
+              py::keep_alive<0, 1>()))
+      .def_property_readonly(
+          "nonBooleanConstraints",
+          py::cpp_function(
+              [](const vf::FeatureModel &FM) {
+                return py::make_iterator(FM.nonBooleanConstraints().begin(),
+                                         FM.nonBooleanConstraints().end());
+              },
+              py::keep_alive<0, 1>()))
+      .def_property_readonly(
+          "mixedConstraints",
+          py::cpp_function(
+              [](const vf::FeatureModel &FM) {
+                return py::make_iterator(FM.mixedConstraints().begin(),
+                                         FM.mixedConstraints().end());
+              },
+              py::keep_alive<0, 1>()));
   M.def(
       "loadFeatureModel",
       [](const std::filesystem::path &Path) {
-- 
2.43.0


From 8b10622228c047361786e5f5365f5e3324c56c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 54/68] fix: take positions from Python as unsigned numbers

---
 bindings/python/vara-feature/pybind_FeatureSourceRange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/vara-feature/pybind_FeatureSourceRange.cpp b/bindings/python/vara-feature/pybind_FeatureSourceRange.cpp
index 76ed796..07e4cfd 100644
--- a/bindings/python/vara-feature/pybind_FeatureSourceRange.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureSourceRange.cpp
@@ -88,7 +88,7 @@ void init_feature_location_module(py::module &M) {
 
   py::class_<vf::FeatureSourceRange::FeatureSourceLocation>(M,
                                                             "LineColumnOffset")
-      .def(py::init<int, int>())
+      .def(py::init<unsigned, unsigned>())
       .def_property(
           "line_number",
           &vf::FeatureSourceRange::FeatureSourceLocation::getLineNumber,
-- 
2.43.0


From eb606bed58bb1e062445c37a7930c2cb9eb627a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 55/68] fix: let features be compared with None in Python

---
 bindings/python/vara-feature/pybind_Feature.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bindings/python/vara-feature/pybind_Feature.cpp b/bindings/python/vara-feature/pybind_Feature.cpp
index 4688aa8..79539ed 100644
--- a/bindings/python/vara-feature/pybind_Feature.cpp
+++ b/bindings/python/vara-feature/pybind_Feature.cpp
@@ -91,7 +91,15 @@ void init_feature_module_feature(py::module &M) {
       //===----------------------------------------------------------------===//
       // Utility functions
       .def("__str__", &vf::Feature::toString)
-      .def("__eq__", &vf::Feature::operator==)
+      .def(
+          "__eq__",
+          [](const vf::Feature &Self, const vf::Feature *Other) {
+            if (!Other) {
+              return false;
+            }
+            return Self == *Other;
+          },
+          py::arg("Other").none(true))
       .def("__lt__", &vf::Feature::operator<);
 }
 
-- 
2.43.0


From b2f2c15453e18b34d1e28d15053328e90dc7a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 56/68] fix: build a model from a builder only once

---
 lib/Feature/FeatureModelBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Feature/FeatureModelBuilder.cpp b/lib/Feature/FeatureModelBuilder.cpp
index 32f7dec..1fa9472 100644
--- a/lib/Feature/FeatureModelBuilder.cpp
+++ b/lib/Feature/FeatureModelBuilder.cpp
@@ -7,6 +7,10 @@ namespace vara::feature {
 //===----------------------------------------------------------------------===//
 
 std::unique_ptr<FeatureModel> FeatureModelBuilder::buildFeatureModel() {
+  if (!FM) {
+    llvm::errs() << "FeatureModel was already built.\n";
+    return nullptr;
+  }
   assert(FM->getRoot() && "FeatureModel has no root.");
 
   if (Result E = RootBuilder.commit(); !E) {
-- 
2.43.0


From c4c5d186483290701f7d34dbf3f79af9c4fbee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 57/68] fix: take Python lists of two numbers as values

---
 bindings/python/vara-feature/pybind_common.h | 21 ++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bindings/python/vara-feature/pybind_common.h b/bindings/python/vara-feature/pybind_common.h
index f9aa645..79007a9 100644
--- a/bindings/python/vara-feature/pybind_common.h
+++ b/bindings/python/vara-feature/pybind_common.h
@@ -1,2 +1,23 @@
+#include "vara/Feature/Feature.h"
+
 #include "pybind11/stl.h"
 #include "pybind11/stl/filesystem.h"
+
+namespace pybind11::detail {
+
+/// Python lists are always the values of a numeric feature, even if there are
+/// just two of them. Only tuples can be a range.
+template <>
+struct type_caster<vara::feature::NumericFeature::ValuesVariantType>
+    : variant_caster<vara::feature::NumericFeature::ValuesVariantType> {
+  bool load(handle Src, bool Convert) {
+    if (isinstance<list>(Src)) {
+      return load_alternative(
+          Src, Convert,
+          type_list<vara::feature::NumericFeature::ValueListType>{});
+    }
+    return variant_caster::load(Src, Convert);
+  }
+};
+
+} // namespace pybind11::detail
-- 
2.43.0


From d3d285b0df9caecc23cd102853dae1889c8c82d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 58/68] fix: take 64-bit constants in the constraint builder

---
 include/vara/Feature/ConstraintBuilder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Feature/ConstraintBuilder.h b/include/vara/Feature/ConstraintBuilder.h
index c35fa92..741b11a 100644
--- a/include/vara/Feature/ConstraintBuilder.h
+++ b/include/vara/Feature/ConstraintBuilder.h
@@ -206,7 +206,7 @@ public:
   ///     constant(42)
   ///   produces the constraint
   ///     '42'
-  ConstraintBuilder &constant(int V) {
+  ConstraintBuilder &constant(int64_t V) {
     if (!Head || *Head) {
       llvm::errs() << "Syntax error: Unrecognized constant constraint.\n";
       Head = nullptr;
-- 
2.43.0


From 530213f1b96094302700135869ffd78209503ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 59/68] fix: keep 64-bit constants in the constraint builder

---
 include/vara/Feature/ConstraintBuilder.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/ConstraintBuilder.h b/include/vara/Feature/ConstraintBuilder.h
index 741b11a..d8f1873 100644
--- a/include/vara/Feature/ConstraintBuilder.h
+++ b/include/vara/Feature/ConstraintBuilder.h
@@ -213,7 +213,8 @@ public:
       return *this;
     }
     *Head =
-        std::make_unique<PrimaryBuilderImpl<PrimaryIntegerConstraint, int>>(V);
+        std::make_unique<PrimaryBuilderImpl<PrimaryIntegerConstraint, int64_t>>(
+            V);
     Frames.push(std::make_tuple(ConstraintBuilder::MinPrecedence, Head));
     return *this;
   }
-- 
2.43.0


From b4d316655e72be79b1d1fa15be9eb74f8d3ceaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 60/68] fix: parent-child rule dereferences a missing parent

---
 include/vara/Feature/FeatureModel.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index fc10dd9..8d3bfc9 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -690,9 +690,7 @@ struct CheckFeatureParentChildRelationShip {
             [](Feature *F) {
               return llvm::isa<RootFeature>(F) ||
                      // Every parent of a Feature needs to have it as a child.
-                     std::any_of(
-                         F->getParent()->begin(), F->getParent()->end(),
-                         [F](FeatureTreeNode *Child) { return F == Child; });
+                     (F->getParent() && F->getParent()->hasEdgeTo(*F));
             })) {
       return true;
     }
-- 
2.43.0


From 1de8c7799ac0cdeb68562a8598890c7ed40d6773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 61/68] fix: copying a result must not convert it to its value

---
 include/vara/Utils/Result.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/vara/Utils/Result.h b/include/vara/Utils/Result.h
index 595f6c9..965f3fb 100644
--- a/include/vara/Utils/Result.h
+++ b/include/vara/Utils/Result.h
@@ -21,7 +21,10 @@ class Ok {
 public:
   Ok(ValueTy V) : V(std::move(V)) {}
 
-  template <typename... ArgsTy>
+  template <typename... ArgsTy,
+            std::enable_if_t<
+                !std::disjunction_v<std::is_same<std::decay_t<ArgsTy>, Ok>...>,
+                bool> = true>
   Ok(ArgsTy &&...Args) : V(std::forward<ArgsTy>(Args)...) {}
 
   ValueTy operator*() & { return V; }
@@ -63,7 +66,11 @@ class Error {
 public:
   Error(ErrorTy E) : E(std::move(E)) {}
 
-  template <typename... ArgsTy>
+  template <
+      typename... ArgsTy,
+      std::enable_if_t<
+          !std::disjunction_v<std::is_same<std::decay_t<ArgsTy>, Error>...>,
+          bool> = true>
   Error(ArgsTy &&...Args) : E(std::forward<ArgsTy>(Args)...) {}
 
   ErrorTy operator*() & { return E; }
@@ -95,16 +102,22 @@ public:
 
   Result(Error<ErrorTy> E) : Variant(std::move(E)) {}
 
-  template <typename... ArgsTy,
-            std::enable_if_t<std::is_constructible_v<ValueTy, ArgsTy...>,
-                             bool> = true>
+  template <
+      typename... ArgsTy,
+      std::enable_if_t<
+          std::is_constructible_v<ValueTy, ArgsTy...> &&
+              !std::disjunction_v<std::is_same<std::decay_t<ArgsTy>, Result>...>,
+          bool> = true>
   Result(ArgsTy &&...Args)
       : Variant(std::in_place_type<Ok<ValueTy>>,
                 std::forward<ArgsTy>(Args)...) {}
 
-  template <typename... ArgsTy,
-            std::enable_if_t<std::is_constructible_v<ErrorTy, ArgsTy...>,
-                             bool> = true>
+  template <
+      typename... ArgsTy,
+      std::enable_if_t<
+          std::is_constructible_v<ErrorTy, ArgsTy...> &&
+              !std::disjunction_v<std::is_same<std::decay_t<ArgsTy>, Result>...>,
+          bool> = true>
   Result(ArgsTy &&...Args)
       : Variant(std::in_place_type<Error<ErrorTy>>,
                 std::forward<ArgsTy>(Args)...) {}
-- 
2.43.0


From dd4b10a346925948aaaffe425ef07cfc6a5612bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 62/68] fix: tools abort when the output cannot be written
 completely

---
 tools/config-generator/ConfigurationGenerator.cpp |  7 ++++++-
 tools/fm-viewer/FeatureModelViewer.cpp            | 14 +++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/tools/config-generator/ConfigurationGenerator.cpp b/tools/config-generator/ConfigurationGenerator.cpp
index 9d990fc..a30bd6c 100644
--- a/tools/config-generator/ConfigurationGenerator.cpp
+++ b/tools/config-generator/ConfigurationGenerator.cpp
@@ -106,11 +106,16 @@ int main(int Argc, char **Argv) {
                                                              Configurations);
     std::error_code EC;
     auto Out = llvm::raw_fd_ostream(OutputFilePath.getValue(), EC);
+    if (!EC) {
+      Out << Str;
+      Out.flush();
+      EC = Out.error();
+      Out.clear_error();
+    }
     if (EC) {
       llvm::errs() << "error: Error while writing to file.\n";
       return 1;
     }
-    Out << Str;
   }
 
   return 0;
diff --git a/tools/fm-viewer/FeatureModelViewer.cpp b/tools/fm-viewer/FeatureModelViewer.cpp
index 026b171..78f857f 100644
--- a/tools/fm-viewer/FeatureModelViewer.cpp
+++ b/tools/fm-viewer/FeatureModelViewer.cpp
@@ -72,11 +72,19 @@ int main(int Argc, char **Argv) {
     FM->dump();
   } else if (!Out.empty()) {
     llvm::errs() << "Writing '" << Out << "'...";
-    if (llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()), false, "",
-                         Out.getValue())
-            .empty()) {
+    std::error_code EC;
+    llvm::raw_fd_ostream OS(Out.getValue(), EC);
+    if (!EC) {
+      llvm::WriteGraph(OS, FM.get());
+      OS.flush();
+      EC = OS.error();
+      OS.clear_error();
+    }
+    if (EC) {
+      llvm::errs() << " error: " << EC.message() << '\n';
       return 1;
     }
+    llvm::errs() << " done.\n";
   } else {
     auto Filename = llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()));
 
-- 
2.43.0


From fa0c0913fb1fca9264e91b2e0c3ae7c3ce037225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:31 +0000
Subject: [PATCH 63/68] fix: compare parents by their exact names when merging
 models

Features compare equal if their names only differ in case, so a feature
below 'a' in one model and below 'A' in the other was considered to have
the same parent and merging succeeded.
---
 lib/Feature/FeatureModelTransaction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 7c2a8ea..b44e1a8 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -264,7 +264,8 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
   }
   if (F1.getKind() != Feature::FeatureKind::FK_ROOT &&
       F2.getKind() != Feature::FeatureKind::FK_ROOT) {
-    if (*(F1.getParentFeature()) != *(F2.getParentFeature())) {
+    // names that only differ in case belong to different features
+    if (F1.getParentFeature()->getName() != F2.getParentFeature()->getName()) {
       return false;
     }
   }
-- 
2.43.0


From b98a5efc3ce6e48ab08939569529140f4f7b3a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 64/68] fix: refuse to merge models if the root of one is an
 ordinary feature of the other

Parents were only compared if neither feature is a root. Merging a model
into one that has an ordinary feature with the name of its root succeeded
in the non-strict mode and attached its features there.
---
 lib/Feature/FeatureModelTransaction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index b44e1a8..edcd54e 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -262,8 +262,11 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
   if (F1.getName() != F2.getName()) {
     return false;
   }
-  if (F1.getKind() != Feature::FeatureKind::FK_ROOT &&
-      F2.getKind() != Feature::FeatureKind::FK_ROOT) {
+  // the root of one model can not be an ordinary feature of the other
+  if (!F1.getParentFeature() != !F2.getParentFeature()) {
+    return false;
+  }
+  if (F1.getParentFeature()) {
     // names that only differ in case belong to different features
     if (F1.getParentFeature()->getName() != F2.getParentFeature()->getName()) {
       return false;
-- 
2.43.0


From 12560ba78fa52adb5c522678848c695f6dcd4d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:17 +0000
Subject: [PATCH 65/68] fix: iterators at different features compare equal

Features compare equal if their names only differ in case, so two
iterators of a model were equal although they are at different features.
---
 include/vara/Feature/FeatureModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index 8d3bfc9..e9301e1 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -144,7 +144,7 @@ public:
       if (Frontier.empty() || Other.Frontier.empty()) {
         return Frontier.empty() && Other.Frontier.empty();
       }
-      return *this->Frontier.top() == *Other.Frontier.top();
+      return this->Frontier.top() == Other.Frontier.top();
     };
 
     bool operator!=(const DFSIterator &Other) const {
-- 
2.43.0


From 5d5945e1f4d77af8395cf3ccc8f2c4186c807047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:00 +0000
Subject: [PATCH 66/68] fix: report failures of writing a file and take its
 name literally

libxml2 takes the name of a file for an URI and decodes it, so that a model
written to 'a%41.xml' ended up in 'aA.xml'. Errors on closing the file were
ignored, so that a small model was lost if the device was full.
---
 lib/Feature/FeatureModelWriter.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index d309bfa..e05ba75 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -8,6 +8,8 @@
 
 #include "libxml/xmlwriter.h"
 
+#include <cstdio>
+
 #define CHECK_RC                                                               \
   if (RC < 0) {                                                                \
     return RC;                                                                 \
@@ -62,15 +64,25 @@ groupConstraints(const FeatureModel &FM) {
 }
 
 int FeatureModelXmlWriter::writeFeatureModel(std::string Path) {
-  int RC;
-  std::unique_ptr<xmlTextWriter, void (*)(xmlTextWriterPtr)> Writer(
-      xmlNewTextWriterFilename(Path.data(), 0), &xmlFreeTextWriter);
-  if (!Writer) {
+  // libxml2 would take the path for an URI and ignore errors on closing
+  auto *File = std::fopen(Path.c_str(), "wb");
+  if (!File) {
     return -1;
   }
 
-  RC = writeFeatureModel(Writer.get());
-  return RC;
+  int RC = -1;
+  {
+    std::unique_ptr<xmlTextWriter, void (*)(xmlTextWriterPtr)> Writer(
+        xmlNewTextWriter(xmlOutputBufferCreateFile(File, nullptr)),
+        &xmlFreeTextWriter);
+    if (Writer) {
+      RC = writeFeatureModel(Writer.get());
+    }
+  }
+  // the last part of the file is written when the writer is freed or, at the
+  // latest, on closing
+  const bool Failed = std::ferror(File) != 0;
+  return std::fclose(File) == 0 && !Failed ? RC : -1;
 }
 
 std::optional<std::string> FeatureModelXmlWriter::writeFeatureModel() {
-- 
2.43.0


From 70f858a9a8f4bfe440c74f1cd25dc63faf389f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:41 +0000
Subject: [PATCH 67/68] fix: options below a numeric option aborted the solver

Numeric options have a value in every configuration, but their integer variable
was used as the condition for their children.
---
 include/vara/Solver/Z3Solver.h |  8 ++++++++
 lib/Solver/Z3Solver.cpp        | 21 ++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/vara/Solver/Z3Solver.h b/include/vara/Solver/Z3Solver.h
index 9a5772b..39912fa 100644
--- a/include/vara/Solver/Z3Solver.h
+++ b/include/vara/Solver/Z3Solver.h
@@ -78,6 +78,14 @@ private:
   setBinaryFeatureConstraints(const feature::BinaryFeature &Feature,
                               bool IsInAlternativeGroup);
 
+  /// The condition under which the children of the given feature can be
+  /// selected. The feature has to be added to the solver before.
+  ///
+  /// \param Feature the parent feature
+  ///
+  /// \returns the condition as Z3 expression
+  z3::expr isSelected(const feature::Feature &Feature);
+
   /// The context of Z3 needed to initialize variables.
   z3::context Context;
 
diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 8fc3c67..b2713fd 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -147,7 +147,7 @@ Z3Solver::addRelationship(const feature::Relationship &R) {
       OptionToVariableMapping.end()) {
     return PARENT_NOT_PRESENT;
   }
-  auto ParentOption = Context.bool_const(Parent->getName().str().c_str());
+  const z3::expr ParentOption = isSelected(*Parent);
   z3::expr_vector V(Context);
   for (const auto &Child : R.children()) {
     const auto *ChildFeature =
@@ -233,19 +233,26 @@ Z3Solver::setBinaryFeatureConstraints(const feature::BinaryFeature &Feature,
   if (!Feature.getParentFeature()) {
     return Ok();
   }
-  Solver->add(z3::implies(
-      *OptionToVariableMapping[Feature.getName()],
-      *OptionToVariableMapping[Feature.getParentFeature()->getName()]));
+  const z3::expr ParentOption = isSelected(*Feature.getParentFeature());
+  Solver->add(z3::implies(*OptionToVariableMapping[Feature.getName()],
+                          ParentOption));
 
   if (!IsInAlternativeGroup && !Feature.isOptional()) {
-    Solver->add(z3::implies(
-        *OptionToVariableMapping[Feature.getParentFeature()->getName()],
-        *OptionToVariableMapping[Feature.getName()]));
+    Solver->add(z3::implies(ParentOption,
+                            *OptionToVariableMapping[Feature.getName()]));
   }
 
   return Ok();
 }
 
+z3::expr Z3Solver::isSelected(const feature::Feature &Feature) {
+  // Numeric features have a value in all configurations
+  if (Feature.getKind() == feature::Feature::FeatureKind::FK_NUMERIC) {
+    return Context.bool_val(true);
+  }
+  return *OptionToVariableMapping[Feature.getName()];
+}
+
 void Z3Solver::excludeCurrentConfiguration() {
   if (!CurrentModel) {
     return;
-- 
2.43.0


From 49bca6cf2515b2435443b4e3971f9b4a8bda6edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:52 +0000
Subject: [PATCH 68/68] fix: step functions with a number beyond the range of
 double were accepted

Such a number became infinite: the function was written as 'x + inf', which
no reader accepts, so that a model that was read could be written but not
read again.
---
 include/vara/Feature/StepFunctionParser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index b067d32..219b8b1 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -5,6 +5,7 @@
 
 #include <llvm/ADT/StringExtras.h>
 
+#include <cmath>
 #include <deque>
 #include <optional>
 
@@ -210,7 +211,8 @@ private:
         assert(peek().getValue().has_value());
         auto Value = *next().getValue();
         double Number;
-        if (llvm::StringRef(Value).getAsDouble(Number)) {
+        if (llvm::StringRef(Value).getAsDouble(Number) ||
+            !std::isfinite(Number)) {
           llvm::errs() << "Lexical error: Invalid number '" << Value << "'\n";
           return std::nullopt;
         }
-- 
2.43.0

