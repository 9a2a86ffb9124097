From 78fdce55826eddcf97d61ce0c681b525bc178306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 01/36] fix: tokenize '>>' as right shift

The syntax table mapped '>>' to OP_LSHIFT, so 'a >> b' was evaluated as 'a << b'.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 58a87b6..ceaf7f6 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -394,7 +394,7 @@ std::optional<Token> scanSyntax(Scanner& s)
         {"/", Token::OP_DIV},
         {"%", Token::OP_MOD},
         {"<<",Token::OP_LSHIFT},
-        {">>",Token::OP_LSHIFT},
+        {">>",Token::OP_RSHIFT},
         {"~", Token::OP_BITINV},
         {"|", Token::OP_BITOR},
         {"&", Token::OP_BITAND},
-- 
2.43.0


From 40ea7750ee36c39659aee4713738797a6767ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 02/36] fix: reject input containing a NUL character instead of
 dropping the rest

The tokenizer took an embedded NUL for the end of the input and silently
ignored everything after it.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index ceaf7f6..09f2480 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -434,7 +434,7 @@ std::vector<Token> tokenize(std::string_view expr)
         else if (auto t = scanSyntax(s))
             tokens.push_back(std::move(*t));
         else {
-            if (s.at(0) != '\0')
+            if (s)
                 s.fail("Invalid input");
             break;
         }
-- 
2.43.0


From d5b4767572d2c26684e68fbcbfee3438f5dced99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 03/36] fix: report binary literals without digits

'0b' followed by one of a-f passed the digit check; the prefix was then
consumed without producing a token, e.g. '0bf' became the word 'f'.
---
 src/token.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 09f2480..4b6ed6e 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -336,7 +336,8 @@ std::optional<Token> scanNumber(Scanner& s)
     else if (s.match("0b", Scanner::Skip))
         base = 2;
 
-    if (base != 10 && !isxdigit(s.at(0)))
+    if ((base == 16 && !isxdigit(s.at(0))) ||
+        (base == 2 && !isdigit(s.at(0))))
         s.fail("Expected at least one digit after base specifier");
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
-- 
2.43.0


From 933a358095d6482fdbf23f87d31c7b6410e4799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 04/36] fix: do not overflow on large integer literals

Scanning a literal above INT64_MAX was a signed overflow and produced an
arbitrary value. Such integers are now rejected; floats with a large
integer part and scientific literals keep their magnitude.
---
 src/token.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index 4b6ed6e..8cf088a 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cassert>
+#include <limits>
 #include <ostream>
 #include <stdexcept>
 #include <string_view>
@@ -342,16 +343,23 @@ std::optional<Token> scanNumber(Scanner& s)
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
         int64_t n = 0;
+        double f = 0; /* For floats with an integer part exceeding int64_t */
+        auto overflow = false;
         while (isdigit(s.at(0)) || (base > 10 && isxdigit(s.at(0)))) {
-            n *= base;
-            n += chr2digit(s, base, s.pop());
+            const int64_t digit = chr2digit(s, base, s.pop());
+            f = f * base + static_cast<double>(digit);
+            if (n > (std::numeric_limits<int64_t>::max() - digit) / base)
+                overflow = true;
+            if (!overflow)
+                n = n * base + digit;
         }
+        if (!overflow)
+            f = static_cast<double>(n);
 
         if (s.match(".", Scanner::Skip)) {
             if (base != 10)
                 s.fail("Decimal point is allowed for base 10 numbers only");
 
-            double f = n;
             for (auto i = 1; isdigit(s.at(0)); ++i) {
                 f += (s.pop() - '0') / std::pow(10, i);
             }
@@ -365,9 +373,11 @@ std::optional<Token> scanNumber(Scanner& s)
 
         /* SCI notation results in float if exponent != 0 (=1) */
         if (auto sci = parseSciSuffix(s); sci != 1)
-            return Token(Token::FLOAT, n * sci, begin, s.pos());
+            return Token(Token::FLOAT, f * sci, begin, s.pos());
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
+        if (overflow)
+            s.fail("Integer literal out of range");
 
         return Token(Token::INT, n, begin, s.pos());
     }
-- 
2.43.0


From cc3d651b2efcdce072de70f6705ee10658ed0685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 05/36] fix: reject trailing characters after integer literals
 with an exponent

'1e5x' was split into the float 1e5 and the word 'x', and '1e5.5' into two
floats, while '1.0e5x' and '15x' are reported as errors.
---
 src/token.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index 8cf088a..712d8f5 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -372,10 +372,11 @@ std::optional<Token> scanNumber(Scanner& s)
         }
 
         /* SCI notation results in float if exponent != 0 (=1) */
-        if (auto sci = parseSciSuffix(s); sci != 1)
-            return Token(Token::FLOAT, f * sci, begin, s.pos());
+        const auto sci = parseSciSuffix(s);
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
+        if (sci != 1)
+            return Token(Token::FLOAT, f * sci, begin, s.pos());
         if (overflow)
             s.fail("Integer literal out of range");
 
-- 
2.43.0


From 450a697ad195312a4f54f66a55610d04e5ab2cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 06/36] fix: reject exponents without digits (1e, 1e+5) instead
 of ignoring the mark

---
 src/token.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/token.cpp b/src/token.cpp
index 712d8f5..70884a7 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -316,6 +316,9 @@ std::optional<Token> scanNumber(Scanner& s)
             s.pop();
 
             const auto neg = s.match("-", Scanner::Skip);
+            if (!isdigit(s.at(0)))
+                s.fail("Expected at least one digit in exponent");
+
             double exp = 0;
             while (isdigit(s.at(0))) {
                 exp *= 10.;
-- 
2.43.0


From 1943706f64481663ce25ef31349dd280193be42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:44 +0000
Subject: [PATCH 07/36] fix: integer overflow in arithmetic operators

Signed overflow of + - * and unary minus is undefined, and INT64_MIN / -1
and INT64_MIN % -1 terminate the process with SIGFPE. Wrap around instead.
---
 include/simfil/operator.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 884eff0..bf00ef1 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -81,8 +81,13 @@ struct OperatorNegate
 {
     NAME("-")
     DENY_OTHER()
-    DECL_OPERATION(int64_t, -)
     DECL_OPERATION(double,  -)
+
+    /* Wraps around on overflow. */
+    auto operator()(int64_t v) const -> int64_t
+    {
+        return static_cast<int64_t>(uint64_t{0} - static_cast<uint64_t>(v));
+    }
 };
 
 struct OperatorBool
@@ -353,13 +358,21 @@ struct OperatorAsString
         return a op b;                                              \
     }
 
+/* Signed overflow is undefined; integer arithmetic wraps around instead. */
+#define DECL_WRAPPING_OPERATION(op)                                 \
+    auto operator()(int64_t a, int64_t b) const -> int64_t          \
+    {                                                               \
+        return static_cast<int64_t>(                                \
+            static_cast<uint64_t>(a) op static_cast<uint64_t>(b));  \
+    }
+
 
 struct OperatorAdd
 {
     NAME("+")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,            int64_t,            +)
+    DECL_WRAPPING_OPERATION(+)
     DECL_OPERATION(int64_t,            double,             +)
     DECL_OPERATION(double,             int64_t,            +)
     DECL_OPERATION(double,             double,             +)
@@ -408,7 +421,7 @@ struct OperatorSub
     NAME("-")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,     int64_t,     -)
+    DECL_WRAPPING_OPERATION(-)
     DECL_OPERATION(int64_t,     double,      -)
     DECL_OPERATION(double,      int64_t,     -)
     DECL_OPERATION(double,      double,      -)
@@ -419,7 +432,7 @@ struct OperatorMul
     NAME("*")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,     int64_t,     *)
+    DECL_WRAPPING_OPERATION(*)
     DECL_OPERATION(int64_t,     double,      *)
     DECL_OPERATION(double,      int64_t,     *)
     DECL_OPERATION(double,      double,      *)
@@ -435,6 +448,8 @@ struct OperatorDiv
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1)
+            return OperatorNegate()(l); /* INT64_MIN / -1 overflows */
         return static_cast<int64_t>(l / r);
     }
 
@@ -470,6 +485,8 @@ struct OperatorMod
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1)
+            return 0; /* INT64_MIN % -1 overflows */
         return static_cast<int64_t>(l % r);
     }
 };
@@ -620,6 +637,7 @@ struct OperatorShr
 
 #undef DENY_OTHER
 #undef DECL_OPERATION
+#undef DECL_WRAPPING_OPERATION
 #undef NULL_AS
 #undef NULL_AS_NULL
 #undef NAME
-- 
2.43.0


From 42a6bfb982f7fc107ef16d921f7219d50e9fe7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 08/36] fix: undefined behaviour of shifts by 64 or more bits
 or negative counts

---
 include/simfil/operator.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index bf00ef1..57054ed 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -623,7 +623,13 @@ struct OperatorShl
     NULL_AS_NULL()
     INT_AS_UINT()
     DENY_OTHER()
-    DECL_OPERATION(uint64_t,     uint64_t,     <<)
+
+    /* Shifting by the width of the type or more is undefined;
+     * all bits are shifted out instead. */
+    auto operator()(uint64_t l, uint64_t r) const -> uint64_t
+    {
+        return r < 64 ? l << r : 0;
+    }
 };
 
 struct OperatorShr
@@ -632,7 +638,13 @@ struct OperatorShr
     NULL_AS_NULL()
     INT_AS_UINT()
     DENY_OTHER()
-    DECL_OPERATION(uint64_t,     uint64_t,     >>)
+
+    /* Shifting by the width of the type or more is undefined;
+     * all bits are shifted out instead. */
+    auto operator()(uint64_t l, uint64_t r) const -> uint64_t
+    {
+        return r < 64 ? l >> r : 0;
+    }
 };
 
 #undef DENY_OTHER
-- 
2.43.0


From ce81daae82f2cf219f622dbbd73c2069538d217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 09/36] fix: return 0 when casting a float that does not fit to
 int

---
 include/simfil/operator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 57054ed..dcd46b2 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -214,6 +214,9 @@ struct OperatorAsInt
 
     auto operator()(double v) const
     {
+        /* Converting a number that does not fit is undefined. */
+        if (!(v >= -9223372036854775808.0 && v < 9223372036854775808.0))
+            return (int64_t)0;
         return static_cast<int64_t>(v);
     }
 
-- 
2.43.0


From 8a00c2c635b0ec3a0f60834eca310dfcbe961c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 10/36] fix: 'as float' of an object or array is a float

---
 include/simfil/operator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index dcd46b2..14fa473 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -266,7 +266,7 @@ struct OperatorAsFloat
 
     auto operator()(const ModelNode&) const
     {
-        return (int64_t)0.0;
+        return 0.0;
     }
 
     NULL_AS((double)0)
-- 
2.43.0


From 937edf5de3f5ef8183f9da99cb10f2eafd2ccd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 11/36] fix: integer overflow when unpacking a range that
 starts at the limits of int64

---
 src/types.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/types.cpp b/src/types.cpp
index 81cb5ec..a611548 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -81,12 +81,12 @@ auto IRangeType::unpack(const IRange& self, std::function<bool(Value)> res) cons
     auto step = 1;
     if (begin > end)
         step = -1;
-    auto i = begin - step;
-    do {
-        i += step;
+    for (auto i = begin;; i += step) {
         if (!res(Value(ValueType::Int, static_cast<int64_t>(i))))
             return;
-    } while (i != end);
+        if (i == end)
+            return;
+    }
 }
 
 ReType ReType::Type;
-- 
2.43.0


From f307b186a351f3d384245b388f20706a3134c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 12/36] fix: integer overflow in the length of a range

---
 src/types.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types.cpp b/src/types.cpp
index a611548..8aa525d 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -34,7 +34,8 @@ auto IRangeType::unaryOp(std::string_view op, const IRange& self) const -> Value
         return Value::make(fmt::format("{}..{}", self.begin, self.end));
 
     if (op == OperatorLen::name())
-        return Value::make(static_cast<int64_t>(self.high() - self.low()));
+        return Value::make(static_cast<int64_t>(static_cast<uint64_t>(self.high()) -
+                                                static_cast<uint64_t>(self.low())));
 
     raise<InvalidOperandsError>(op);
 }
-- 
2.43.0


From 2f80c53ce037d2eb281d37cf305c5863467cb80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 13/36] fix: give < <= > >= their documented precedence, above
 == and !=

---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index a987a40..009713a 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1359,10 +1359,10 @@ auto compile(Environment& env, std::string_view sv, bool any, bool autoWildcard)
     /* Comparison/Test */
     p.infixParsers[Token::OP_EQ]     = std::make_unique<BinaryOpParser<OperatorEq,   Precedence::EQUALITY>>();
     p.infixParsers[Token::OP_NOT_EQ] = std::make_unique<BinaryOpParser<OperatorNeq,  Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::EQUALITY>>();
+    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::COMPARISON>>();
     p.infixParsers[Token::OP_AND]    = std::make_unique<AndOrParser>();
     p.infixParsers[Token::OP_OR]     = std::make_unique<AndOrParser>();
 
-- 
2.43.0


From f91f22093a7adac967233e9d682519c4acdf490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 14/36] fix: operands of ? and ... must not swallow operators
 of lower precedence

---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 009713a..c7e09b7 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1065,7 +1065,7 @@ class UnaryPostOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1081,7 +1081,7 @@ class UnpackOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1104,8 +1104,8 @@ class WordOpParser : public InfixParselet
                                                                                std::move(left),
                                                                                std::move(right)));
         /* Parse as unary operator */
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
-                                                                                       std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
+                                                                          std::move(left)));
     }
 
     auto precedence() const -> int override
-- 
2.43.0


From 302522a1b6bd728e164c021a11f8aa574da47a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 15/36] fix: honour Result::Stop everywhere (constant folding
 dropped values not known at compile time: arr(a.b, 5) became 5)

---
 src/function.cpp |  2 +-
 src/simfil.cpp   | 24 +++++++++++-------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 716947a..4524394 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -508,7 +508,7 @@ auto SplitFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, con
     auto items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());
     for (auto&& item : items) {
         if (res(subctx, Value::make(std::move(item))) == Result::Stop)
-            break;
+            return Result::Stop;
     }
 
     return Result::Continue;
diff --git a/src/simfil.cpp b/src/simfil.cpp
index c7e09b7..bdc0d4a 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -169,16 +169,17 @@ struct CountedResultFn : ResultFn
     }
 
     /* NOTE: You _must_ call finish before destruction! */
-    auto ensureCall()
+    auto ensureCall(Result result) -> Result
     {
         assert(!finished);
         if (calls == 0 && !finished) {
             finished = true;
             if (nonctx.phase == Context::Phase::Compilation)
-                fn(nonctx, Value::undef());
+                return fn(nonctx, Value::undef());
             else
-                fn(nonctx, Value::null());
+                return fn(nonctx, Value::null());
         }
+        return result;
     }
 };
 
@@ -227,8 +228,7 @@ public:
         };
 
         auto r = Iterate{ctx, res}.iterate(*val.node, 0);
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -268,7 +268,7 @@ public:
             return true;
         }));
 
-        return Result::Continue;
+        return result;
     }
 
     auto toString() const -> std::string override
@@ -457,8 +457,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -505,8 +504,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -608,8 +606,7 @@ public:
                 return res(ctx, std::move(vv));
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     };
 
     auto toString() const -> std::string override
@@ -646,7 +643,8 @@ public:
                 auto r = Result::Continue;
                 obj.meta->unpack(obj, [&](Value vv) {
                     anyval = true;
-                    return res(ctx, std::move(vv)) == Result::Continue;
+                    r = res(ctx, std::move(vv));
+                    return r == Result::Continue;
                 });
 
                 if (r == Result::Stop)
-- 
2.43.0


From 05e710ea83710fd085d8c6e202971cc4e9e15df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 16/36] fix: '**' below a value which is not a model node
 dereferenced null

---
 src/simfil.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index bdc0d4a..226f8fa 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -227,6 +227,10 @@ public:
             };
         };
 
+        /* A value which is not part of a model has no children */
+        if (!val.node)
+            return ores(ctx, std::move(val));
+
         auto r = Iterate{ctx, res}.iterate(*val.node, 0);
         return res.ensureCall(r);
     }
-- 
2.43.0


From 0da73c4851061fc2d99d55ca364a9531bce2bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 17/36] fix: enforce the limit on the number of values of a
 constant expression (range(0, 1000000000)... exhausted memory when compiled)

---
 src/simfil.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 226f8fa..5721a94 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -923,17 +923,17 @@ static auto simplifyOrForward(Environment* env, ExprPtr expr) -> ExprPtr
 
     std::deque<Value> values;
     auto stub = Context(env, Context::Phase::Compilation);
-    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&](Context ctx, Value vv) {
         if (!vv.isa(ValueType::Undef) || vv.node) {
+            if (values.size() >= MultiConstExpr::Limit) {
+                values.clear();
+                return Result::Stop;
+            }
+
             values.push_back(std::move(vv));
             return Result::Continue;
         }
 
-        if (++n > MultiConstExpr::Limit) {
-            values.clear();
-            return Result::Stop;
-        }
-
         values.clear();
         return Result::Stop;
     }));
-- 
2.43.0


From 23b25f97855f63173bb0bebb87a401451377a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 18/36] fix: integer overflow in the bounds of select, and the
 end of a selection must not stop the enclosing expression

---
 src/function.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 4524394..9499a71 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -543,19 +543,19 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
 
     auto iidx = idx.as<ValueType::Int>();
     auto icnt = cnt.as<ValueType::Int>();
-    if (icnt <= 0)
-        icnt = std::numeric_limits<int>::max();
 
-    auto result = args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
+    /* Only the callers Stop is forwarded, not the end of the selection */
+    auto result = Result::Continue;
+    (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = (int64_t)-1](Context ctx, Value vv) mutable {
         ++n;
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
-                return res(ctx, std::move(vv));
-        if (n >= iidx + icnt)
+                return result = res(ctx, std::move(vv));
+        if (n < iidx)
+            return Result::Continue;
+        if (icnt > 0 && (uint64_t)n - (uint64_t)iidx >= (uint64_t)icnt)
             return Result::Stop;
-        if (n >= iidx)
-            return res(ctx, std::move(vv));
-        return Result::Continue;
+        return result = res(ctx, std::move(vv));
     }));
 
     return result;
-- 
2.43.0


From efc7c5c3cfbc200928e37228b1ac974dcd455b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 19/36] fix: OverlayNode::set must replace an existing value
 ($sum of an expression with several results)

---
 src/overlay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 612ea8e..7b04ec1 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -20,7 +20,7 @@ OverlayNode::OverlayNode(ModelNode const& n)
 
 auto OverlayNode::set(StringId const& key, Value const& child) -> void
 {
-    model().overlayChildren_.insert({key, child});
+    model().overlayChildren_.insert_or_assign(key, child);
 }
 
 [[nodiscard]] ScalarValueType OverlayNode::value() const
-- 
2.43.0


From 2b25f5f13f055eaf33cf19da8f0eeabb8b2397f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 20/36] fix: OverlayNode of a value without model node
 dereferenced null

---
 src/overlay.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 7b04ec1..b9a40f9 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -41,25 +41,35 @@ auto OverlayNode::set(StringId const& key, Value const& child) -> void
             return iter->second.node;
         return ValueNode(iter->second.getScalar());
     }
+    if (!model().value_.node)
+        return {};
     return model().value_.node->get(key);
 }
 
 [[nodiscard]] ModelNode::Ptr OverlayNode::at(int64_t i) const
 {
+    if (!model().value_.node)
+        return {};
     return model().value_.node->at(i);
 }
 
 [[nodiscard]] StringId OverlayNode::keyAt(int64_t i) const
 {
+    if (!model().value_.node)
+        return {};
     return model().value_.node->keyAt(i);
 }
 
 [[nodiscard]] uint32_t OverlayNode::size() const
 {
+    if (!model().value_.node)
+        return 0;
     return model().value_.node->size();
 }
 
 [[nodiscard]] bool OverlayNode::iterate(IterCallback const& cb) const {
+    if (!model().value_.node)
+        return true;
     return model().value_.node->iterate(cb);
 }
 
-- 
2.43.0


From ed4858490d7436017ea02102529e60497c5a936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 21/36] fix: sum with an expression or initial value over model
 data was evaluated to null at compile time

---
 src/function.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 9499a71..5d6cb6a 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -583,24 +583,42 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
 
     const Expr* subexpr = args.size() >= 2 ? args[1].get() : nullptr;
     const Expr* initval = args.size() == 3 ? args[2].get() : nullptr;
+    auto undef = false; /* At least one value is undef */
+    const auto isUndef = [&](const Value& vv) {
+        if (ctx.phase == Context::Phase::Compilation && vv.isa(ValueType::Undef))
+            undef = true;
+        return undef;
+    };
+
     if (initval)
         (void)initval->eval(ctx, val, LambdaResultFn([&](Context ctx, Value vv) {
+            if (isUndef(vv))
+                return Result::Stop;
             sum = std::move(vv);
             return Result::Continue;
         }));
 
-    (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+    if (!undef)
+      (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+        if (isUndef(vv))
+            return Result::Stop;
+
         if (subexpr) {
             auto ov = model_ptr<OverlayNode>::make(vv);
             ov->set(StringPool::OverlaySum, sum);
             ov->set(StringPool::OverlayValue, vv);
             ov->set(StringPool::OverlayIndex, Value::make((int64_t)n++));
 
-            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum](auto ctx, auto vv) {
+            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&](auto ctx, auto vv) {
+                if (isUndef(vv))
+                    return Result::Stop;
                 ov->set(StringPool::OverlaySum, vv);
                 sum = vv;
                 return Result::Continue;
             }));
+
+            if (undef)
+                return Result::Stop;
         } else {
             if (sum.isa(ValueType::Null)) {
                 sum = std::move(vv);
@@ -612,6 +630,8 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         return Result::Continue;
     }));
 
+    if (undef)
+        return res(std::move(ctx), Value::undef());
     return res(std::move(ctx), sum);
 }
 
-- 
2.43.0


From f8e361b438bbb5cf4f682d491aeba009d88b1a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 22/36] fix: paths and sub-queries must forward values which
 are unknown at compile time (count(arr(1, a)._) was evaluated to 1)

---
 src/simfil.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 5721a94..487a768 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -500,7 +500,7 @@ public:
             return sub_->eval(ctx, lv, LambdaResultFn([&res, &lv](Context ctx, Value vv) {
                 auto bv = UnaryOperatorDispatcher<OperatorBool>::dispatch(vv);
                 if (bv.isa(ValueType::Undef))
-                    return Result::Continue;
+                    return res(ctx, std::move(bv));
 
                 if (bv.isa(ValueType::Bool) && bv.template as<ValueType::Bool>())
                     return res(ctx, lv);
@@ -595,14 +595,14 @@ public:
 
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &res](Context ctx, Value v) {
             if (v.isa(ValueType::Undef))
-                return Result::Continue;
+                return res(ctx, std::move(v));
 
             if (v.isa(ValueType::Null) && !v.node)
                 return Result::Continue;
 
             return right_->eval(ctx, std::move(v), LambdaResultFn([this, &res](Context ctx, Value vv) {
                 if (vv.isa(ValueType::Undef))
-                    return Result::Continue;
+                    return res(ctx, std::move(vv));
 
                 if (vv.isa(ValueType::Null) && !vv.node)
                     return Result::Continue;
-- 
2.43.0


From 446008c1c51aad60681a178438c1a65798fc1abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 23/36] fix: report unsupported custom operators of ranges and
 regular expressions as a runtime error with a message

---
 src/simfil.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 487a768..491708e 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -16,6 +16,7 @@
 #include <cstdint>
 #include <iterator>
 #include <memory>
+#include <optional>
 #include <string>
 #include <string_view>
 #include <type_traits>
@@ -764,7 +765,15 @@ public:
 
             if (val.isa(ValueType::TransientObject)) {
                 const auto& obj = val.as<ValueType::TransientObject>();
-                return res(ctx, obj.meta->unaryOp(ident_, obj));
+                std::optional<Value> result;
+                try {
+                    result = obj.meta->unaryOp(ident_, obj);
+                } catch (const InvalidOperandsError&) {
+                    /* Report the unsupported operator below */
+                }
+
+                if (result)
+                    return res(ctx, std::move(*result));
             }
 
             raise<std::runtime_error>(fmt::format("Invalid operator '{}' for value of type {}",
@@ -802,15 +811,21 @@ public:
                 if (lval.isa(ValueType::Undef) || rval.isa(ValueType::Undef))
                     return res(ctx, Value::undef());
 
-                if (lval.isa(ValueType::TransientObject)) {
-                    const auto& obj = lval.template as<ValueType::TransientObject>();
-                    return res(ctx, obj.meta->binaryOp(ident_, obj, rval));
+                std::optional<Value> result;
+                try {
+                    if (lval.isa(ValueType::TransientObject)) {
+                        const auto& obj = lval.template as<ValueType::TransientObject>();
+                        result = obj.meta->binaryOp(ident_, obj, rval);
+                    } else if (rval.isa(ValueType::TransientObject)) {
+                        const auto& obj = rval.template as<ValueType::TransientObject>();
+                        result = obj.meta->binaryOp(ident_, lval, obj);
+                    }
+                } catch (const InvalidOperandsError&) {
+                    /* Report the unsupported operator below */
                 }
 
-                if (rval.isa(ValueType::TransientObject)) {
-                    const auto& obj = rval.template as<ValueType::TransientObject>();
-                    return res(ctx, obj.meta->binaryOp(ident_, lval, obj));
-                }
+                if (result)
+                    return res(ctx, std::move(*result));
 
                 raise<std::runtime_error>(fmt::format("Invalid operator '{}' for values of type {} and {}",
                                                       ident_, valueType2String(lval.type), valueType2String(rval.type)));
-- 
2.43.0


From cddb5f373f43de1a3d4575e638aeaa9136444015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 24/36] fix: the StringPool wrapped to the static ids after an
 id overflow, giving them to new strings

---
 src/model/string-pool.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index dcc7bfc..2ce85b3 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -7,6 +7,7 @@
 #include <fmt/core.h>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <mutex>
 #include <stdexcept>
 #include <locale>
@@ -110,12 +111,15 @@ StringId StringPool::emplace(std::string_view const& str)
             return it->second;
         }
 
-        // Store the string to maintain ownership.
-        auto& storedString = storedStrings_.emplace_back(str);
-        StringId id = nextId_++;
-        if (nextId_ < id) {
+        // The last id must remain free, as nextId_ would wrap to the static ids otherwise.
+        StringId id = nextId_;
+        if (id == std::numeric_limits<StringId>::max()) {
             raise<std::overflow_error>("StringPool id overflow!");
         }
+        ++nextId_;
+
+        // Store the string to maintain ownership.
+        auto& storedString = storedStrings_.emplace_back(str);
         idForString_.emplace(storedString, id);
         stringForId_.emplace(id, storedString);
         byteSize_ += static_cast<int64_t>(storedString.size());
-- 
2.43.0


From 7b5a258238ee443e0f2257cc4df558e1f4e17486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 25/36] fix: a copied StringPool referred to the strings of the
 original

---
 src/model/string-pool.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 2ce85b3..328d632 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -82,8 +82,16 @@ StringPool::StringPool(const StringPool& other)
         }
     }
 
-    // Copy stringForId_.
-    stringForId_ = other.stringForId_;
+    // Rebuild stringForId_, whose string_views must also point into this->storedStrings_.
+    for (const auto& [id, oldStrView] : other.stringForId_) {
+        auto it = strDataToNewStrView.find(oldStrView.data());
+        if (it != strDataToNewStrView.end()) {
+            stringForId_.emplace(id, it->second);
+        }
+        else {
+            raise<std::runtime_error>("Failed to rebuild stringForId_ in StringPool copy constructor");
+        }
+    }
 
     // Copy other member variables.
     nextId_ = other.nextId_;
-- 
2.43.0


From b852ff1d18a1294f6a75ab9a8451a94f4420e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 26/36] fix: data race between StringPool::highest and emplace

---
 src/model/string-pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 328d632..376dcf7 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -159,6 +159,7 @@ std::optional<std::string_view> StringPool::resolve(const StringId& id) const
 
 StringId StringPool::highest() const
 {
+    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);
     return nextId_ - 1;
 }
 
@@ -198,7 +199,7 @@ void StringPool::write(std::ostream& outputStream, const StringId offset) const
 
     // Calculate how many strings will be sent
     StringId sendStrCount = 0;
-    const auto high = highest();
+    const StringId high = nextId_ - 1;
     for (auto strId = offset; strId <= high; ++strId) {
         auto it = stringForId_.find(strId);
         if (it != stringForId_.end())
-- 
2.43.0


From 2d520d223e178c4c739d272c311e58f5aada452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 27/36] fix: data race between StringPool::operator== and
 emplace

---
 src/model/string-pool.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 376dcf7..0f37db3 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -254,6 +254,13 @@ void StringPool::read(std::istream& inputStream)
 }
 
 bool StringPool::operator==(const StringPool &other) const {
+    if (this == &other)
+        return true;
+
+    std::shared_lock lockThis(stringStoreMutex_, std::defer_lock);
+    std::shared_lock lockOther(other.stringStoreMutex_, std::defer_lock);
+    std::lock(lockThis, lockOther);
+
     return idForString_ == other.idForString_;
 }
 
-- 
2.43.0


From 113820d52f3520728575ee22207e4a767cb1624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 28/36] fix: null values could not be added to objects, arrays
 or roots (importing JSON with a null failed)

---
 include/simfil/model/model.h      | 9 +++++++++
 include/simfil/model/nodes.impl.h | 4 ++--
 src/model/model.cpp               | 2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/simfil/model/model.h b/include/simfil/model/model.h
index 1541c5e..83c89f3 100644
--- a/include/simfil/model/model.h
+++ b/include/simfil/model/model.h
@@ -61,6 +61,15 @@ public:
     ModelNode::Ptr newSmallValue(int16_t value);
     ModelNode::Ptr newSmallValue(uint16_t value);
 
+    /**
+     * Get the address of the given node, or that of a null value if it is
+     * unset. The latter must not be zero, as that means no node at all.
+     */
+    static ModelNodeAddress addrOrNull(ModelNode::Ptr const& node)
+    {
+        return node ? node->addr() : ModelNodeAddress{Null, 1};
+    }
+
     /**
      * Lookup a field name for a field-id.
      *
diff --git a/include/simfil/model/nodes.impl.h b/include/simfil/model/nodes.impl.h
index 775e2dc..e77c35f 100644
--- a/include/simfil/model/nodes.impl.h
+++ b/include/simfil/model/nodes.impl.h
@@ -60,7 +60,7 @@ template <class ModelType, class ModelNodeType>
 BaseArray<ModelType, ModelNodeType>&
 BaseArray<ModelType, ModelNodeType>::appendInternal(ModelNode::Ptr const& value)
 {
-    storage_->push_back(members_, value->addr());
+    storage_->push_back(members_, Model::addrOrNull(value));
     return *this;
 }
 
@@ -151,7 +151,7 @@ BaseObject<ModelType, ModelNodeType>& BaseObject<ModelType, ModelNodeType>::addF
     ModelNode::Ptr const& value)
 {
     auto fieldId = model().strings()->emplace(name);
-    storage_->emplace_back(members_, fieldId, value->addr());
+    storage_->emplace_back(members_, fieldId, Model::addrOrNull(value));
     return *this;
 }
 
diff --git a/src/model/model.cpp b/src/model/model.cpp
index 85af8dc..06b65fa 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -244,7 +244,7 @@ ModelNode::Ptr ModelPool::root(size_t const& i) const {
 }
 
 void ModelPool::addRoot(ModelNode::Ptr const& rootNode) {
-    impl_->columns_.roots_.emplace_back(rootNode->addr_);
+    impl_->columns_.roots_.emplace_back(addrOrNull(rootNode));
 }
 
 model_ptr<Object> ModelPool::newObject(size_t initialFieldCapacity)
-- 
2.43.0


From c31fa17848694f06168c97bab0a925f6186c5ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 29/36] fix: JSON integers beyond int64 were imported as
 negative numbers

---
 src/model/json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 06728b4..0b2d692 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -5,6 +5,8 @@
 
 #include <nlohmann/json.hpp>
 
+#include <limits>
+
 namespace simfil::json
 {
 using json = nlohmann::json;
@@ -19,6 +21,9 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
     case json::value_t::number_float:
         return model.newValue(j.get<double>());
     case json::value_t::number_unsigned:
+        // Values beyond int64 become floats, like those beyond uint64.
+        if (j.get<uint64_t>() > (uint64_t)std::numeric_limits<int64_t>::max())
+            return model.newValue(j.get<double>());
         return model.newValue((int64_t)j.get<uint64_t>());
     case json::value_t::number_integer:
         return model.newValue(j.get<int64_t>());
-- 
2.43.0


From 15270143b278217fe62120c9d73a7f1a2b1467cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 30/36] fix: ModelPool::read into a used pool appended to its
 objects and arrays but replaced everything else

---
 include/simfil/model/bitsery-traits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/simfil/model/bitsery-traits.h b/include/simfil/model/bitsery-traits.h
index a2318c4..c981c10 100644
--- a/include/simfil/model/bitsery-traits.h
+++ b/include/simfil/model/bitsery-traits.h
@@ -61,6 +61,9 @@ struct ArrayArenaExt
     template <typename S, typename ElementType, size_t PageSize, size_t ChunkPageSize, typename Fnc>
     void deserialize(S& s, simfil::ArrayArena<ElementType, PageSize, ChunkPageSize>& arena, Fnc&& fnc) const
     {
+        // Replace the current content, as for all other containers.
+        arena.clear();
+
         simfil::ArrayIndex numArrays;
         s.value4b(numArrays);
         for (simfil::ArrayIndex i = 0; i < numArrays; ++i) {
-- 
2.43.0


From 36f52b8f6b59d33e46662fe07f81aa1334f125a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 31/36] fix: validate a model with cyclic references without
 unbounded recursion

---
 src/model/model.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 06b65fa..ec6657f 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -4,6 +4,7 @@
 #include "simfil/model/nodes.h"
 
 #include <memory>
+#include <set>
 #include <type_traits>
 #include <variant>
 #include <vector>
@@ -122,7 +123,8 @@ std::vector<std::string> ModelPool::checkForErrors() const
             errors.push_back(fmt::format("Bad string ID: {}", str));
     };
 
-    std::function<void(ModelNode::Ptr)> validateModelNode = [&](ModelNode::Ptr node)
+    std::function<void(ModelNode::Ptr)> validateModelNode;
+    auto validateNode = [&](ModelNode::Ptr const& node)
     {
         try {
             if (node->type() == ValueType::Object) {
@@ -148,6 +150,20 @@ std::vector<std::string> ModelPool::checkForErrors() const
         }
     };
 
+    // Must not enter a node which (indirectly) contains itself.
+    std::set<uint32_t> ancestors;
+    validateModelNode = [&](ModelNode::Ptr node)
+    {
+        auto addr = node->addr();
+        if (!ancestors.insert(addr.value_).second) {
+            errors.push_back(fmt::format(
+                "Cyclic node reference: col={}, i={}", (uint16_t)addr.column(), addr.index()));
+            return;
+        }
+        validateNode(node);
+        ancestors.erase(addr.value_);
+    };
+
     // Validate objects
     for (auto i = 0; i < impl_->columns_.objectMemberArrays_.size(); ++i)
         validateModelNode(ModelNode::Ptr::make(shared_from_this(), ModelNodeAddress{Objects, (uint32_t)i}));
-- 
2.43.0


From 2a0a4285430e32da78cc0c73ca1d5ee06b932299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 32/36] fix: evaluating an expression from several threads
 raced on its lookup caches

---
 src/simfil.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 491708e..b62299e 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -12,6 +12,7 @@
 #include "fmt/core.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cctype>
 #include <cstdint>
 #include <iterator>
@@ -306,16 +307,19 @@ public:
         if (!val.node)
             return res(ctx, Value::null());
 
-        if (!nameId_)
-            nameId_ = ctx.env->strings()->get(name_);
+        auto nameId = nameId_.load(std::memory_order_relaxed);
+        if (!nameId) {
+            nameId = ctx.env->strings()->get(name_);
+            nameId_.store(nameId, std::memory_order_relaxed);
+        }
 
-        if (!nameId_)
+        if (!nameId)
             /* If the field name is not in the string cache, then there
                is no field with that name. */
             return res(ctx, Value::null());
 
         /* Enter sub-node */
-        if (auto sub = val.node->get(nameId_)) {
+        if (auto sub = val.node->get(nameId)) {
             return res(ctx, Value::field(*sub));
         }
 
@@ -330,7 +334,8 @@ public:
     }
 
     std::string name_;
-    mutable StringId nameId_ = {};
+    /* Atomic, since an expression may be evaluated by multiple threads. */
+    mutable std::atomic<StringId> nameId_ = {};
 };
 
 class MultiConstExpr : public Expr
@@ -536,13 +541,16 @@ public:
 
     auto ieval(Context ctx, Value val, const ResultFn& res) const -> Result override
     {
-        if (!fn_)
-            fn_ = ctx.env->findFunction(name_);
-        if (!fn_)
+        auto fn = fn_.load(std::memory_order_relaxed);
+        if (!fn) {
+            fn = ctx.env->findFunction(name_);
+            fn_.store(fn, std::memory_order_relaxed);
+        }
+        if (!fn)
             raise<std::runtime_error>("Unknown function "s + name_);
 
         auto anyval = false;
-        auto result = fn_->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
+        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
             anyval = true;
             return res(ctx, std::move(vv));
         }));
@@ -566,7 +574,8 @@ public:
 
     std::string name_;
     std::vector<ExprPtr> args_;
-    mutable const Function* fn_;
+    /* Atomic, since an expression may be evaluated by multiple threads. */
+    mutable std::atomic<const Function*> fn_;
 };
 
 class PathExpr : public Expr
-- 
2.43.0


From 7edbb937c8d59b6169381f690ae962fd3102a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:00 +0000
Subject: [PATCH 33/36] fix: assigning transient objects from or to moved-from
 or the same object

---
 include/simfil/transient.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/simfil/transient.h b/include/simfil/transient.h
index 03f27de..bbe7b50 100644
--- a/include/simfil/transient.h
+++ b/include/simfil/transient.h
@@ -50,14 +50,13 @@ struct TransientObject
     void* data = nullptr;
 
     TransientObject(const TransientObject& other)
-        : meta(other.meta), data(meta->copy(other.data))
+        : meta(other.meta), data(other.meta ? other.meta->copy(other.data) : nullptr)
     {}
 
-    auto operator=(const TransientObject& other)
+    auto operator=(const TransientObject& other) -> TransientObject&
     {
-        meta->deinit(data);
-        meta = other.meta;
-        data = meta->copy(other.data);
+        if (this != &other)
+            *this = TransientObject(other);
         return *this;
     }
 
@@ -69,13 +68,16 @@ struct TransientObject
         other.data = nullptr;
     }
 
-    auto operator=(TransientObject&& other)
+    auto operator=(TransientObject&& other) -> TransientObject&
     {
-        meta->deinit(data);
-        meta = std::move(other.meta);
-        data = std::move(other.data);
-        other.meta = nullptr;
-        other.data = nullptr;
+        if (this != &other) {
+            if (meta && data)
+                meta->deinit(data);
+            meta = std::move(other.meta);
+            data = std::move(other.data);
+            other.meta = nullptr;
+            other.data = nullptr;
+        }
         return *this;
     }
 
-- 
2.43.0


From a673e563fb7ebe15049f3132691aec224d8bfaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 34/36] fix: a field with an empty name can be reached by
 subscript

---
 src/simfil.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index b62299e..78d25a5 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -452,7 +452,8 @@ public:
                     /* String subscript */
                     else if (ival.isa(ValueType::String)) {
                         auto key = ival.as<ValueType::String>();
-                        if (auto keyStrId = ctx.env->strings()->get(key))
+                        /* The id of the empty string is also the result for unknown strings */
+                        if (auto keyStrId = ctx.env->strings()->get(key); keyStrId != StringPool::Empty || key.empty())
                             node = lval.node->get(keyStrId);
                     }
 
-- 
2.43.0


From 7f4188f89ad82d78b07dbe6f5e40adb71644f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 35/36] fix: ArrayArena::iterate and end() take the lock in
 thread safe mode

---
 include/simfil/model/arena.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/simfil/model/arena.h b/include/simfil/model/arena.h
index a9994fb..6903f35 100644
--- a/include/simfil/model/arena.h
+++ b/include/simfil/model/arena.h
@@ -291,9 +291,9 @@ public:
     const_iterator end(ArrayIndex const& a) const { return const_iterator(*this, a, size(a)); }
 
     ArrayArenaIterator begin() { return ArrayArenaIterator(*this, 0); }
-    ArrayArenaIterator end() { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(heads_.size())); }
+    ArrayArenaIterator end() { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(size())); }
     ArrayArenaIterator begin() const { return ArrayArenaIterator(*this, 0); }
-    ArrayArenaIterator end() const { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(heads_.size())); }
+    ArrayArenaIterator end() const { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(size())); }
 
     ArrayRange range(ArrayIndex const& array) {return ArrayRange(begin(array), end(array));}
 
@@ -302,23 +302,34 @@ public:
     template <typename Func>
     void iterate(ArrayIndex const& a, Func&& lambda)
     {
+        #ifdef ARRAY_ARENA_THREAD_SAFE
+        std::shared_lock guard(lock_);
+        #endif
         Chunk const* current = &heads_[a];
         size_t globalIndex = 0;
         while (current != nullptr)
         {
             for (size_t i = 0; i < current->size && i < current->capacity; ++i)
             {
+                auto& elem = data_[current->offset + i];
+                #ifdef ARRAY_ARENA_THREAD_SAFE
+                // The lambda may use the arena.
+                guard.unlock();
+                #endif
                 if constexpr (std::is_invocable_r_v<bool, Func, ElementType_&>) {
                     // If lambda returns bool, break if it returns false
-                    if (!lambda(data_[current->offset + i]))
+                    if (!lambda(elem))
                         return;
                 }
                 else if constexpr (std::is_invocable_v<Func, ElementType_&, size_t>) {
                     // If lambda takes two arguments, pass the current index
-                    lambda(data_[current->offset + i], globalIndex);
+                    lambda(elem, globalIndex);
                 }
                 else
-                    lambda(data_[current->offset + i]);
+                    lambda(elem);
+                #ifdef ARRAY_ARENA_THREAD_SAFE
+                guard.lock();
+                #endif
                 ++globalIndex;
             }
             current = (current->next != InvalidArrayIndex) ? &continuations_[current->next] : nullptr;
-- 
2.43.0


From 5570c723010dfaf62016a8f7f8235bb2d318676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 36/36] fix: exponents beyond the range of a double no longer
 turn literals into NaN, inf or 0

---
 src/token.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index 70884a7..350ead0 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -325,12 +325,24 @@ std::optional<Token> scanNumber(Scanner& s)
                 exp += s.pop() - '0';
             }
 
-            if (neg)
-                return 1.0 / std::pow(10.0, exp);
-            return std::pow(10.0, exp);
+            return neg ? -exp : exp;
         }
 
-        return 1.0;
+        return 0.0;
+    };
+
+    /* 10^exp may be out of range, even if the result is not */
+    const auto scale = [](double f, double exp)
+    {
+        while (exp != 0 && f != 0 && std::isfinite(f)) {
+            const auto step = std::min(std::abs(exp), 300.0);
+            if (exp < 0)
+                f /= std::pow(10.0, step);
+            else
+                f *= std::pow(10.0, step);
+            exp += exp < 0 ? step : -step;
+        }
+        return f;
     };
 
     const auto begin = s.pos();
@@ -367,19 +379,19 @@ std::optional<Token> scanNumber(Scanner& s)
                 f += (s.pop() - '0') / std::pow(10, i);
             }
 
-            f *= parseSciSuffix(s);
+            f = scale(f, parseSciSuffix(s));
             if (isalpha(s.at(0)) || s.at(0) == '.')
                 s.fail("Unexpected non-digit character");
 
             return Token(Token::FLOAT, f, begin, s.pos());
         }
 
-        /* SCI notation results in float if exponent != 0 (=1) */
-        const auto sci = parseSciSuffix(s);
+        /* SCI notation results in float if exponent != 0 */
+        const auto exp = parseSciSuffix(s);
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
-        if (sci != 1)
-            return Token(Token::FLOAT, f * sci, begin, s.pos());
+        if (exp != 0)
+            return Token(Token::FLOAT, scale(f, exp), begin, s.pos());
         if (overflow)
             s.fail("Integer literal out of range");
 
-- 
2.43.0

