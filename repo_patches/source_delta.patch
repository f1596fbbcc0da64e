From a8ae54d3bac6bf13ad8d099c310ab878ba8b0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 01/38] fix: tokenize ">>" as right shift, not left shift

---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 58a87b6..ceaf7f6 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -394,7 +394,7 @@ std::optional<Token> scanSyntax(Scanner& s)
         {"/", Token::OP_DIV},
         {"%", Token::OP_MOD},
         {"<<",Token::OP_LSHIFT},
-        {">>",Token::OP_LSHIFT},
+        {">>",Token::OP_RSHIFT},
         {"~", Token::OP_BITINV},
         {"|", Token::OP_BITOR},
         {"&", Token::OP_BITAND},
-- 
2.43.0


From 895752952f70fa378ce4ce9b1d52756c60866b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 02/38] fix: reject a binary prefix that is followed by a
 non-binary digit

`0ba` silently dropped the `0b` prefix and yielded the word `a`.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index ceaf7f6..c14b49c 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -339,7 +339,7 @@ std::optional<Token> scanNumber(Scanner& s)
     if (base != 10 && !isxdigit(s.at(0)))
         s.fail("Expected at least one digit after base specifier");
 
-    if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
+    if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base != 10) {
         int64_t n = 0;
         while (isdigit(s.at(0)) || (base > 10 && isxdigit(s.at(0)))) {
             n *= base;
-- 
2.43.0


From 26afb78be23df63c98980ee50259122549a3d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 03/38] fix: do not silently truncate an expression at an
 embedded NUL byte

---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index c14b49c..a3e50cf 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -434,7 +434,7 @@ std::vector<Token> tokenize(std::string_view expr)
         else if (auto t = scanSyntax(s))
             tokens.push_back(std::move(*t));
         else {
-            if (s.at(0) != '\0')
+            if (s)
                 s.fail("Invalid input");
             break;
         }
-- 
2.43.0


From c603510823a14927a376df95926471c44fc311cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 04/38] fix: do not overflow when tokenizing large number
 literals

Integer literals above INT64_MAX evaluated to garbage (signed overflow), as
did floats with such an integral part. Reject the former, use double for the latter.
---
 src/token.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index a3e50cf..bf0380f 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cassert>
+#include <limits>
 #include <ostream>
 #include <stdexcept>
 #include <string_view>
@@ -341,16 +342,21 @@ std::optional<Token> scanNumber(Scanner& s)
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base != 10) {
         int64_t n = 0;
+        double integral = 0; /* Value of the integral digits, if they exceed the range of n */
+        auto overflow = false;
         while (isdigit(s.at(0)) || (base > 10 && isxdigit(s.at(0)))) {
-            n *= base;
-            n += chr2digit(s, base, s.pop());
+            const int64_t digit = chr2digit(s, base, s.pop());
+            overflow = overflow || n > (std::numeric_limits<int64_t>::max() - digit) / base;
+            if (!overflow)
+                n = n * base + digit;
+            integral = overflow ? integral * base + digit : (double)n;
         }
 
         if (s.match(".", Scanner::Skip)) {
             if (base != 10)
                 s.fail("Decimal point is allowed for base 10 numbers only");
 
-            double f = n;
+            double f = integral;
             for (auto i = 1; isdigit(s.at(0)); ++i) {
                 f += (s.pop() - '0') / std::pow(10, i);
             }
@@ -364,9 +370,11 @@ std::optional<Token> scanNumber(Scanner& s)
 
         /* SCI notation results in float if exponent != 0 (=1) */
         if (auto sci = parseSciSuffix(s); sci != 1)
-            return Token(Token::FLOAT, n * sci, begin, s.pos());
+            return Token(Token::FLOAT, integral * sci, begin, s.pos());
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
+        if (overflow)
+            s.fail("Integer literal out of range");
 
         return Token(Token::INT, n, begin, s.pos());
     }
-- 
2.43.0


From 473a03ce70421999a99c6d1504dedd811a3ce473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 05/38] fix: exponent suffix of number literals

`1e+5` was read as `1 + 5`, `0b1e1` as the float 10, `1e` as the integer 1, and
`1e5.5`, `1e5abc` as two tokens, although `1e0.5` and `1e0abc` are errors.
---
 src/token.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index bf0380f..c2f45e4 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -316,6 +316,11 @@ std::optional<Token> scanNumber(Scanner& s)
             s.pop();
 
             const auto neg = s.match("-", Scanner::Skip);
+            if (!neg)
+                s.match("+", Scanner::Skip);
+            if (!isdigit(s.at(0)))
+                s.fail("Expected at least one digit after exponent");
+
             double exp = 0;
             while (isdigit(s.at(0))) {
                 exp *= 10.;
@@ -369,10 +374,11 @@ std::optional<Token> scanNumber(Scanner& s)
         }
 
         /* SCI notation results in float if exponent != 0 (=1) */
-        if (auto sci = parseSciSuffix(s); sci != 1)
-            return Token(Token::FLOAT, integral * sci, begin, s.pos());
+        const auto sci = base == 10 ? parseSciSuffix(s) : 1.0;
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
+        if (sci != 1)
+            return Token(Token::FLOAT, integral * sci, begin, s.pos());
         if (overflow)
             s.fail("Integer literal out of range");
 
-- 
2.43.0


From af2d84247e21f2f8cfb4a4c82f405508063794e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 06/38] fix: give <, <=, >, >= their documented precedence

The language documentation (and enum Precedence) rank comparison above equality.
---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index a987a40..009713a 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1359,10 +1359,10 @@ auto compile(Environment& env, std::string_view sv, bool any, bool autoWildcard)
     /* Comparison/Test */
     p.infixParsers[Token::OP_EQ]     = std::make_unique<BinaryOpParser<OperatorEq,   Precedence::EQUALITY>>();
     p.infixParsers[Token::OP_NOT_EQ] = std::make_unique<BinaryOpParser<OperatorNeq,  Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::EQUALITY>>();
+    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::COMPARISON>>();
     p.infixParsers[Token::OP_AND]    = std::make_unique<AndOrParser>();
     p.infixParsers[Token::OP_OR]     = std::make_unique<AndOrParser>();
 
-- 
2.43.0


From 9dc338fff8d51465e0e34667ff12e04f960ba543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 07/38] fix: postfix operators must not swallow the operators
 that follow them

The parselets of `?`, `...` and unary word operators went on parsing infix operators
with precedence 0, so that `2 * a? + 1` grouped as `2 * ((a?) + 1)`.
---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 009713a..c7e09b7 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1065,7 +1065,7 @@ class UnaryPostOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1081,7 +1081,7 @@ class UnpackOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1104,8 +1104,8 @@ class WordOpParser : public InfixParselet
                                                                                std::move(left),
                                                                                std::move(right)));
         /* Parse as unary operator */
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
-                                                                                       std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
+                                                                          std::move(left)));
     }
 
     auto precedence() const -> int override
-- 
2.43.0


From f0a69218edfec1ceb055e31d73275603c4b7a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 08/38] fix: an upper-case word on the left side of `.` is a
 field, not a symbol

This is documented behaviour: `ABC.field` accesses a field named ABC.
---
 src/simfil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index c7e09b7..3c9371f 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1279,7 +1279,7 @@ class WordParser : public PrefixParselet
             return simplifyOrForward(p.env, std::make_unique<CallExpression>(word, std::move(arguments)));
         } else if (!p.ctx.inPath) {
             /* Parse Symbols (words in upper-case) */
-            if (isSymbolWord(word)) {
+            if (isSymbolWord(word) && !p.match(Token::DOT)) {
                 return std::make_unique<ConstExpr>(Value::make<std::string>(std::move(word)));
             }
             /* Constant */
-- 
2.43.0


From 7af1845cdbeb1db8bd14637fefbed2c0e4d6cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 09/38] fix: forward Result::Stop from `...`, `*` and split

A consumer that stopped (e.g. any) was followed by the evaluation of the remaining
expressions: `any(arr(split('a,b', ','), _.x / 0))` raised an error.
---
 src/function.cpp | 2 +-
 src/simfil.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 716947a..4524394 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -508,7 +508,7 @@ auto SplitFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, con
     auto items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());
     for (auto&& item : items) {
         if (res(subctx, Value::make(std::move(item))) == Result::Stop)
-            break;
+            return Result::Stop;
     }
 
     return Result::Continue;
diff --git a/src/simfil.cpp b/src/simfil.cpp
index 3c9371f..942ca03 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -268,7 +268,7 @@ public:
             return true;
         }));
 
-        return Result::Continue;
+        return result;
     }
 
     auto toString() const -> std::string override
@@ -646,7 +646,8 @@ public:
                 auto r = Result::Continue;
                 obj.meta->unpack(obj, [&](Value vv) {
                     anyval = true;
-                    return res(ctx, std::move(vv)) == Result::Continue;
+                    r = res(ctx, std::move(vv));
+                    return r == Result::Continue;
                 });
 
                 if (r == Result::Stop)
-- 
2.43.0


From 1be74fa4f6901971a92e4f1525675d6b80d07a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 10/38] fix: sum() with an expression must not be folded to
 null at compile time

sum(d.*, $sum + $val) was evaluated at compile time with an undefined input and
folded to the constant null. Also, the overlay that sum() puts around values which are
not part of a model (sum(arr(1,2), $sum + a), count(*) in the expression) raised a null
pointer error when asked for anything but its overlaid fields.
---
 src/function.cpp | 11 ++++++++++-
 src/overlay.cpp  | 20 +++++++++++++++-----
 src/simfil.cpp   |  7 +++++--
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 4524394..c90b6d3 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -583,20 +583,27 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
 
     const Expr* subexpr = args.size() >= 2 ? args[1].get() : nullptr;
     const Expr* initval = args.size() == 3 ? args[2].get() : nullptr;
+    auto undef = false; /* At least one value is undef */
     if (initval)
         (void)initval->eval(ctx, val, LambdaResultFn([&](Context ctx, Value vv) {
+            undef = undef || (vv.isa(ValueType::Undef) && !vv.node);
             sum = std::move(vv);
             return Result::Continue;
         }));
 
     (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+        undef = undef || (vv.isa(ValueType::Undef) && !vv.node);
+        if (undef)
+            return Result::Stop;
+
         if (subexpr) {
             auto ov = model_ptr<OverlayNode>::make(vv);
             ov->set(StringPool::OverlaySum, sum);
             ov->set(StringPool::OverlayValue, vv);
             ov->set(StringPool::OverlayIndex, Value::make((int64_t)n++));
 
-            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum](auto ctx, auto vv) {
+            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum, &undef](auto ctx, auto vv) {
+                undef = undef || (vv.isa(ValueType::Undef) && !vv.node);
                 ov->set(StringPool::OverlaySum, vv);
                 sum = vv;
                 return Result::Continue;
@@ -612,6 +619,8 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         return Result::Continue;
     }));
 
+    if (undef)
+        return res(std::move(ctx), Value::undef());
     return res(std::move(ctx), sum);
 }
 
diff --git a/src/overlay.cpp b/src/overlay.cpp
index 612ea8e..d3fac46 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -41,26 +41,36 @@ auto OverlayNode::set(StringId const& key, Value const& child) -> void
             return iter->second.node;
         return ValueNode(iter->second.getScalar());
     }
-    return model().value_.node->get(key);
+    if (auto const& node = model().value_.node)
+        return node->get(key);
+    return {};
 }
 
 [[nodiscard]] ModelNode::Ptr OverlayNode::at(int64_t i) const
 {
-    return model().value_.node->at(i);
+    if (auto const& node = model().value_.node)
+        return node->at(i);
+    return {};
 }
 
 [[nodiscard]] StringId OverlayNode::keyAt(int64_t i) const
 {
-    return model().value_.node->keyAt(i);
+    if (auto const& node = model().value_.node)
+        return node->keyAt(i);
+    return StringPool::Empty;
 }
 
 [[nodiscard]] uint32_t OverlayNode::size() const
 {
-    return model().value_.node->size();
+    if (auto const& node = model().value_.node)
+        return node->size();
+    return 0;
 }
 
 [[nodiscard]] bool OverlayNode::iterate(IterCallback const& cb) const {
-    return model().value_.node->iterate(cb);
+    if (auto const& node = model().value_.node)
+        return node->iterate(cb);
+    return true;
 }
 
 }
diff --git a/src/simfil.cpp b/src/simfil.cpp
index 942ca03..cb1e66f 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -304,10 +304,13 @@ public:
         if (!nameId_)
             nameId_ = ctx.env->strings()->get(name_);
 
-        if (!nameId_)
+        if (!nameId_) {
             /* If the field name is not in the string cache, then there
-               is no field with that name. */
+               is no field with that name (yet, if the expression is still being compiled). */
+            if (ctx.phase == Context::Phase::Compilation)
+                return res(ctx, Value::undef());
             return res(ctx, Value::null());
+        }
 
         /* Enter sub-node */
         if (auto sub = val.node->get(nameId_)) {
-- 
2.43.0


From ea39e5151531bc817f6e15b5582d0cd80672fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 11/38] fix: OverlayNode::set replaces an already set child

sum() relies on it to store each result of its expression into $sum.
---
 src/overlay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index d3fac46..798b9aa 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -20,7 +20,7 @@ OverlayNode::OverlayNode(ModelNode const& n)
 
 auto OverlayNode::set(StringId const& key, Value const& child) -> void
 {
-    model().overlayChildren_.insert({key, child});
+    model().overlayChildren_.insert_or_assign(key, child);
 }
 
 [[nodiscard]] ScalarValueType OverlayNode::value() const
-- 
2.43.0


From 153900b9df0d117e19bcba36968ba1503b923178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 12/38] fix: casting an object or array to float results in a
 float

---
 include/simfil/operator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 884eff0..5f92619 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -258,7 +258,7 @@ struct OperatorAsFloat
 
     auto operator()(const ModelNode&) const
     {
-        return (int64_t)0.0;
+        return 0.0;
     }
 
     NULL_AS((double)0)
-- 
2.43.0


From 8dd5ecd5f073d0115825a0bf8f14b9dc1be43bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 13/38] fix: INT64_MIN / -1 and INT64_MIN % -1 must not crash
 the process

---
 include/simfil/operator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 5f92619..e42748d 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -435,6 +435,8 @@ struct OperatorDiv
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1) /* INT64_MIN / -1 traps */
+            return static_cast<int64_t>(-static_cast<uint64_t>(l));
         return static_cast<int64_t>(l / r);
     }
 
@@ -470,6 +472,8 @@ struct OperatorMod
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1) /* INT64_MIN % -1 traps */
+            return 0;
         return static_cast<int64_t>(l % r);
     }
 };
-- 
2.43.0


From 43524eb16409983f1b8160317e51fc0b9c3e6d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 14/38] fix: assigning to, or copying, a moved-from
 TransientObject and self-assignment

---
 include/simfil/transient.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/simfil/transient.h b/include/simfil/transient.h
index 03f27de..07f6340 100644
--- a/include/simfil/transient.h
+++ b/include/simfil/transient.h
@@ -50,14 +50,17 @@ struct TransientObject
     void* data = nullptr;
 
     TransientObject(const TransientObject& other)
-        : meta(other.meta), data(meta->copy(other.data))
+        : meta(other.meta), data(meta ? meta->copy(other.data) : nullptr)
     {}
 
     auto operator=(const TransientObject& other)
     {
-        meta->deinit(data);
-        meta = other.meta;
-        data = meta->copy(other.data);
+        if (this != &other) {
+            if (meta && data)
+                meta->deinit(data);
+            meta = other.meta;
+            data = meta ? meta->copy(other.data) : nullptr;
+        }
         return *this;
     }
 
@@ -71,11 +74,14 @@ struct TransientObject
 
     auto operator=(TransientObject&& other)
     {
-        meta->deinit(data);
-        meta = std::move(other.meta);
-        data = std::move(other.data);
-        other.meta = nullptr;
-        other.data = nullptr;
+        if (this != &other) {
+            if (meta && data)
+                meta->deinit(data);
+            meta = std::move(other.meta);
+            data = std::move(other.data);
+            other.meta = nullptr;
+            other.data = nullptr;
+        }
         return *this;
     }
 
-- 
2.43.0


From ba02b3fb17bf48ccb0d49c4519719fe9a08fd533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 15/38] fix: load JSON documents which contain null

Building a null member raised "Attempt to dereference null model_ptr!".
---
 src/model/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 06728b4..34a7386 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -13,7 +13,7 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
 {
     switch (j.type()) {
     case json::value_t::null:
-        return {};
+        return ModelNode::Ptr::make(model.shared_from_this(), ModelNodeAddress{Model::Null, 1});
     case json::value_t::boolean:
         return model.newSmallValue(j.get<bool>());
     case json::value_t::number_float:
-- 
2.43.0


From 097fecc4921592df056795108a79e50af52a1848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 16/38] fix: a copied StringPool must not refer to the strings
 of its original

stringForId_ kept string views into the storage of the original pool, so resolve()
read freed memory once the original was gone.
---
 src/model/string-pool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index dcc7bfc..55df1e4 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -81,8 +81,10 @@ StringPool::StringPool(const StringPool& other)
         }
     }
 
-    // Copy stringForId_.
-    stringForId_ = other.stringForId_;
+    // Rebuild stringForId_ in the same way.
+    for (const auto& [id, oldStrView] : other.stringForId_) {
+        stringForId_.emplace(id, strDataToNewStrView.at(oldStrView.data()));
+    }
 
     // Copy other member variables.
     nextId_ = other.nextId_;
-- 
2.43.0


From b50e74e7e9e75f8ec46ae156c0757e6d15eb0482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 17/38] fix: StringPool id overflow must not wrap around

After the overflow error, nextId_ was 0: the following strings got the ids of the
static strings, and write() never terminated.
---
 src/model/string-pool.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 55df1e4..04597e8 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -7,6 +7,7 @@
 #include <fmt/core.h>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <mutex>
 #include <stdexcept>
 #include <locale>
@@ -112,12 +113,14 @@ StringId StringPool::emplace(std::string_view const& str)
             return it->second;
         }
 
+        // The last id is never assigned, so that nextId_ does not wrap around.
+        if (nextId_ == std::numeric_limits<StringId>::max()) {
+            raise<std::overflow_error>("StringPool id overflow!");
+        }
+
         // Store the string to maintain ownership.
         auto& storedString = storedStrings_.emplace_back(str);
         StringId id = nextId_++;
-        if (nextId_ < id) {
-            raise<std::overflow_error>("StringPool id overflow!");
-        }
         idForString_.emplace(storedString, id);
         stringForId_.emplace(id, storedString);
         byteSize_ += static_cast<int64_t>(storedString.size());
-- 
2.43.0


From aa5a5858922927be642ec633e1c7385dc59913c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 18/38] fix: StringPool::highest and operator== read the pool
 without its lock

---
 src/model/string-pool.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 04597e8..25c4fa2 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -152,6 +152,7 @@ std::optional<std::string_view> StringPool::resolve(const StringId& id) const
 
 StringId StringPool::highest() const
 {
+    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);
     return nextId_ - 1;
 }
 
@@ -191,7 +192,7 @@ void StringPool::write(std::ostream& outputStream, const StringId offset) const
 
     // Calculate how many strings will be sent
     StringId sendStrCount = 0;
-    const auto high = highest();
+    const StringId high = nextId_ - 1;
     for (auto strId = offset; strId <= high; ++strId) {
         auto it = stringForId_.find(strId);
         if (it != stringForId_.end())
@@ -246,6 +247,11 @@ void StringPool::read(std::istream& inputStream)
 }
 
 bool StringPool::operator==(const StringPool &other) const {
+    if (this == &other)
+        return true;
+    std::shared_lock lockThis(stringStoreMutex_, std::defer_lock);
+    std::shared_lock lockOther(other.stringStoreMutex_, std::defer_lock);
+    std::lock(lockThis, lockOther);
     return idForString_ == other.idForString_;
 }
 
-- 
2.43.0


From efbec3bb0850ea11893bc6572ca93f98ab598707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 19/38] fix: reading a serialized ArrayArena replaces its
 previous content

ModelPool::read replaced the scalar columns and roots of the pool, but appended the
arrays and objects after the existing ones, so that all read references were wrong.
---
 include/simfil/model/bitsery-traits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/simfil/model/bitsery-traits.h b/include/simfil/model/bitsery-traits.h
index a2318c4..f79a7f0 100644
--- a/include/simfil/model/bitsery-traits.h
+++ b/include/simfil/model/bitsery-traits.h
@@ -61,6 +61,7 @@ struct ArrayArenaExt
     template <typename S, typename ElementType, size_t PageSize, size_t ChunkPageSize, typename Fnc>
     void deserialize(S& s, simfil::ArrayArena<ElementType, PageSize, ChunkPageSize>& arena, Fnc&& fnc) const
     {
+        arena.clear();
         simfil::ArrayIndex numArrays;
         s.value4b(numArrays);
         for (simfil::ArrayIndex i = 0; i < numArrays; ++i) {
-- 
2.43.0


From a4131ac2dbaa191e4417ed9333d5014ba0a2deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 20/38] fix: type names of casts are case-insensitive, like all
 syntax

---
 src/simfil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index cb1e66f..00da238 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1001,6 +1001,9 @@ public:
             raise<std::runtime_error>("'as' expected typename got "s + type.toString());
 
         auto name = std::get<std::string>(type.value);
+        std::transform(name.begin(), name.end(), name.begin(), [](unsigned char c) {
+            return static_cast<char>(std::tolower(c));
+        });
         return simplifyOrForward(p.env, [&]() -> ExprPtr {
             if (name == strings::TypenameNull)
                 return std::make_unique<ConstExpr>(Value::null());
-- 
2.43.0


From 722eb6082f68d658fb751396a55984b71bae13a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 21/38] fix: evaluating one expression from several threads is
 a data race

The lazily resolved field ids and functions of an expression are cached in it on first
evaluation.
---
 src/simfil.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 00da238..deb065c 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -12,6 +12,7 @@
 #include "fmt/core.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cctype>
 #include <cstdint>
 #include <iterator>
@@ -328,7 +329,7 @@ public:
     }
 
     std::string name_;
-    mutable StringId nameId_ = {};
+    mutable std::atomic<StringId> nameId_ = {};
 };
 
 class MultiConstExpr : public Expr
@@ -542,7 +543,7 @@ public:
             raise<std::runtime_error>("Unknown function "s + name_);
 
         auto anyval = false;
-        auto result = fn_->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
+        auto result = fn_.load()->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
             anyval = true;
             return res(ctx, std::move(vv));
         }));
@@ -566,7 +567,7 @@ public:
 
     std::string name_;
     std::vector<ExprPtr> args_;
-    mutable const Function* fn_;
+    mutable std::atomic<const Function*> fn_;
 };
 
 class PathExpr : public Expr
-- 
2.43.0


From 4bc3a06df8cfc0bfaf3a3e1a6472d98e37fde487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 22/38] fix: select() must not stop the evaluation of its
 consumer

Reaching the end of the selection was reported as Result::Stop to the
caller: 'arr(select(d.*, 0), 5)' lost the 5.
---
 src/function.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index c90b6d3..7d3f113 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -546,15 +546,17 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
     if (icnt <= 0)
         icnt = std::numeric_limits<int>::max();
 
-    auto result = args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
+    /* Reaching the limit stops the input, but must not stop the consumer of the selection. */
+    auto result = Result::Continue;
+    (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
         ++n;
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
-                return res(ctx, std::move(vv));
+                return result = res(ctx, std::move(vv));
         if (n >= iidx + icnt)
             return Result::Stop;
         if (n >= iidx)
-            return res(ctx, std::move(vv));
+            return result = res(ctx, std::move(vv));
         return Result::Continue;
     }));
 
-- 
2.43.0


From 4158ee0ec62afa5bd07e1915f54094f1fa69f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 23/38] fix: `**` on a value without a model node dereferences
 null

E.g. `'abc'.**` or `1{**}`. Such a value has no children, `**` yields the value itself.
---
 src/simfil.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index deb065c..e3bd6ec 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -199,6 +199,10 @@ public:
         if (ctx.phase == Context::Phase::Compilation)
             return ores(ctx, Value::undef());
 
+        /* A value which is not part of the model has no children */
+        if (!val.node)
+            return ores(ctx, std::move(val));
+
         CountedResultFn<const ResultFn&> res(ores, ctx);
 
         struct Iterate
-- 
2.43.0


From 887783a0dfcec7bbac7249cf3e250e19a75bff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 24/38] fix: support `not` for ranges and regular expressions

Both convert to true, but their negation raised an error.
---
 src/types.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/types.cpp b/src/types.cpp
index 81cb5ec..45a0870 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -30,6 +30,9 @@ auto IRangeType::unaryOp(std::string_view op, const IRange& self) const -> Value
     if (op == OperatorBool::name())
         return Value::t();
 
+    if (op == OperatorNot::name())
+        return Value::f();
+
     if (op == OperatorAsString::name())
         return Value::make(fmt::format("{}..{}", self.begin, self.end));
 
@@ -112,6 +115,9 @@ auto ReType::unaryOp(std::string_view op, const Re& self) const -> Value
     if (op == OperatorBool::name())
         return Value::t();
 
+    if (op == OperatorNot::name())
+        return Value::f();
+
     if (op == OperatorAsString::name())
         return Value::make(self.str);
 
-- 
2.43.0


From 9267a823e9f5f6871c59a8cc963e3ffbc1ae245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 25/38] fix: paths, subscripts and sub-queries without a match
 must not lose Stop

The stand-in value for 'no match' was passed to the consumer but its answer
was ignored. The constant folding took up values behind an undefined one, so
that arr(a.b, 1) was compiled to 1, and each(arr(a.b, 1)) was true.
---
 src/simfil.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index e3bd6ec..7fa2e9a 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -170,16 +170,17 @@ struct CountedResultFn : ResultFn
     }
 
     /* NOTE: You _must_ call finish before destruction! */
-    auto ensureCall()
+    auto ensureCall(Result r) -> Result
     {
         assert(!finished);
         if (calls == 0 && !finished) {
             finished = true;
             if (nonctx.phase == Context::Phase::Compilation)
-                fn(nonctx, Value::undef());
+                return fn(nonctx, Value::undef());
             else
-                fn(nonctx, Value::null());
+                return fn(nonctx, Value::null());
         }
+        return r;
     }
 };
 
@@ -232,8 +233,7 @@ public:
         };
 
         auto r = Iterate{ctx, res}.iterate(*val.node, 0);
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -465,8 +465,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -513,8 +512,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -616,8 +614,7 @@ public:
                 return res(ctx, std::move(vv));
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     };
 
     auto toString() const -> std::string override
-- 
2.43.0


From e252ad8138c250ffd4088b69f8a60a5c0cd4ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 26/38] fix: paths must not drop children that are null

Resolving a null node lost its address, so that a.* took it for a missing
value and skipped it: each(a.*) was true for {"a": [true, null]}, while
a[1] and * (on the array itself) yield the null.
---
 src/model/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 85af8dc..02736ff 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -22,7 +22,7 @@ void Model::resolve(const ModelNode& n, const ResolveFn& cb) const
 {
     switch (n.addr_.column()) {
         case Null:
-            cb(ModelNodeBase(shared_from_this()));
+            cb(ModelNodeBase(shared_from_this(), n.addr_));
             break;
         case UInt16:
             cb(SmallValueNode<uint16_t>(shared_from_this(), n.addr_));
-- 
2.43.0


From d9dc427d1d781361f225757907956b23057e7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 27/38] fix: constant folding dropped the part of a sub-query
 or path that depends on the model

Values that are unknown at compile time were skipped: -(arr(a, 2){_}) and
-(arr(a, 2)._) were compiled to -2.
---
 src/simfil.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 7fa2e9a..ece74e1 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -184,6 +184,14 @@ struct CountedResultFn : ResultFn
     }
 };
 
+/** Pass on that a value is not known at compile time */
+static auto unknown(const Context& ctx, const ResultFn& res) -> Result
+{
+    if (ctx.phase == Context::Phase::Compilation)
+        return res(ctx, Value::undef());
+    return Result::Continue;
+}
+
 class WildcardExpr : public Expr
 {
 public:
@@ -504,7 +512,7 @@ public:
             return sub_->eval(ctx, lv, LambdaResultFn([&res, &lv](Context ctx, Value vv) {
                 auto bv = UnaryOperatorDispatcher<OperatorBool>::dispatch(vv);
                 if (bv.isa(ValueType::Undef))
-                    return Result::Continue;
+                    return unknown(ctx, res);
 
                 if (bv.isa(ValueType::Bool) && bv.template as<ValueType::Bool>())
                     return res(ctx, lv);
@@ -599,14 +607,14 @@ public:
 
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &res](Context ctx, Value v) {
             if (v.isa(ValueType::Undef))
-                return Result::Continue;
+                return unknown(ctx, res);
 
             if (v.isa(ValueType::Null) && !v.node)
                 return Result::Continue;
 
             return right_->eval(ctx, std::move(v), LambdaResultFn([this, &res](Context ctx, Value vv) {
                 if (vv.isa(ValueType::Undef))
-                    return Result::Continue;
+                    return unknown(ctx, res);
 
                 if (vv.isa(ValueType::Null) && !vv.node)
                     return Result::Continue;
-- 
2.43.0


From 4ee872cc2e9baf8dfe726de14dc118cc9c094ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 28/38] fix: floating point literals must denote the nearest
 double

The digits were added up with a rounding error each, so that 1.19 or
4.376e-4 differed from the same number in a JSON document.
---
 src/token.cpp | 53 +++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index c2f45e4..f64e47b 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -4,12 +4,13 @@
 #include "simfil/exception-handler.h"
 
 #include <cctype>
-#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cassert>
 #include <limits>
+#include <locale>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 #include <string_view>
 #include <optional>
@@ -310,29 +311,35 @@ std::optional<Token> scanNumber(Scanner& s)
         return 0;
     };
 
-    const auto parseSciSuffix = [](Scanner& s)
+    /* Skips a SCI suffix, if there is one; returns whether its exponent is not zero */
+    const auto skipSciSuffix = [](Scanner& s)
     {
+        auto nonzero = false;
         if (tolower(s.at(0)) == 'e') {
             s.pop();
 
-            const auto neg = s.match("-", Scanner::Skip);
-            if (!neg)
+            if (!s.match("-", Scanner::Skip))
                 s.match("+", Scanner::Skip);
             if (!isdigit(s.at(0)))
                 s.fail("Expected at least one digit after exponent");
 
-            double exp = 0;
-            while (isdigit(s.at(0))) {
-                exp *= 10.;
-                exp += s.pop() - '0';
-            }
-
-            if (neg)
-                return 1.0 / std::pow(10.0, exp);
-            return std::pow(10.0, exp);
+            while (isdigit(s.at(0)))
+                nonzero = s.pop() != '0' || nonzero;
         }
 
-        return 1.0;
+        return nonzero;
+    };
+
+    /* The double nearest to the floating point literal from begin to the current position */
+    const auto parseFloat = [](Scanner& s, std::size_t begin)
+    {
+        std::istringstream stream(std::string(s.orig_.substr(begin, s.pos() - begin)));
+        stream.imbue(std::locale::classic());
+
+        double value = 0;
+        if (!(stream >> value) && value != 0)
+            value = std::numeric_limits<double>::infinity();
+        return value;
     };
 
     const auto begin = s.pos();
@@ -347,38 +354,34 @@ std::optional<Token> scanNumber(Scanner& s)
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base != 10) {
         int64_t n = 0;
-        double integral = 0; /* Value of the integral digits, if they exceed the range of n */
         auto overflow = false;
         while (isdigit(s.at(0)) || (base > 10 && isxdigit(s.at(0)))) {
             const int64_t digit = chr2digit(s, base, s.pop());
             overflow = overflow || n > (std::numeric_limits<int64_t>::max() - digit) / base;
             if (!overflow)
                 n = n * base + digit;
-            integral = overflow ? integral * base + digit : (double)n;
         }
 
         if (s.match(".", Scanner::Skip)) {
             if (base != 10)
                 s.fail("Decimal point is allowed for base 10 numbers only");
 
-            double f = integral;
-            for (auto i = 1; isdigit(s.at(0)); ++i) {
-                f += (s.pop() - '0') / std::pow(10, i);
-            }
+            while (isdigit(s.at(0)))
+                s.pop();
 
-            f *= parseSciSuffix(s);
+            skipSciSuffix(s);
             if (isalpha(s.at(0)) || s.at(0) == '.')
                 s.fail("Unexpected non-digit character");
 
-            return Token(Token::FLOAT, f, begin, s.pos());
+            return Token(Token::FLOAT, parseFloat(s, begin), begin, s.pos());
         }
 
         /* SCI notation results in float if exponent != 0 (=1) */
-        const auto sci = base == 10 ? parseSciSuffix(s) : 1.0;
+        const auto sci = base == 10 && skipSciSuffix(s);
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
-        if (sci != 1)
-            return Token(Token::FLOAT, integral * sci, begin, s.pos());
+        if (sci)
+            return Token(Token::FLOAT, parseFloat(s, begin), begin, s.pos());
         if (overflow)
             s.fail("Integer literal out of range");
 
-- 
2.43.0


From ded68c4f14259e27aeca0cfd5d5e123aaeaa77c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 29/38] fix: refuse string pool data which gives an id to a
 second string

---
 src/model/string-pool.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 25c4fa2..2cb2ee7 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -233,7 +233,12 @@ void StringPool::read(std::istream& inputStream)
         // Insert string into the pool
         auto [it, insertionTookPlace] = idForString_.try_emplace(stringValue, stringId);
         if (insertionTookPlace) {
-            stringForId_.try_emplace(stringId, stringValue);
+            // The id might stand for another string already.
+            if (!stringForId_.try_emplace(stringId, stringValue).second) {
+                idForString_.erase(it);
+                raise<std::runtime_error>(fmt::format(
+                    "Failed to read StringPool: Id {} is used by another string", stringId));
+            }
             byteSize_ += static_cast<int64_t>(stringValue.size());
             nextId_ = std::max<StringId>(nextId_, stringId + 1);
         }
-- 
2.43.0


From 72196111ef2e13457a67538ae0c8d92ff1133fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 30/38] fix: load JSON integers beyond the range of int64 as
 doubles instead of negative numbers

---
 src/model/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 34a7386..18c746a 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -4,6 +4,7 @@
 #include "simfil/model/model.h"
 
 #include <nlohmann/json.hpp>
+#include <limits>
 
 namespace simfil::json
 {
@@ -19,6 +20,9 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
     case json::value_t::number_float:
         return model.newValue(j.get<double>());
     case json::value_t::number_unsigned:
+        // Numbers beyond the range of int64 would become negative.
+        if (j.get<uint64_t>() > (uint64_t)std::numeric_limits<int64_t>::max())
+            return model.newValue(j.get<double>());
         return model.newValue((int64_t)j.get<uint64_t>());
     case json::value_t::number_integer:
         return model.newValue(j.get<int64_t>());
-- 
2.43.0


From 2cff4bb2e4e736e7e7218a08a9bce266c02714b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 31/38] fix: keep the model as it is if the new string pool
 runs out of ids

---
 src/model/model.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 02736ff..2bf59a8 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -332,6 +332,14 @@ void ModelPool::setStrings(std::shared_ptr<StringPool> const& strings)
     if (!strings)
         raise<std::runtime_error>("Attempt to call ModelPool::setStrings(nullptr)!");
 
+    // Store all names first: If the new pool runs out of ids, the model stays as it is.
+    if (impl_->strings_) {
+        for (auto memberArray : impl_->columns_.objectMemberArrays_)
+            for (auto& member : memberArray)
+                if (auto name = impl_->strings_->resolve(member.name_))
+                    strings->emplace(*name);
+    }
+
     auto oldStrings = impl_->strings_;
     impl_->strings_ = strings;
     if (!oldStrings || *strings == *oldStrings)
-- 
2.43.0


From f8f562b4e72fcb7d1a2dde6e7e6965d7d92f6700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 32/38] fix: subscripts can select the field with the empty
 name

---
 src/simfil.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index ece74e1..4237516 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -458,7 +458,8 @@ public:
                     /* String subscript */
                     else if (ival.isa(ValueType::String)) {
                         auto key = ival.as<ValueType::String>();
-                        if (auto keyStrId = ctx.env->strings()->get(key))
+                        auto keyStrId = ctx.env->strings()->get(key);
+                        if (keyStrId != StringPool::Empty || key.empty())
                             node = lval.node->get(keyStrId);
                     }
 
-- 
2.43.0


From 041742189e8bea99d01cd373483b4bd89b147078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 33/38] fix: reject references to missing objects and arrays
 instead of reading out of bounds

---
 src/model/model.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 2bf59a8..12d952c 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -41,6 +41,14 @@ void Model::resolve(const ModelNode& n, const ResolveFn& cb) const
     }
 }
 
+/// Raise an error if a node references a missing entry of its column.
+static void checkNodeReference(ModelNodeAddress addr, size_t columnSize)
+{
+    if (addr.index() >= columnSize)
+        raise<std::runtime_error>(
+            fmt::format("Bad node reference: col={}, i={}", (uint16_t)addr.column(), addr.index()));
+}
+
 struct ModelPool::Impl
 {
     explicit Impl(std::shared_ptr<StringPool> strings) :
@@ -204,10 +212,12 @@ void ModelPool::resolve(ModelNode const& n, ResolveFn const& cb) const
 
     switch (n.addr_.column()) {
     case Objects: {
+        checkNodeReference(n.addr_, impl_->columns_.objectMemberArrays_.size());
         cb(Object(shared_from_this(), n.addr_));
         break;
     }
     case Arrays: {
+        checkNodeReference(n.addr_, impl_->columns_.arrayMemberArrays_.size());
         cb(Array(shared_from_this(), n.addr_));
         break;
     }
@@ -312,6 +322,7 @@ ModelNode::Ptr ModelPool::newValue(std::string_view const& value)
 model_ptr<Object> ModelPool::resolveObject(const ModelNode::Ptr& n) const {
     if (n->addr_.column() != Objects)
         raise<std::runtime_error>("Cannot cast this node to an object.");
+    checkNodeReference(n->addr_, impl_->columns_.objectMemberArrays_.size());
     return Object(shared_from_this(), n->addr_);
 }
 
@@ -319,6 +330,7 @@ model_ptr<Array> ModelPool::resolveArray(ModelNode::Ptr const& n) const
 {
     if (n->addr_.column() != Arrays)
         raise<std::runtime_error>("Cannot cast this node to an array.");
+    checkNodeReference(n->addr_, impl_->columns_.arrayMemberArrays_.size());
     return Array(shared_from_this(), n->addr_);
 }
 
-- 
2.43.0


From 8da3ebfee20deabf7d912e1032a1a9aaf20de4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 34/38] fix: keep a transient object intact when copying
 another one into it fails

---
 include/simfil/transient.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/simfil/transient.h b/include/simfil/transient.h
index 07f6340..61a5833 100644
--- a/include/simfil/transient.h
+++ b/include/simfil/transient.h
@@ -53,13 +53,15 @@ struct TransientObject
         : meta(other.meta), data(meta ? meta->copy(other.data) : nullptr)
     {}
 
-    auto operator=(const TransientObject& other)
+    auto operator=(const TransientObject& other) -> TransientObject&
     {
         if (this != &other) {
+            // The copy may throw: the old object must not be released before.
+            auto* copy = other.meta ? other.meta->copy(other.data) : nullptr;
             if (meta && data)
                 meta->deinit(data);
             meta = other.meta;
-            data = meta ? meta->copy(other.data) : nullptr;
+            data = copy;
         }
         return *this;
     }
@@ -72,7 +74,7 @@ struct TransientObject
         other.data = nullptr;
     }
 
-    auto operator=(TransientObject&& other)
+    auto operator=(TransientObject&& other) -> TransientObject&
     {
         if (this != &other) {
             if (meta && data)
-- 
2.43.0


From 2d4641d55b338a35375832d7f1b56a1ad81aa00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 35/38] fix: select() with a huge position or limit must not
 overflow

The end of the selection was computed as index + limit, which overflows for
limits near the end of the 64 bit range: select(x, 1, 9223372036854775807)
selected nothing.
---
 src/function.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 7d3f113..dfbb7a4 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -543,8 +543,9 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
 
     auto iidx = idx.as<ValueType::Int>();
     auto icnt = cnt.as<ValueType::Int>();
-    if (icnt <= 0)
-        icnt = std::numeric_limits<int>::max();
+    /* First index behind the selection; without a limit (or with a huge one) there is none. */
+    constexpr auto maxidx = std::numeric_limits<int64_t>::max();
+    const auto iend = icnt <= 0 || (iidx > 0 && icnt > maxidx - iidx) ? maxidx : iidx + icnt;
 
     /* Reaching the limit stops the input, but must not stop the consumer of the selection. */
     auto result = Result::Continue;
@@ -553,7 +554,7 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
                 return result = res(ctx, std::move(vv));
-        if (n >= iidx + icnt)
+        if (n >= iend)
             return Result::Stop;
         if (n >= iidx)
             return result = res(ctx, std::move(vv));
-- 
2.43.0


From f938f4759d7cba8f38bf9bed41dfe0b7b1ea7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 36/38] fix: do not fold expressions that yield a huge number
 of values

The limit for constant lists was only counted for undefined values and never
took effect, so compiling 'range(0, 1000000000000)...' did not finish.
---
 src/simfil.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 4237516..540a3df 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -936,17 +936,13 @@ static auto simplifyOrForward(Environment* env, ExprPtr expr) -> ExprPtr
 
     std::deque<Value> values;
     auto stub = Context(env, Context::Phase::Compilation);
-    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
-        if (!vv.isa(ValueType::Undef) || vv.node) {
+    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&](Context ctx, Value vv) {
+        /* Do not store a huge number of values (e.g. of a range) in the expression */
+        if ((!vv.isa(ValueType::Undef) || vv.node) && values.size() < MultiConstExpr::Limit) {
             values.push_back(std::move(vv));
             return Result::Continue;
         }
 
-        if (++n > MultiConstExpr::Limit) {
-            values.clear();
-            return Result::Stop;
-        }
-
         values.clear();
         return Result::Stop;
     }));
-- 
2.43.0


From 7a29c0b42e5fe98457a4a8576d424bd360f6577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 37/38] fix: results of keys() must not refer to the string
 pool

---
 src/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/function.cpp b/src/function.cpp
index dfbb7a4..374a399 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -653,7 +653,8 @@ auto KeysFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, cons
         if (vv.node)
             for (auto&& fieldName : vv.node->fieldNames()) {
                 if (auto key = ctx.env->stringPool->resolve(fieldName)) {
-                    if (res(ctx, Value::strref(*key)) == Result::Stop)
+                    // The result may outlive the string pool.
+                    if (res(ctx, Value::make(std::string(*key))) == Result::Stop)
                         return Result::Stop;
                 }
             }
-- 
2.43.0


From 45478852bb0f1f93f1abe81cc74bbfd1555dcd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 38/38] fix: sum() must not leave overlays that own themselves

---
 src/function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/function.cpp b/src/function.cpp
index 374a399..f7dfbf2 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -605,6 +605,12 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
             ov->set(StringPool::OverlayValue, vv);
             ov->set(StringPool::OverlayIndex, Value::make((int64_t)n++));
 
+            // The step may yield the overlay itself, which must not own itself afterwards.
+            struct Release {
+                OverlayNodeStorage& storage;
+                ~Release() { storage.overlayChildren_.erase(StringPool::OverlaySum); }
+            } release{ov->model()};
+
             subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum, &undef](auto ctx, auto vv) {
                 undef = undef || (vv.isa(ValueType::Undef) && !vv.node);
                 ov->set(StringPool::OverlaySum, vv);
-- 
2.43.0

