From 750e4bd21c2ddaf95d10672a71fc8adaec047ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:09 +0000
Subject: [PATCH 01/26] fix: do not cancel common factors of products in
 comparisons

p*q <= p*r was rewritten to q <= r, which differs when p is empty (0 <= 0 holds).
---
 src/PetriEngine/PQL/PushNegation.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/PetriEngine/PQL/PushNegation.cpp b/src/PetriEngine/PQL/PushNegation.cpp
index 197a4e0..ca4b20a 100644
--- a/src/PetriEngine/PQL/PushNegation.cpp
+++ b/src/PetriEngine/PQL/PushNegation.cpp
@@ -94,10 +94,6 @@ namespace PetriEngine { namespace PQL {
             if(auto p2 = std::dynamic_pointer_cast<PlusExpr>(_expr2))
                 remdup(p1, p2);
 
-        if(auto m1 = std::dynamic_pointer_cast<MultiplyExpr>(_expr1))
-            if(auto m2 = std::dynamic_pointer_cast<MultiplyExpr>(_expr2))
-                remdup(m1, m2);
-
         if(auto p1 = std::dynamic_pointer_cast<CommutativeExpr>(_expr1))
             if(auto p2 = std::dynamic_pointer_cast<CommutativeExpr>(_expr2))
                 return p1->_exprs.size() + p1->_ids.size() + p2->_exprs.size() + p2->_ids.size() == 0;
-- 
2.43.0


From d4a1346b3e456ad8cef5ac7f9cacfadf6a04bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:23 +0000
Subject: [PATCH 02/26] fix: keep comparisons no unsigned interval can
 represent out of compare-conjunctions

---
 src/PetriEngine/PQL/Expressions.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index 8611cde..7c8e1a2 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -69,6 +69,20 @@ namespace PetriEngine {
                         return;
                     }
 
+                    // the bounds of a CompareConjunction are unsigned: a comparison which every (or no)
+                    // token count satisfies has no interval whose complement is representable
+                    const bool id_left = dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[0].get()) != nullptr;
+                    EvaluationContext context;
+                    const int64_t val = PetriEngine::PQL::evaluate((*comp)[id_left ? 1 : 0].get(), context);
+                    const bool strict = std::dynamic_pointer_cast<LessThanCondition>(ptr) != nullptr;
+                    const bool weak = std::dynamic_pointer_cast<LessThanOrEqualCondition>(ptr) != nullptr;
+                    const int64_t least = ((strict && id_left) || (weak && !id_left)) ? 1 : 0;
+                    if(val < least || val >= std::numeric_limits<uint32_t>::max())
+                    {
+                        _conds.emplace_back(ptr);
+                        return;
+                    }
+
                     std::vector<Condition_ptr> cnds{ptr};
                     auto cmp = std::make_shared<CompareConjunction>(cnds, std::is_same<T, OrCondition>::value);
                     tryMerge<T>(_conds, cmp, aggressive);
-- 
2.43.0


From 791aee53440acefe0337608df795159372f8a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:32 +0000
Subject: [PATCH 03/26] fix: keep looking for nested deadlocks after a nested
 conjunction or disjunction

---
 src/PetriEngine/PQL/PredicateCheckers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/PQL/PredicateCheckers.cpp b/src/PetriEngine/PQL/PredicateCheckers.cpp
index 6531bad..8c0fa81 100644
--- a/src/PetriEngine/PQL/PredicateCheckers.cpp
+++ b/src/PetriEngine/PQL/PredicateCheckers.cpp
@@ -36,10 +36,11 @@ namespace PetriEngine { namespace PQL {
     }
 
     void NestedDeadlockVisitor::_accept(const LogicalCondition *condition) {
+        const bool was_nested = _nested_in_logical_condition;
         _nested_in_logical_condition = true;
         for (auto& c : condition->getOperands())
             Visitor::visit(this, c);
-        _nested_in_logical_condition = false;
+        _nested_in_logical_condition = was_nested;
     }
 
     void NestedDeadlockVisitor::_accept(const DeadlockCondition *condition) {
-- 
2.43.0


From ef10a843237c1d9e662d0d2f0c4b4ec919da2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:32 +0000
Subject: [PATCH 04/26] fix: restore the polarity after a negated sub-formula
 when testing loop sensitivity

---
 src/PetriEngine/PQL/PredicateCheckers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PetriEngine/PQL/PredicateCheckers.cpp b/src/PetriEngine/PQL/PredicateCheckers.cpp
index 8c0fa81..19cb9b2 100644
--- a/src/PetriEngine/PQL/PredicateCheckers.cpp
+++ b/src/PetriEngine/PQL/PredicateCheckers.cpp
@@ -284,12 +284,14 @@ namespace PetriEngine { namespace PQL {
     {
         _negated = !_negated;
         AnyVisitor::_accept(condition);
+        _negated = !_negated;
     }
 
     void IsLoopSensitiveVisitor::_accept(const NotCondition *condition)
     {
         _negated = !_negated;
         AnyVisitor::_accept(condition);
+        _negated = !_negated;
     }
 
     void IsLoopSensitiveVisitor::_accept(const UntilCondition *condition)
-- 
2.43.0


From a221bfd5ce5e9cdd6cbd8bae4bfc51018f6ba5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:26 +0000
Subject: [PATCH 05/26] fix: prepareForReachability returns no predicate for
 A/E over anything but G/F instead of dereferencing null

---
 src/PetriEngine/PQL/PrepareForReachability.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/PrepareForReachability.cpp b/src/PetriEngine/PQL/PrepareForReachability.cpp
index ea60558..fbcaa7c 100644
--- a/src/PetriEngine/PQL/PrepareForReachability.cpp
+++ b/src/PetriEngine/PQL/PrepareForReachability.cpp
@@ -67,14 +67,16 @@ namespace PetriEngine { namespace PQL {
 
     void PrepareForReachabilityVisitor::_accept(const ACondition *condition) {
         auto g = std::dynamic_pointer_cast<GCondition>(condition->getCond());
+        if (!g) RETURN(nullptr)
         auto agcond = std::make_shared<AGCondition>((*g)[0]);
-        RETURN(g ? subvisit(agcond.get(), _negated) : nullptr)
+        RETURN(subvisit(agcond.get(), _negated))
     }
 
     void PrepareForReachabilityVisitor::_accept(const ECondition *condition) {
         auto f = std::dynamic_pointer_cast<FCondition>(condition->getCond());
+        if (!f) RETURN(nullptr)
         auto efcond = std::make_shared<EFCondition>((*f)[0]);
-        RETURN(f ? subvisit(efcond.get(), _negated) : nullptr)
+        RETURN(subvisit(efcond.get(), _negated))
     }
 
     void PrepareForReachabilityVisitor::_accept(const UntilCondition *condition) {
-- 
2.43.0


From b56cd5d6052f77b246561b2cab5a84b9b3567255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:41 +0000
Subject: [PATCH 06/26] fix: let unary minus contribute interesting transitions
 to the stubborn set

---
 src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index db53e6e..c3e0520 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -337,12 +337,14 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::MinusExpr *element)
     {
-        // TODO not implemented
+        // -e increases when e decreases
+        Visitor::visit(decr, (*element)[0]);
     }
 
     void InterestingTransitionVisitor::DecrVisitor::_accept(const PQL::MinusExpr *element)
     {
-        // TODO not implemented
+        // -e decreases when e increases
+        Visitor::visit(incr, (*element)[0]);
     }
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::LiteralExpr *element)
-- 
2.43.0


From 495d81b71ea5baa66e0fa3ef4defcb2e85b1cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:41 +0000
Subject: [PATCH 07/26] fix: a negative factor makes both directions of a
 product interesting for the stubborn set

---
 src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index c3e0520..9ded00e 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -311,7 +311,7 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::MultiplyExpr *element)
     {
-        if ((element->places().size() + element->expressions().size()) == 1) {
+        if ((element->places().size() + element->expressions().size()) == 1 && element->constant() >= 0) {
             for (auto &i : element->places()) _stubborn.presetOf(i.first, closure);
             for (auto &e : element->expressions()) Visitor::visit(this, e);
         } else {
@@ -328,7 +328,7 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::DecrVisitor::_accept(const PQL::MultiplyExpr *element)
     {
-        if ((element->places().size() + element->expressions().size()) == 1) {
+        if ((element->places().size() + element->expressions().size()) == 1 && element->constant() >= 0) {
             for (auto &i : element->places()) _stubborn.postsetOf(i.first, closure);
             for (auto &e : element->expressions()) Visitor::visit(this, e);
         } else
-- 
2.43.0


From 9bb388bc6d626055d49db1bb71c005c979d60a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:02 +0000
Subject: [PATCH 08/26] fix: keep the full width of evaluated expressions used
 to pick interesting transitions

---
 include/PetriEngine/PQL/PQL.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/PetriEngine/PQL/PQL.h b/include/PetriEngine/PQL/PQL.h
index 3271437..f2282ed 100644
--- a/include/PetriEngine/PQL/PQL.h
+++ b/include/PetriEngine/PQL/PQL.h
@@ -72,7 +72,7 @@ namespace PetriEngine {
 
         /** Representation of an expression */
         class Expr : public std::enable_shared_from_this<Expr>{
-            int _eval = 0;
+            int64_t _eval = 0;
         public:
             /** Virtual destructor, an expression should know it subexpressions */
             virtual ~Expr();
@@ -81,11 +81,11 @@ namespace PetriEngine {
 
             [[nodiscard]] virtual bool placeFree() const = 0;
 
-            void setEval(int eval) {
+            void setEval(int64_t eval) {
                 _eval = eval;
             }
 
-            [[nodiscard]] int getEval() const {
+            [[nodiscard]] int64_t getEval() const {
                 return _eval;
             }
 
-- 
2.43.0


From 903d51c7dbf95d6ca22dac18b2ceaa8286fbb361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:40 +0000
Subject: [PATCH 09/26] fix: LiteralExpr keeps 64-bit values

---
 include/PetriEngine/PQL/Expressions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/PetriEngine/PQL/Expressions.h b/include/PetriEngine/PQL/Expressions.h
index 8f11824..b05274d 100644
--- a/include/PetriEngine/PQL/Expressions.h
+++ b/include/PetriEngine/PQL/Expressions.h
@@ -344,7 +344,7 @@ namespace PetriEngine {
         class LiteralExpr : public Expr {
         public:
 
-            LiteralExpr(int value) : _value(value) {
+            LiteralExpr(int64_t value) : _value(value) {
             }
             LiteralExpr(const LiteralExpr&) = default;
             virtual type_id_t type() const final { return PQL::type_id<decltype(this)>(); };
-- 
2.43.0


From 7f372267a2f6b0d48d71fb8558d7e7a39c8abb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:40 +0000
Subject: [PATCH 10/26] fix: do not count the auxiliary sum-place of a coloured
 place on top of its unfolded places

---
 src/PetriEngine/PQL/Analyze.cpp  | 3 ---
 src/PetriEngine/PQL/Contexts.cpp | 5 ++++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/PQL/Analyze.cpp b/src/PetriEngine/PQL/Analyze.cpp
index 1cb8144..13329f6 100644
--- a/src/PetriEngine/PQL/Analyze.cpp
+++ b/src/PetriEngine/PQL/Analyze.cpp
@@ -130,9 +130,6 @@ namespace PetriEngine { namespace PQL {
             if (names.size() == 1) {
                 element->_compiled = generateUnfoldedIdentifierExpr(*coloredContext, names.back());
             } else {
-                if (names.back()->substr(names.back()->size() - 3) == "Sum"){
-                    names.pop_back();
-                }
                 element->_compiled = std::make_shared<PQL::PlusExpr>(std::move(names));
             }
         } else {
diff --git a/src/PetriEngine/PQL/Contexts.cpp b/src/PetriEngine/PQL/Contexts.cpp
index f0fb0b4..bf0d864 100644
--- a/src/PetriEngine/PQL/Contexts.cpp
+++ b/src/PetriEngine/PQL/Contexts.cpp
@@ -24,8 +24,11 @@ namespace PetriEngine {
         {
             auto it = _coloredPlaceNames.find(place);
             if (it != _coloredPlaceNames.end()) {
+                // the auxiliary sum-place duplicates the tokens of the other unfolded places
+                const auto sum = *place + "Sum";
                 for (auto& [_, name] : it->second)
-                    fn(name);
+                    if (it->second.size() == 1 || *name != sum)
+                        fn(name);
                 return true;
             }
             return false;
-- 
2.43.0


From 13b078c6cc1a1bbb78963f14ec1afdc82ab7cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:50 +0000
Subject: [PATCH 11/26] fix: do not truncate constants to 32 bits when
 simplifying comparisons

---
 include/PetriEngine/Simplification/Member.h | 14 +++++++-------
 src/PetriEngine/PQL/Simplifier.cpp          | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/PetriEngine/Simplification/Member.h b/include/PetriEngine/Simplification/Member.h
index c30801b..f76b4c3 100644
--- a/include/PetriEngine/Simplification/Member.h
+++ b/include/PetriEngine/Simplification/Member.h
@@ -20,14 +20,14 @@ namespace PetriEngine {
             Member(std::vector<int64_t>&& vec, int64_t constant, bool canAnalyze = true)
                     : _variables(vec), _constant(constant), _canAnalyze(canAnalyze) {
             }
-            Member(int constant, bool canAnalyse = true)
+            Member(int64_t constant, bool canAnalyse = true)
                     : _constant(constant), _canAnalyze(canAnalyse) {
             }
             Member(){}
 
             virtual ~Member(){}
 
-            int constant() const    { return _constant; };
+            int64_t constant() const { return _constant; };
             bool canAnalyze() const { return _canAnalyze; };
             size_t size() const     { return _variables.size(); }
             std::vector<int64_t>& variables() { return _variables; }
@@ -133,16 +133,16 @@ namespace PetriEngine {
             }
 
             Trivial operator<(const Member& m) const {
-                return trivialLessThan(m, std::less<int>());
+                return trivialLessThan(m, std::less<int64_t>());
             }
             Trivial operator<=(const Member& m) const {
-                return trivialLessThan(m, std::less_equal<int>());
+                return trivialLessThan(m, std::less_equal<int64_t>());
             }
             Trivial operator>(const Member& m) const {
-                return m.trivialLessThan(*this, std::less<int>());
+                return m.trivialLessThan(*this, std::less<int64_t>());
             }
             Trivial operator>=(const Member& m) const {
-                return m.trivialLessThan(*this, std::less_equal<int>());
+                return m.trivialLessThan(*this, std::less_equal<int64_t>());
             }
 
         private:
@@ -187,7 +187,7 @@ namespace PetriEngine {
                 _variables.clear();
             }
 
-            Trivial trivialLessThan(const Member& m2, std::function<bool (int, int)> compare) const {
+            Trivial trivialLessThan(const Member& m2, std::function<bool (int64_t, int64_t)> compare) const {
                 MemberType type1 = getType();
                 MemberType type2 = m2.getType();
 
diff --git a/src/PetriEngine/PQL/Simplifier.cpp b/src/PetriEngine/PQL/Simplifier.cpp
index 85499d9..59b24cd 100644
--- a/src/PetriEngine/PQL/Simplifier.cpp
+++ b/src/PetriEngine/PQL/Simplifier.cpp
@@ -347,7 +347,7 @@ namespace PetriEngine { namespace PQL {
             if (eval != Trivial::Indeterminate) {
                 RETURN(Retval(BooleanCondition::getShared(eval == Trivial::True)))
             } else { // if no trivial case
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 lps = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
@@ -388,7 +388,7 @@ namespace PetriEngine { namespace PQL {
             if (eval != Trivial::Indeterminate) {
                 RETURN(Retval(BooleanCondition::getShared(eval == Trivial::True)))
             } else { // if no trivial case
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 lps = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
@@ -430,7 +430,7 @@ namespace PetriEngine { namespace PQL {
                 RETURN(Retval(BooleanCondition::getShared(
                         _context.negated() ? (m1.constant() != m2.constant()) : (m1.constant() == m2.constant()))))
             } else {
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 neglps =
@@ -473,7 +473,7 @@ namespace PetriEngine { namespace PQL {
                 RETURN(Retval(std::make_shared<BooleanCondition>(
                         _context.negated() ? (m1.constant() == m2.constant()) : (m1.constant() != m2.constant()))))
             } else {
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 lps =
@@ -535,7 +535,7 @@ namespace PetriEngine { namespace PQL {
                     } else
                         nconstraints.back()._lower = 0;
                 } else { // if no trivial case
-                    int constant = m2.constant() - m1.constant();
+                    int64_t constant = m2.constant() - m1.constant();
                     m1 -= m2;
                     m2 = m1;
                     auto lp = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
@@ -558,7 +558,7 @@ namespace PetriEngine { namespace PQL {
                     } else
                         nconstraints.back()._upper = std::numeric_limits<uint32_t>::max();
                 } else { // if no trivial case
-                    int constant = m2.constant() - m1.constant();
+                    int64_t constant = m2.constant() - m1.constant();
                     m1 -= m2;
                     m2 = m1;
                     auto lp = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
-- 
2.43.0


From fa14f3f0ecdcc0b3bf9a6daec6e14e7680257c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:03 +0000
Subject: [PATCH 12/26] fix: do not abort on a product that contains a sum

(p + q) * r tripped an assertion in CommutativeExpr::handle although the
nested sum is kept as an operand and evaluates correctly.
---
 src/PetriEngine/PQL/Expressions.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index 7c8e1a2..e097141 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -656,7 +656,6 @@ namespace PetriEngine {
                     _exprs.insert(_exprs.end(), c->_exprs.begin(), c->_exprs.end());
                     _ids.insert(_ids.end(), c->_ids.begin(), c->_ids.end());
                 } else {
-                    assert(e->type() != type_id<PlusExpr>());
                     _exprs.emplace_back(e);
                 }
             } else {
-- 
2.43.0


From 7726d2dc7538bdf7bb7b8c73fc5d67d9381ca492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:53 +0000
Subject: [PATCH 13/26] fix: read integer constants of XML queries as 64-bit
 numbers and refuse text that is no number

---
 src/PetriParse/QueryXMLParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PetriParse/QueryXMLParser.cpp b/src/PetriParse/QueryXMLParser.cpp
index c30ea8c..f77e100 100644
--- a/src/PetriParse/QueryXMLParser.cpp
+++ b/src/PetriParse/QueryXMLParser.cpp
@@ -21,6 +21,7 @@
 #include "PetriEngine/PQL/QueryPrinter.h"
 
 #include <string>
+#include <cinttypes>
 #include <cstdio>
 #include <cstdlib>
 #include <iostream>
@@ -465,8 +466,8 @@ Condition_ptr QueryXMLParser::parseBooleanFormula(rapidxml::xml_node<>*  element
 Expr_ptr QueryXMLParser::parseIntegerExpression(rapidxml::xml_node<>*  element) {
     std::string elementName = element->name();
     if (elementName == "integer-constant") {
-        int i;
-        if (sscanf(element->value(), "%d", &i) == EOF)
+        int64_t i;
+        if (sscanf(element->value(), "%" SCNd64, &i) != 1)
         {
             assert(false);
             return nullptr;
-- 
2.43.0


From 04b8ed5626fee8b00331372db25bc8263fa24927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:53 +0000
Subject: [PATCH 14/26] fix: refuse an integer-difference without operands in
 XML queries instead of building an empty difference

---
 src/PetriParse/QueryXMLParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PetriParse/QueryXMLParser.cpp b/src/PetriParse/QueryXMLParser.cpp
index f77e100..a40e111 100644
--- a/src/PetriParse/QueryXMLParser.cpp
+++ b/src/PetriParse/QueryXMLParser.cpp
@@ -537,6 +537,8 @@ Expr_ptr QueryXMLParser::parseIntegerExpression(rapidxml::xml_node<>*  element)
         for (auto it = children; it; it = it->next_sibling()) {
             els.emplace_back(parseIntegerExpression(it));
         }
+        if(els.empty())
+            throw base_error("`", elementName, "` found without any children in XML-file");
         if(els.size() == 1)
             els.emplace(els.begin(), std::make_shared<LiteralExpr>(0));
         return std::make_shared<SubtractExpr>(std::move(els));
-- 
2.43.0


From 60f16c651b24d914fb1abda07d7e68ebd18dbc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:21 +0000
Subject: [PATCH 15/26] fix: write a bound query as the bare place-bound
 element that can be read again

---
 src/PetriEngine/PQL/XMLPrinter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PetriEngine/PQL/XMLPrinter.cpp b/src/PetriEngine/PQL/XMLPrinter.cpp
index a9c9cc5..d4e2cc3 100644
--- a/src/PetriEngine/PQL/XMLPrinter.cpp
+++ b/src/PetriEngine/PQL/XMLPrinter.cpp
@@ -172,6 +172,12 @@ namespace PetriEngine {
         }
 
         void XMLPrinter::_accept(const EFCondition *condition) {
+            auto* cond = condition->getCond().get();
+            if (dynamic_cast<const UnfoldedUpperBoundsCondition*>(cond) || dynamic_cast<const UpperBoundsCondition*>(cond)) {
+                // the format has no quantifier around a place-bound, it is implied
+                Visitor::visit(this, condition->getCond());
+                return;
+            }
             Tag ep(this, "exists-path");
             {
                 Tag f(this, "finally");
-- 
2.43.0


From eab818b41a1789b1a259b173c21a64a5a331dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:21 +0000
Subject: [PATCH 16/26] fix: write the constant of an XML sum or product that
 has no other operand

---
 src/PetriEngine/PQL/XMLPrinter.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/PetriEngine/PQL/XMLPrinter.cpp b/src/PetriEngine/PQL/XMLPrinter.cpp
index d4e2cc3..69076f8 100644
--- a/src/PetriEngine/PQL/XMLPrinter.cpp
+++ b/src/PetriEngine/PQL/XMLPrinter.cpp
@@ -327,8 +327,9 @@ namespace PetriEngine {
         }
 
         void XMLPrinter::_accept(const PlusExpr *element) {
-            auto printer = [this](auto* element) {
-                if(element->constant() != 0)
+            const bool has_constant = element->constant() != 0 || (element->places().empty() && element->expressions().empty());
+            auto printer = [this, has_constant](auto* element) {
+                if(has_constant)
                     outputLine("<integer-constant>", element->constant(), "</integer-constant>");
                 if(!element->places().empty()) {
                     Tag tc(this, "tokens-count");
@@ -340,7 +341,7 @@ namespace PetriEngine {
                 for(auto& e : element->expressions())
                     Visitor::visit(this, e);
             };
-            auto nconst = (element->constant() != 0 ? 1 : 0);
+            auto nconst = (has_constant ? 1 : 0);
             auto ntoken_count = (element->places().empty() ? 0 : 1);
             if(element->expressions().size() + ntoken_count + nconst >= 2){
                 Tag t(this, "integer-sum");
@@ -353,8 +354,9 @@ namespace PetriEngine {
         }
 
         void XMLPrinter::_accept(const MultiplyExpr *element) {
-            auto printer = [this](auto* element) {
-                if(element->constant() != 1)
+            const bool has_constant = element->constant() != 1 || (element->places().empty() && element->expressions().empty());
+            auto printer = [this, has_constant](auto* element) {
+                if(has_constant)
                 outputLine("<integer-constant>", element->constant(), "</integer-constant>");
                 if(!element->places().empty()) {
                     for(auto& i : element->places())
@@ -367,7 +369,7 @@ namespace PetriEngine {
                     Visitor::visit(this, e);
             };
 
-            auto nconst = (element->constant() != 1 ? 1 : 0);
+            auto nconst = (has_constant ? 1 : 0);
             if(nconst + element->expressions().size() + element->places().size() >= 2)
             {
                 Tag i(this, "integer-product");
-- 
2.43.0


From aa1c39686b74103d6790265a9e90a06e560ff469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:35 +0000
Subject: [PATCH 17/26] fix: store integer constants of binary queries with 64
 bits instead of truncating them to 32

---
 src/PetriEngine/PQL/BinaryPrinter.cpp | 8 ++++----
 src/PetriParse/QueryBinaryParser.cpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PetriEngine/PQL/BinaryPrinter.cpp b/src/PetriEngine/PQL/BinaryPrinter.cpp
index 6031e8b..c2c1591 100644
--- a/src/PetriEngine/PQL/BinaryPrinter.cpp
+++ b/src/PetriEngine/PQL/BinaryPrinter.cpp
@@ -19,8 +19,8 @@
 namespace PetriEngine { namespace PQL {
     void BinaryPrinter::_accept(const LiteralExpr *element){
         os.write("l", sizeof(char));
-        int temp = element->value();
-        os.write(reinterpret_cast<const char*>(&temp), sizeof(int));
+        int64_t temp = element->value();
+        os.write(reinterpret_cast<const char*>(&temp), sizeof(int64_t));
     }
 
     void BinaryPrinter::_accept(const UnfoldedIdentifierExpr *element){
@@ -49,8 +49,8 @@ namespace PetriEngine { namespace PQL {
     void BinaryPrinter::_accept(const CommutativeExpr *element){
         auto sop = element->op();
         os.write(&sop[0], sizeof(char));
-        int32_t temp_constant = element->constant();
-        os.write(reinterpret_cast<const char*>(&temp_constant), sizeof(int32_t));
+        int64_t temp_constant = element->constant();
+        os.write(reinterpret_cast<const char*>(&temp_constant), sizeof(int64_t));
         uint32_t size = element->places().size();
         os.write(reinterpret_cast<const char*>(&size), sizeof(uint32_t));
         size = element->expressions().size();
diff --git a/src/PetriParse/QueryBinaryParser.cpp b/src/PetriParse/QueryBinaryParser.cpp
index 2c982fe..bf03db4 100644
--- a/src/PetriParse/QueryBinaryParser.cpp
+++ b/src/PetriParse/QueryBinaryParser.cpp
@@ -245,8 +245,8 @@ Expr_ptr QueryBinaryParser::parseExpr(std::istream& bin, const std::vector<share
     bin.read(&t, sizeof(char));
     if(t == 'l')
     {
-        int val;
-        bin.read(reinterpret_cast<char*>(&val), sizeof(int));
+        int64_t val;
+        bin.read(reinterpret_cast<char*>(&val), sizeof(int64_t));
         return std::make_shared<LiteralExpr>(val);
     }
     else if(t == 'i')
@@ -273,10 +273,10 @@ Expr_ptr QueryBinaryParser::parseExpr(std::istream& bin, const std::vector<share
     }
     else if(t == '*' || t == '+')
     {
-        int32_t constant;
+        int64_t constant;
         uint32_t idsize;
         uint32_t exprssize;
-        bin.read(reinterpret_cast<char*>(&constant), sizeof(int32_t));
+        bin.read(reinterpret_cast<char*>(&constant), sizeof(int64_t));
         bin.read(reinterpret_cast<char*>(&idsize), sizeof(uint32_t));
         bin.read(reinterpret_cast<char*>(&exprssize), sizeof(uint32_t));
         std::vector<uint32_t> ids(idsize);
-- 
2.43.0


From 9c2be7e091381489c90ada22abd1556232ad4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:23 +0000
Subject: [PATCH 18/26] fix: PNML transport arcs left the inhibitor flag of the
 arc uninitialised

---
 include/PetriParse/PNMLParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/PetriParse/PNMLParser.h b/include/PetriParse/PNMLParser.h
index 3b841c8..49882f5 100644
--- a/include/PetriParse/PNMLParser.h
+++ b/include/PetriParse/PNMLParser.h
@@ -39,7 +39,7 @@ class PNMLParser {
         std::string source,
         target;
         int weight;
-        bool inhib;
+        bool inhib = false;
         PetriEngine::Colored::ArcExpression_ptr expr;
     };
     typedef std::vector<Arc> ArcList;
-- 
2.43.0


From 2e7d0fca6addc0e61a1d7368599e33a5bd999d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:29 +0000
Subject: [PATCH 19/26] fix: a guard negation inside a negation was dropped
 when reading PNML

---
 src/PetriParse/PNMLParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index bc00dd6..dee1e65 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -380,7 +380,7 @@ void PNMLParser::collectColorsInTuple(rapidxml::xml_node<>* element, std::vector
 
 GuardExpression_ptr PNMLParser::parseGuardExpression(rapidxml::xml_node<>* element, bool notFlag) {
     if (strcmp(element->name(), "not") == 0) {
-        return parseGuardExpression(element->first_node(), true);
+        return parseGuardExpression(element->first_node(), !notFlag);
     }
     else if (strcmp(element->name(), "subterm") == 0 || strcmp(element->name(), "structure") == 0) {
         return parseGuardExpression(element->first_node(), notFlag);
-- 
2.43.0


From 07699f55be2f71d0d093ca6b15a464a6543d0e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:34 +0000
Subject: [PATCH 20/26] fix: PNML guard conjunctions of more than two operands
 lost the third and later ones

---
 src/PetriParse/PNMLParser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index dee1e65..9af4490 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -390,9 +390,17 @@ GuardExpression_ptr PNMLParser::parseGuardExpression(rapidxml::xml_node<>* eleme
         if (right == nullptr)
             return parseGuardExpression(left, notFlag);
         if (notFlag) {
-            return std::make_shared<OrExpression>(parseGuardExpression(left, true), parseGuardExpression(right, true));
+            auto parentOr = std::make_shared<OrExpression>(parseGuardExpression(left, true), parseGuardExpression(right, true));
+            for (auto it = right->next_sibling(); it; it = it->next_sibling()) {
+                parentOr = std::make_shared<OrExpression>(parentOr, parseGuardExpression(it, true));
+            }
+            return parentOr;
         } else {
-            return std::make_shared<AndExpression>(parseGuardExpression(left, false), parseGuardExpression(right, false));
+            auto parentAnd = std::make_shared<AndExpression>(parseGuardExpression(left, false), parseGuardExpression(right, false));
+            for (auto it = right->next_sibling(); it; it = it->next_sibling()) {
+                parentAnd = std::make_shared<AndExpression>(parentAnd, parseGuardExpression(it, false));
+            }
+            return parentAnd;
         }
     } else if (strcmp(element->name(), "or") == 0) {
         auto left = element->first_node();
-- 
2.43.0


From 39c28b60e2318ef081952ad99a5ec185f94562f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:39 +0000
Subject: [PATCH 21/26] fix: PNML add inside a tuple counted its earlier
 operands again for each later one

---
 src/PetriParse/PNMLParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index 9af4490..007f63e 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -340,8 +340,8 @@ void PNMLParser::collectColorsInTuple(rapidxml::xml_node<>* element, std::vector
         collectedColors.push_back(expressionsToAdd);
     } else if (strcmp(element->name(), "add") == 0) {
         std::vector<std::vector < ColorExpression_ptr>> intermediateColors;
-        std::vector<std::vector < ColorExpression_ptr>> intermediateColors2;
         for (auto it = element->first_node(); it; it = it->next_sibling()) {
+            std::vector<std::vector < ColorExpression_ptr>> intermediateColors2;
             collectColorsInTuple(it, intermediateColors2);
             if (intermediateColors.empty()) {
                 intermediateColors = intermediateColors2;
-- 
2.43.0


From 99d0808e7d200f059b6828baa4702847d7f0e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:44 +0000
Subject: [PATCH 22/26] fix: PNML 'all' of a product sort read past the end of
 the sort's colours

---
 src/PetriParse/PNMLParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index 007f63e..bee7115 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -528,8 +528,8 @@ std::vector<ColorExpression_ptr> PNMLParser::parseColorExpression(rapidxml::xml_
     } else if (strcmp(element->name(), "all") == 0) {
         auto* sort = parseUserSort(element);
         std::vector<ColorExpression_ptr> colors;
-        for(auto& c : *sort)
-            colors.emplace_back(std::make_shared<UserOperatorExpression>(&c));
+        for(size_t i = 0; i < sort->size(); ++i)
+            colors.emplace_back(std::make_shared<UserOperatorExpression>(&(*sort)[i]));
         return colors;
     }
     throw base_error("Unhandled color type");
-- 
2.43.0


From cc9dca0681cb87ae45a7d3d63edf486b64a35df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:54 +0000
Subject: [PATCH 23/26] fix: constant tuples on coloured arcs wrapped every
 component by the size of the first one

---
 src/PetriEngine/ExplicitColored/ArcCompiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index 785a390..cb83c83 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -715,7 +715,7 @@ namespace PetriEngine::ExplicitColored {
                             hasVariable = true;
                             break;
                         }
-                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[i]));
+                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[newColorSequence.size()]));
                     }
                     if (!hasVariable) {
                         constantMultiSet.addCount(ColorSequence { newColorSequence, expr->getColorMaxes() }, expr->getSignedCount());
-- 
2.43.0


From e24de5b9f18624e9bb75a41161b1bb71a64ac56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 24/26] fix: the lower bound of a subtraction on a coloured arc
 could exceed its value and disable transitions

---
 src/PetriEngine/ExplicitColored/ArcCompiler.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index cb83c83..d5ca5be 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -109,8 +109,8 @@ namespace PetriEngine::ExplicitColored {
                 for (const auto& [color, cardinality] : _minimalColorMarking.minimalMarkingMultiSet.counts()) {
                     _minimalColorMarking.minimalMarkingMultiSet.addCount(color, -variableCount);
                 }
-                _minimalColorMarking.minimalMarkingMultiSet.fixNegative();
             }
+            _minimalColorMarking.minimalMarkingMultiSet.fixNegative();
         }
 
         const CPNMultiSet& eval(const Binding& binding) const override {
@@ -139,9 +139,7 @@ namespace PetriEngine::ExplicitColored {
         }
 
         const ColoredMinimalMarking getMaximalColorMarking() const override {
-            auto rv = _lhs->getMinimalColorMarking();
-            rv.minimalMarkingMultiSet -= _rhs->getMaximalColorMarking().minimalMarkingMultiSet;
-            return rv;
+            return _lhs->getMaximalColorMarking();
         }
 
         const std::set<Variable_t> & getVariables() const override {
-- 
2.43.0


From a0c0023283ab773abfc44bb17f43efcc3648b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:18 +0000
Subject: [PATCH 25/26] fix: a coloured arc expression with multiplicity zero
 constrained the binding of its variables

---
 src/PetriEngine/ExplicitColored/ArcCompiler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index d5ca5be..f6ab587 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -406,6 +406,9 @@ namespace PetriEngine::ExplicitColored {
 
         [[nodiscard]] std::vector<VariableConstraint> calculateVariableConstraints(const Variable_t var, const Place_t place) const override {
             std::vector<VariableConstraint> constraints;
+            if (_count == 0) {
+                return constraints;
+            }
             for (const auto& parameterizedColorSequence : _parameterizedColorSequences) {
                 for (size_t colorIndex = 0; colorIndex < parameterizedColorSequence.size(); colorIndex++) {
                     const auto& parameterizedColor = parameterizedColorSequence[colorIndex];
-- 
2.43.0


From 7785efe755b1ef7e1ed740fcfd2fb06d2cdcc169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:48 +0000
Subject: [PATCH 26/26] fix: the round-robin successor generator read past the
 end of the transitions

---
 .../SuccessorGenerator/ColoredSuccessorGenerator.h             | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h b/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
index 7f288ac..c0f4227 100644
--- a/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
+++ b/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
@@ -98,10 +98,10 @@ namespace PetriEngine::ExplicitColored {
         // SuccessorGenerator but only considers current transition
         std::pair<ColoredPetriNetStateEven, TraceMapStep> _nextEven(ColoredPetriNetStateEven &state) const {
             auto [tid, bid] = state.getNextPair();
-            auto totalBindings = _net._transitions[tid].totalBindings;
             Binding binding;
             //If bid is updated at the end optimizations seem to make the loop not work
             while (bid != std::numeric_limits<Binding_t>::max()) {
+                const auto totalBindings = _net._transitions[tid].totalBindings;
                 const auto nextBid = findNextValidBinding(state.marking, tid, bid, totalBindings, binding, state.id);
                 state.updatePair(tid, nextBid);
                 if (nextBid != std::numeric_limits<Binding_t>::max()) {
@@ -117,7 +117,6 @@ namespace PetriEngine::ExplicitColored {
                     });
                 }
                 std::tie(tid, bid) = state.getNextPair();
-                totalBindings = _net._transitions[tid].totalBindings;
             }
             return std::make_pair(ColoredPetriNetStateEven {{}, 0}, TraceMapStep {});
         }
-- 
2.43.0

