From 1eed68ebfacce633a793d45e02942cb443650bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:51 +0000
Subject: [PATCH 001/111] fix: do not mark the shared deadlock condition as
 invariant

EF deadlock and its negation in one batch of queries shared the flag, so
one of the two was answered with the verdict of the other.
---
 src/PetriEngine/PQL/PrepareForReachability.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/PrepareForReachability.cpp b/src/PetriEngine/PQL/PrepareForReachability.cpp
index ea60558..3aa3905 100644
--- a/src/PetriEngine/PQL/PrepareForReachability.cpp
+++ b/src/PetriEngine/PQL/PrepareForReachability.cpp
@@ -47,8 +47,12 @@ namespace PetriEngine { namespace PQL {
     }
 
     void PrepareForReachabilityVisitor::_accept(const EFCondition *condition) {
-        condition->getCond()->setInvariant(_negated);
-        RETURN(condition->getCond());
+        Condition_ptr cond = condition->getCond();
+        // The deadlock constant is shared between queries, so it cannot carry the flag of one of them.
+        if (cond == DeadlockCondition::DEADLOCK)
+            cond = std::make_shared<DeadlockCondition>();
+        cond->setInvariant(_negated);
+        RETURN(cond);
     }
 
     void PrepareForReachabilityVisitor::_accept(const AXCondition *condition) {
-- 
2.43.0


From c0fb41f051562c97a4a17e9a3a68e2e51c7295f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:51 +0000
Subject: [PATCH 002/111] fix: allow a sum as the factor of a product

The assertion rejected every product with a non-constant sum as factor.
---
 src/PetriEngine/PQL/Expressions.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index 8611cde..a37bd68 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -642,7 +642,6 @@ namespace PetriEngine {
                     _exprs.insert(_exprs.end(), c->_exprs.begin(), c->_exprs.end());
                     _ids.insert(_ids.end(), c->_ids.begin(), c->_ids.end());
                 } else {
-                    assert(e->type() != type_id<PlusExpr>());
                     _exprs.emplace_back(e);
                 }
             } else {
-- 
2.43.0


From 4fcec6f5419693bfe94da0237a637cf38d3e968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:51 +0000
Subject: [PATCH 003/111] fix: always produce a result when initialising
 potencies

Sub-formulae that were trivial, a deadlock or visited after the timeout left a
moved-from (null) program behind, which the enclosing formula dereferenced.
---
 src/PetriEngine/PQL/PotencyVisitor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/PQL/PotencyVisitor.cpp b/src/PetriEngine/PQL/PotencyVisitor.cpp
index 4f8cb16..ff08f49 100644
--- a/src/PetriEngine/PQL/PotencyVisitor.cpp
+++ b/src/PetriEngine/PQL/PotencyVisitor.cpp
@@ -206,7 +206,7 @@ namespace PetriEngine { namespace PQL {
         if (!_context.potencyTimeout() && m1.canAnalyze() && m2.canAnalyze())
         {
             if ((m1.isZero() && m2.isZero()) || m1.substrationIsZero(m2))
-                return;
+                RETURN(RetvalPot())
             else
             {
                 int constant = m2.constant() - m1.constant();
@@ -242,7 +242,7 @@ namespace PetriEngine { namespace PQL {
         if (!_context.potencyTimeout() && m1.canAnalyze() && m2.canAnalyze())
         {
             if ((m1.isZero() && m2.isZero()) || m1.substrationIsZero(m2))
-                return;
+                RETURN(RetvalPot())
             else
             {
                 int constant = m2.constant() - m1.constant();
@@ -273,13 +273,13 @@ namespace PetriEngine { namespace PQL {
 
     void PotencyVisitor::_accept(const DeadlockCondition *element)
     {
-        return;
+        RETURN(RetvalPot())
     }
 
     void PotencyVisitor::_accept(const CompareConjunction *element)
     {
         if (_context.potencyTimeout())
-            return;
+            RETURN(RetvalPot())
 
         std::vector<AbstractProgramCollection_ptr> lpsv;
         auto neg = _context.negated() != element->isNegated();
-- 
2.43.0


From 446d3e340421faec594adba998edb39ea8af6cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:51 +0000
Subject: [PATCH 004/111] fix: reduction rule C must not count inhibitor arcs
 as consumption

---
 src/PetriEngine/Reducer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index e52c2e9..3510e76 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -698,6 +698,12 @@ namespace PetriEngine {
                             const auto &p1Arc = getInArc(p1, tran);
                             const auto &p2Arc = getInArc(p2, tran);
 
+                            if (p1Arc->inhib) {
+                                // p1 does not drain here, so it tells nothing about p2
+                                ok = false;
+                                break;
+                            }
+
                             maxDrainRatio = std::max(maxDrainRatio, (double)p2Arc->weight / (double)p1Arc->weight);
                         }
 
-- 
2.43.0


From 79891cdb615ef7258111cdb6c0f85a118ebeb657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:51 +0000
Subject: [PATCH 005/111] fix: reduction rule E must remove the dead
 transitions with their place

Removing only the place left the transitions it disables without precondition.
---
 src/PetriEngine/Reducer.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 3510e76..5948478 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -1012,12 +1012,6 @@ namespace PetriEngine {
 
             bool allArcsRemoved = initiallyDisabled.size() + inhibited.size() == place.consumers.size();
 
-            // Can the place be removed entirely?
-            if(allArcsRemoved && (placeInQuery[p] == 0)) {
-                skipPlace(p);
-                continue;
-            }
-
             for(uint32_t cons : initiallyDisabled) {
                 Transition &t = getTransition(cons);
                 const auto& in = getInArc(p, t);
@@ -1032,6 +1026,10 @@ namespace PetriEngine {
                 assert(in->weight > parent->initialMarking[p]);
                 skipInArc(p, tran);
             }
+
+            // Can the place be removed entirely?
+            if(allArcsRemoved && (placeInQuery[p] == 0))
+                skipPlace(p);
         }
         assert(consistent());
         return continueReductions;
-- 
2.43.0


From b82db9691ab45ed077c48fb21fda5069383995f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:03 +0000
Subject: [PATCH 006/111] fix: skip every next-sensitive rule of a user-defined
 reduction sequence

Only C, E, F, H and I were skipped for queries with a next operator; A, B, D, G,
K, Q, R and S change the number of steps as well.
---
 src/PetriEngine/Reducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 5948478..6eb87b6 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2917,7 +2917,7 @@ restart:
             const char* rnames = "ABCDEFGHIJKLMNOPQRS";
             for(int i = reduction.size() - 1; i >= 0; --i)
             {
-                if (contains_next && (reduction[i] == 2 || reduction[i] == 4 || reduction[i] == 5 || reduction[i] == 7 || reduction[i] == 8))
+                if (contains_next && (reduction[i] <= 8 || reduction[i] == 10 || reduction[i] >= 16))
                 {
                     std::cerr << "Skipping Rule" << rnames[reduction[i]] << " due to NEXT operator in proposition" << std::endl;
                     reduction.erase(reduction.begin() + i);
-- 
2.43.0


From 4aa2d4016162718c7c2ef9e492bbb1ed95e123ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:26 +0000
Subject: [PATCH 007/111] fix: guide the reachability search only by undecided
 queries

---
 .../Reachability/ReachabilitySearch.h         | 19 +++++++++++++++++--
 .../Reachability/ReachabilitySearch.cpp       |  4 ++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/PetriEngine/Reachability/ReachabilitySearch.h b/include/PetriEngine/Reachability/ReachabilitySearch.h
index d39b177..56f4b88 100644
--- a/include/PetriEngine/Reachability/ReachabilitySearch.h
+++ b/include/PetriEngine/Reachability/ReachabilitySearch.h
@@ -127,6 +127,21 @@ namespace PetriEngine {
             return ReducingSuccessorGenerator{net, stubset};
         }
 
+        /**
+         * Picks, at random, an undecided query to guide the search; queries that are already decided or
+         * are left to another engine are not prepared for distance computations.
+         */
+        inline size_t initialHeuristicQuery(const std::vector<ResultPrinter::Result>& results) {
+            if (results.size() < 2) return 0;
+            const size_t start = std::rand() % results.size();
+            for (size_t n = 0; n < results.size(); ++n) {
+                const size_t candidate = (start + n) % results.size();
+                if (results[candidate] == ResultPrinter::Unknown)
+                    return candidate;
+            }
+            return start;
+        }
+
         template<typename Q, typename W, typename G>
         bool ReachabilitySearch::tryReach(std::vector<std::shared_ptr<PQL::Condition> >& queries,
                                         std::vector<ResultPrinter::Result>& results, bool usequeries,
@@ -139,7 +154,7 @@ namespace PetriEngine {
             ss.enabledTransitionsCount.resize(_net.numberOfTransitions(), 0);
             ss.expandedStates = 0;
             ss.exploredStates = 1;
-            ss.heurquery = queries.size() >= 2 ? std::rand() % queries.size() : 0;
+            ss.heurquery = initialHeuristicQuery(results);
             ss.usequeries = usequeries;
 
             // set up working area
@@ -239,7 +254,7 @@ namespace PetriEngine {
             ss.enabledTransitionsCount.resize(_net.numberOfTransitions(), 0);
             ss.expandedStates = 0;
             ss.exploredStates = 1;
-            ss.heurquery = queries.size() >= 2 ? std::rand() % queries.size() : 0;
+            ss.heurquery = initialHeuristicQuery(results);
             ss.usequeries = usequeries;
             const PQL::Condition *query = queries[ss.heurquery].get();
 
diff --git a/src/PetriEngine/Reachability/ReachabilitySearch.cpp b/src/PetriEngine/Reachability/ReachabilitySearch.cpp
index 796e5e8..7c7bb8d 100644
--- a/src/PetriEngine/Reachability/ReachabilitySearch.cpp
+++ b/src/PetriEngine/Reachability/ReachabilitySearch.cpp
@@ -64,8 +64,8 @@ namespace PetriEngine {
                     {
                         for(size_t n = 1; n < queries.size(); ++n)
                         {
-                            ss.heurquery = (ss.heurquery + n) % queries.size();
-                            if(results[i] == ResultPrinter::Unknown)
+                            ss.heurquery = (i + n) % queries.size();
+                            if(results[ss.heurquery] == ResultPrinter::Unknown)
                                 break;
                         }
                     }
-- 
2.43.0


From 8f3d31dcc12fe4c2a1c11f89719109da4e78e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:26 +0000
Subject: [PATCH 008/111] fix: compute potencies for queries with path
 quantifiers

---
 include/PetriEngine/PQL/PotencyVisitor.h |  4 ++++
 src/PetriEngine/PQL/PotencyVisitor.cpp   | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/PetriEngine/PQL/PotencyVisitor.h b/include/PetriEngine/PQL/PotencyVisitor.h
index 809c6d4..3a34e26 100644
--- a/include/PetriEngine/PQL/PotencyVisitor.h
+++ b/include/PetriEngine/PQL/PotencyVisitor.h
@@ -86,6 +86,10 @@ namespace PetriEngine { namespace PQL {
 
         void _accept(const ControlCondition *condition) override;
 
+        void _accept(const ACondition *condition) override;
+
+        void _accept(const ECondition *condition) override;
+
         void _accept(const EFCondition *condition) override;
 
         void _accept(const EGCondition *condition) override;
diff --git a/src/PetriEngine/PQL/PotencyVisitor.cpp b/src/PetriEngine/PQL/PotencyVisitor.cpp
index ff08f49..7516bd0 100644
--- a/src/PetriEngine/PQL/PotencyVisitor.cpp
+++ b/src/PetriEngine/PQL/PotencyVisitor.cpp
@@ -384,6 +384,16 @@ namespace PetriEngine { namespace PQL {
         Visitor::visit(this, condition->getCond());
     }
 
+    void PotencyVisitor::_accept(const ACondition *condition)
+    {
+        Visitor::visit(this, condition->getCond());
+    }
+
+    void PotencyVisitor::_accept(const ECondition *condition)
+    {
+        Visitor::visit(this, condition->getCond());
+    }
+
     void PotencyVisitor::_accept(const EFCondition *condition)
     {
         Visitor::visit(this, condition->getCond());
-- 
2.43.0


From fea151b50107b8ec450fd9f22a31487d91bf2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:26 +0000
Subject: [PATCH 009/111] fix: boolean constants have no visible transitions

---
 include/LTL/Stubborn/VisibleTransitionVisitor.h | 2 ++
 src/LTL/Stubborn/VisibleTransitionVisitor.cpp   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/LTL/Stubborn/VisibleTransitionVisitor.h b/include/LTL/Stubborn/VisibleTransitionVisitor.h
index 2929317..9d0e2f4 100644
--- a/include/LTL/Stubborn/VisibleTransitionVisitor.h
+++ b/include/LTL/Stubborn/VisibleTransitionVisitor.h
@@ -45,6 +45,8 @@ namespace LTL {
 
         void _accept(const PetriEngine::PQL::DeadlockCondition *element) override;
 
+        void _accept(const PetriEngine::PQL::BooleanCondition *element) override;
+
         void _accept(const PetriEngine::PQL::CompareConjunction *element) override;
 
         void _accept(const PetriEngine::PQL::UnfoldedUpperBoundsCondition *element) override;
diff --git a/src/LTL/Stubborn/VisibleTransitionVisitor.cpp b/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
index 108669f..1165706 100644
--- a/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
+++ b/src/LTL/Stubborn/VisibleTransitionVisitor.cpp
@@ -58,6 +58,10 @@ namespace LTL {
         // no-op
     }
 
+    void VisibleTransitionVisitor::_accept(const PetriEngine::PQL::BooleanCondition *element) {
+        // no-op
+    }
+
     void VisibleTransitionVisitor::_accept(const PetriEngine::PQL::CompareConjunction *element) {
         for (const auto &cons : *element) {
             _places[cons._place] = true;
-- 
2.43.0


From 3c3cbdd2b4bc1a5fc202094ed388df81492d18fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:41 +0000
Subject: [PATCH 010/111] fix: record the truth value of shallow conditions for
 stubborn sets

---
 src/PetriEngine/PQL/Evaluation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/PQL/Evaluation.cpp b/src/PetriEngine/PQL/Evaluation.cpp
index 014245f..b3467b1 100644
--- a/src/PetriEngine/PQL/Evaluation.cpp
+++ b/src/PetriEngine/PQL/Evaluation.cpp
@@ -457,6 +457,7 @@ namespace PetriEngine { namespace PQL {
 
     void EvaluateAndSetVisitor::_accept(ShallowCondition *element) {
         Visitor::visit(this, element->getCompiled());
+        element->setSatisfied(_return_value);
     }
 
     int64_t evaluate(Expr *element, const EvaluationContext &context) {
-- 
2.43.0


From daca394cfaeeffa7f3c12da32412e11968aba34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:37 +0000
Subject: [PATCH 011/111] fix: LTL stubborn sets must keep every transition
 that can affect a guard

---
 include/LTL/Stubborn/AutomatonStubbornSet.h   |  2 +-
 .../Stubborn/InterestingTransitionVisitor.h   | 21 ++---
 .../Stubborn/InterestingTransitionVisitor.cpp | 90 ++++---------------
 3 files changed, 31 insertions(+), 82 deletions(-)

diff --git a/include/LTL/Stubborn/AutomatonStubbornSet.h b/include/LTL/Stubborn/AutomatonStubbornSet.h
index ff0ae24..0674891 100644
--- a/include/LTL/Stubborn/AutomatonStubbornSet.h
+++ b/include/LTL/Stubborn/AutomatonStubbornSet.h
@@ -37,7 +37,7 @@ namespace LTL {
             _gen(_net)
         {
             _markbuf.setMarking(net.makeInitialMarking());
-            _retarding_stubborn_set.setInterestingVisitor<PetriEngine::AutomatonInterestingTransitionVisitor>();
+            _retarding_stubborn_set.setInterestingVisitor<PetriEngine::InterestingLTLTransitionVisitor>();
         }
 
         bool prepare(const PetriEngine::Structures::State *marking) override {
diff --git a/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h b/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
index ac9c84b..9540346 100644
--- a/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
+++ b/include/PetriEngine/Stubborn/InterestingTransitionVisitor.h
@@ -196,15 +196,25 @@ namespace PetriEngine {
             void _accept(const PQL::SubtractExpr *element) override;
         };
 
+    protected:
         IncrVisitor incr;
         DecrVisitor decr;
     };
 
+    /**
+     * Collects every transition that can affect a condition, also when the condition does not change in the
+     * current marking: a transition may only be postponed or preponed past others when it leaves the truth value
+     * of the condition alone in all of the markings in between.
+     */
     class InterestingLTLTransitionVisitor : public InterestingTransitionVisitor {
     public:
         explicit InterestingLTLTransitionVisitor(StubbornSet &stubbornSet, bool closure) : InterestingTransitionVisitor(stubbornSet, closure) {}
 
     protected:
+        void _accept(const PQL::AndCondition *element) override;
+
+        void _accept(const PQL::OrCondition *element) override;
+
         void _accept(const PQL::LessThanCondition *element) override;
 
         void _accept(const PQL::LessThanOrEqualCondition *element) override;
@@ -215,16 +225,7 @@ namespace PetriEngine {
 
         void _accept(const PQL::CompareConjunction *element) override;
 
-        template<typename Condition>
-        void negate_if_satisfied(const Condition *element);
-    };
-
-    class AutomatonInterestingTransitionVisitor : public InterestingTransitionVisitor {
-    public:
-        explicit AutomatonInterestingTransitionVisitor(StubbornSet &stubbornSet, bool closure) : InterestingTransitionVisitor(stubbornSet, closure) {}
-
-    protected:
-        void _accept(const PQL::CompareConjunction *element) override;
+        void visit_both_directions(const PQL::CompareCondition *element);
     };
 }
 
diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index db53e6e..f025b77 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -365,24 +365,34 @@ namespace PetriEngine {
         _stubborn.postsetOf(element->offset(), closure);
     }
 
+    void InterestingLTLTransitionVisitor::_accept(const PQL::AndCondition *element)
+    {
+        for (auto &c : *element) Visitor::visit(this, c);
+    }
+
+    void InterestingLTLTransitionVisitor::_accept(const PQL::OrCondition *element)
+    {
+        for (auto &c : *element) Visitor::visit(this, c);
+    }
+
     void InterestingLTLTransitionVisitor::_accept(const PQL::LessThanCondition *element)
     {
-        negate_if_satisfied<PQL::LessThanCondition>(element);
+        visit_both_directions(element);
     }
 
     void InterestingLTLTransitionVisitor::_accept(const PQL::LessThanOrEqualCondition *element)
     {
-        negate_if_satisfied<PQL::LessThanOrEqualCondition>(element);
+        visit_both_directions(element);
     }
 
     void InterestingLTLTransitionVisitor::_accept(const PQL::EqualCondition *element)
     {
-        negate_if_satisfied<PQL::EqualCondition>(element);
+        visit_both_directions(element);
     }
 
     void InterestingLTLTransitionVisitor::_accept(const PQL::NotEqualCondition *element)
     {
-        negate_if_satisfied<PQL::NotEqualCondition>(element);
+        visit_both_directions(element);
     }
 
     void InterestingLTLTransitionVisitor::_accept(const PQL::CompareConjunction *element)
@@ -412,73 +422,11 @@ namespace PetriEngine {
         }
     }
 
-    template<typename Condition>
-    void InterestingLTLTransitionVisitor::negate_if_satisfied(const Condition *element)
-    {
-        auto isSatisfied = element->getSatisfied();
-        assert(isSatisfied != PQL::Condition::RUNKNOWN);
-        if ((isSatisfied == PQL::Condition::RTRUE) != negated) {
-            negate();
-            InterestingTransitionVisitor::_accept(element);
-            negate();
-        } else
-            InterestingTransitionVisitor::_accept(element);
-    }
-
-    void AutomatonInterestingTransitionVisitor::_accept(const PQL::CompareConjunction *element)
+    void InterestingLTLTransitionVisitor::visit_both_directions(const PQL::CompareCondition *element)
     {
-        auto neg = negated != element->isNegated();
-        for (auto &c : *element) {
-            int32_t cand = std::numeric_limits<int32_t>::max();
-            bool pre = false;
-            auto val = _stubborn.getParent()[c._place];
-            if (c._lower == c._upper) {
-                if (neg) {
-                    if (val != c._lower) continue;
-                    _stubborn.postsetOf(c._place, closure);
-                    _stubborn.presetOf(c._place, closure);
-                } else {
-                    if (val == c._lower) continue;
-                    if (val > c._lower) {
-                        cand = c._place;
-                        pre = false;
-                    } else {
-                        cand = c._place;
-                        pre = true;
-                    }
-                }
-            } else {
-                if (!neg) {
-                    if (val < c._lower && c._lower != 0) {
-                        assert(!neg);
-                        cand = c._place;
-                        pre = true;
-                    }
-
-                    if (val > c._upper && c._upper != std::numeric_limits<uint32_t>::max()) {
-                        assert(!neg);
-                        cand = c._place;
-                        pre = false;
-                    }
-                } else {
-                    if (val >= c._lower && c._lower != 0) {
-                        _stubborn.postsetOf(c._place, closure);
-                    }
-
-                    if (val <= c._upper && c._upper != std::numeric_limits<uint32_t>::max()) {
-                        _stubborn.presetOf(c._place, closure);
-                    }
-                }
-            }
-            if (cand != std::numeric_limits<int32_t>::max()) {
-                if (pre) {
-                    _stubborn.presetOf(cand, closure);
-                } else if (!pre) {
-                    _stubborn.postsetOf(cand, closure);
-                }
-                cand = std::numeric_limits<int32_t>::max();
-            }
+        for (auto &e : {element->getExpr1(), element->getExpr2()}) {
+            Visitor::visit(incr, e);
+            Visitor::visit(decr, e);
         }
-
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From b8edcd703e4495d0cb104cb261a11cbc8690ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:36 +0000
Subject: [PATCH 012/111] fix: do not mark the shared boolean constants as
 invariant

EF false next to AG true (or a negation) in one batch of queries shared
the flag of the constant, so one was answered with the verdict of the other.
---
 src/PetriEngine/PQL/PrepareForReachability.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/PQL/PrepareForReachability.cpp b/src/PetriEngine/PQL/PrepareForReachability.cpp
index 3aa3905..7b907fd 100644
--- a/src/PetriEngine/PQL/PrepareForReachability.cpp
+++ b/src/PetriEngine/PQL/PrepareForReachability.cpp
@@ -48,9 +48,13 @@ namespace PetriEngine { namespace PQL {
 
     void PrepareForReachabilityVisitor::_accept(const EFCondition *condition) {
         Condition_ptr cond = condition->getCond();
-        // The deadlock constant is shared between queries, so it cannot carry the flag of one of them.
+        // The constants are shared between queries, so they cannot carry the flag of one of them.
         if (cond == DeadlockCondition::DEADLOCK)
             cond = std::make_shared<DeadlockCondition>();
+        else if (cond == BooleanCondition::TRUE_CONSTANT)
+            cond = std::make_shared<BooleanCondition>(true);
+        else if (cond == BooleanCondition::FALSE_CONSTANT)
+            cond = std::make_shared<BooleanCondition>(false);
         cond->setInvariant(_negated);
         RETURN(cond);
     }
-- 
2.43.0


From dc3b74553e87c13b8a05373e635b3509597dd21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:20 +0000
Subject: [PATCH 013/111] fix: fire the transitions of a net without places

Structural reductions may remove the last place; the remaining transitions
are always enabled, but were never fired, so the net was treated as dead
by every search (EX !deadlock was answered FALSE).
---
 include/PetriEngine/Stubborn/StubbornSet.h | 2 +-
 include/PetriEngine/SuccessorGenerator.h   | 2 +-
 src/PetriEngine/PetriNet.cpp               | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/PetriEngine/Stubborn/StubbornSet.h b/include/PetriEngine/Stubborn/StubbornSet.h
index f74b4ce..e879462 100644
--- a/include/PetriEngine/Stubborn/StubbornSet.h
+++ b/include/PetriEngine/Stubborn/StubbornSet.h
@@ -243,7 +243,7 @@ namespace PetriEngine {
             _ordering.clear();
             memset(_enabled.get(), 0, _net.numberOfTransitions());
             memset(_stubborn.get(), 0, _net.numberOfTransitions());
-            for (uint32_t p = 0; p < _net.numberOfPlaces(); ++p) {
+            for (uint32_t p = 0; p + 1 < placeToPtrs().size(); ++p) {
                 // orphans are currently under "place 0" as a special case
                 if (p == 0 || _parent->marking()[p] > 0) {
                     uint32_t t = placeToPtrs()[p];
diff --git a/include/PetriEngine/SuccessorGenerator.h b/include/PetriEngine/SuccessorGenerator.h
index 4e8b934..ea18eda 100644
--- a/include/PetriEngine/SuccessorGenerator.h
+++ b/include/PetriEngine/SuccessorGenerator.h
@@ -85,7 +85,7 @@ protected:
 
     template<typename T>
     bool _next(Structures::State& write, T&& predicate) {
-        for (; _suc_pcounter < _net._nplaces; ++_suc_pcounter) {
+        for (; _suc_pcounter + 1 < _net._placeToPtrs.size(); ++_suc_pcounter) {
             // orphans are currently under "place 0" as a special case
             if (_suc_pcounter == 0 || (*_parent).marking()[_suc_pcounter] > 0) {
                 if (_suc_tcounter == std::numeric_limits<uint32_t>::max()) {
diff --git a/src/PetriEngine/PetriNet.cpp b/src/PetriEngine/PetriNet.cpp
index 7d5c5ed..81d35e9 100644
--- a/src/PetriEngine/PetriNet.cpp
+++ b/src/PetriEngine/PetriNet.cpp
@@ -26,6 +26,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <algorithm>
 
 namespace PetriEngine {
 
@@ -33,13 +34,13 @@ namespace PetriEngine {
     : _ninvariants(invariants), _ntransitions(trans), _nplaces(places),
             _transitions(_ntransitions+1),
             _invariants(_ninvariants),
-            _placeToPtrs(_nplaces+1),
+            _placeToPtrs(std::max(_nplaces, 1u)+1), // orphans are under "place 0", even in a net without places
             _controllable(_ntransitions+1, true) {
 
         // to avoid special cases
         _transitions[_ntransitions].inputs = _ninvariants;
         _transitions[_ntransitions].outputs = _ninvariants;
-        _placeToPtrs[_nplaces] = _ntransitions;
+        _placeToPtrs.back() = _ntransitions;
         _initialMarking = new MarkVal[_nplaces];
 //        assert(_nplaces > 0);
     }
-- 
2.43.0


From ea13e99066e84062dfd6a2da7991d5e845b665b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:55 +0000
Subject: [PATCH 014/111] fix: reduction rule S used a transition reference
 invalidated by adding transitions

---
 src/PetriEngine/Reducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 6eb87b6..336cbfc 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2709,7 +2709,8 @@ namespace PetriEngine {
 
                         uint32_t k = 1, w = 1;
                         if (!kIsAlwaysOne[n]) {
-                            w = getInArc(pid, consumer)->weight;
+                            // Adding transitions below invalidates references, so fetch the consumer again
+                            w = getInArc(pid, getTransition(originalConsumers[n]))->weight;
                             k = getOutArc(producer, pid)->weight / w;
                         }
 
-- 
2.43.0


From a9017c81d01a43fd963c7451ce0293c0ae966399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:19 +0000
Subject: [PATCH 015/111] fix: a union of linear programs may become empty
 after an earlier solver failure

---
 src/PetriEngine/Simplification/LinearPrograms.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Simplification/LinearPrograms.cpp b/src/PetriEngine/Simplification/LinearPrograms.cpp
index c7ee2df..b4994f9 100644
--- a/src/PetriEngine/Simplification/LinearPrograms.cpp
+++ b/src/PetriEngine/Simplification/LinearPrograms.cpp
@@ -64,7 +64,8 @@ namespace PetriEngine {
 
         void UnionCollection::reset()
         {
-            lps[0]->reset();
+            if (!lps.empty())
+                lps[0]->reset();
             current = 0;
         }
 
@@ -99,8 +100,8 @@ namespace PetriEngine {
                     lps.erase(lps.begin() + i);
                 }
             }
-            if (_result != POSSIBLE)
-                _result = IMPOSSIBLE;
+            // every alternative is gone, also if an earlier attempt had to give up
+            _result = IMPOSSIBLE;
         }
 
         uint32_t UnionCollection::explorePotencyImpl(const PQL::SimplificationContext& context,
-- 
2.43.0


From db5eccf4c0c84f286885ee35ea21381dc6f7964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:50 +0000
Subject: [PATCH 016/111] fix: LTL traces must describe a run that violates the
 formula

---
 include/LTL/Algorithm/TarjanModelChecker.h    |   9 +-
 .../SpoolingSuccessorGenerator.h              |   1 +
 src/LTL/Algorithm/NestedDepthFirstSearch.cpp  |  17 +--
 src/LTL/Algorithm/TarjanModelChecker.cpp      | 101 ++++++++----------
 4 files changed, 50 insertions(+), 78 deletions(-)

diff --git a/include/LTL/Algorithm/TarjanModelChecker.h b/include/LTL/Algorithm/TarjanModelChecker.h
index 62cadb6..ed46d2f 100644
--- a/include/LTL/Algorithm/TarjanModelChecker.h
+++ b/include/LTL/Algorithm/TarjanModelChecker.h
@@ -110,8 +110,6 @@ namespace LTL {
         };
 
         struct tracable_centry_t : plain_centry_t {
-            idx_t _lowsource = std::numeric_limits<idx_t>::max();
-            idx_t _sourcetrans = std::numeric_limits<idx_t>::max();
             tracable_centry_t(idx_t lowlink, idx_t stateid, idx_t next) : plain_centry_t(lowlink, stateid, next) {}
             static constexpr bool save_trace() { return true; }
         };
@@ -128,9 +126,8 @@ namespace LTL {
         // cstack positions of accepting states in current search path, for quick access.
         light_deque<idx_t> _astack;
 
-        bool _invariant_loop = true;
+        bool _invariant_loop = false;
         size_t _loop_state = std::numeric_limits<size_t>::max();
-        uint32_t _loop_trans = std::numeric_limits<uint32_t>::max();
         size_t _discoverd = std::numeric_limits<size_t>::max();
         size_t _max_tokens = std::numeric_limits<size_t>::max();
         size_t _markings = 0;
@@ -155,8 +152,8 @@ namespace LTL {
         template<typename StateSet, typename T>
         void popCStack(StateSet& s, light_deque<T>& cstack);
 
-        template<typename S, typename D, typename C>
-        void build_trace(S& seen, light_deque<D> &&dstack, light_deque<C>& cstack);
+        template<typename S, typename SuccGen, typename D, typename C>
+        void build_trace(S& seen, SuccGen& successorGenerator, light_deque<D>& dstack, light_deque<C>& cstack);
     };
 }
 
diff --git a/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h b/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
index a659b10..eba9e40 100644
--- a/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
+++ b/include/LTL/SuccessorGeneration/SpoolingSuccessorGenerator.h
@@ -143,6 +143,7 @@ namespace LTL {
             assert(sucinfo._successors != nullptr);
             if (sucinfo._successors.empty()) {
                 _last = std::numeric_limits<uint32_t>::max() - 1;
+                sucinfo._transition = _last;
                 return false;
             }
             _last = sucinfo._successors.front();
diff --git a/src/LTL/Algorithm/NestedDepthFirstSearch.cpp b/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
index 41e6c15..ced4710 100644
--- a/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
+++ b/src/LTL/Algorithm/NestedDepthFirstSearch.cpp
@@ -220,29 +220,19 @@ namespace LTL {
     template<typename T>
     void NestedDepthFirstSearch::build_trace(light_deque<stack_entry_t<T>>& todo, light_deque<stack_entry_t<T>>& nested_todo)
     {
-        size_t loop_id = std::numeric_limits<size_t>::max();
         // last element of todo-stack always has a "garbage" transition, it is the
         // current working element OR first element of nested.
-
         if(!todo.empty())
             todo.pop_back();
-        if(!nested_todo.empty()) {
-            // here the last state is significant
-            // of the successor is the check that demonstrates the violation.
-            loop_id = nested_todo.back()._id;
-            nested_todo.pop_back();
-        }
 
         for(auto* stck : {&todo, &nested_todo})
         {
+            // the nested search leads from the last state of the outer search back to that state.
+            if(stck == &nested_todo && !nested_todo.empty())
+                _loop = _trace.size();
             while(!(*stck).empty())
             {
                 auto& top = (*stck).front();
-                if(top._id == loop_id)
-                {
-                    _loop = _trace.size();
-                    loop_id = std::numeric_limits<size_t>::max();
-                }
                 auto res = top._sucinfo.transition();
                 if constexpr (std::is_same<decltype(res),std::vector<uint32_t>>::value)
                 {
@@ -251,7 +241,6 @@ namespace LTL {
                 else
                 {
                     _trace.push_back({top._sucinfo.transition()});
-                    assert(top._sucinfo.transition() < _net.numberOfTransitions());
                 }
                 (*stck).pop_front();
             }
diff --git a/src/LTL/Algorithm/TarjanModelChecker.cpp b/src/LTL/Algorithm/TarjanModelChecker.cpp
index dd0b1b5..532a02d 100644
--- a/src/LTL/Algorithm/TarjanModelChecker.cpp
+++ b/src/LTL/Algorithm/TarjanModelChecker.cpp
@@ -18,6 +18,10 @@
 #include "LTL/Algorithm/TarjanModelChecker.h"
 #include "PetriEngine/PQL/PredicateCheckers.h"
 
+#include <unordered_map>
+#include <unordered_set>
+#include <vector>
+
 namespace LTL {
 
     void TarjanModelChecker::print_stats(std::ostream &os) const {
@@ -149,12 +153,6 @@ namespace LTL {
                     continue;
                 }
 
-                if constexpr (SaveTrace) {
-                    if (isnew) {
-                        seen.set_history(stateid, successorGenerator.fired());
-                    }
-                }
-
                 dtop._sucinfo._last_state = stateid;
 
                 // lookup successor in 'hash' table
@@ -186,12 +184,7 @@ namespace LTL {
             if constexpr (SaveTrace) {
                 // print counter-example if it exists.
                 if (_violation) {
-                    light_deque<dentry_t<SuccGen>> revstack;
-                    while (!dstack.empty()) {
-                        revstack.push_back(std::move(dstack.back()));
-                        dstack.pop_back();
-                    }
-                    build_trace(seen, std::move(revstack), cstack);
+                    build_trace(seen, successorGenerator, dstack, cstack);
                 }
             }
         }
@@ -271,8 +264,6 @@ namespace LTL {
             cstack[from]._lowlink = cstack[to]._lowlink;
             if constexpr (T::save_trace()) {
                 _loop_state = cstack[to]._stateid;
-                _loop_trans = successorGenerator.fired();
-                cstack[to]._lowsource = from;
             }
         }
     }
@@ -290,54 +281,48 @@ namespace LTL {
         return res;
     }
 
-    template<typename S, typename D, typename C>
-    void TarjanModelChecker::build_trace(S& seen, light_deque<D> &&dstack, light_deque<C>& cstack)
+    template<typename S, typename SuccGen, typename D, typename C>
+    void TarjanModelChecker::build_trace(S& seen, SuccGen& successorGenerator, light_deque<D>& dstack, light_deque<C>& cstack)
     {
         assert(_violation);
-        if (cstack[dstack.back()._pos]._stateid == _loop_state)
-            _loop = _trace.size();
-        dstack.pop_back();
-        size_t p = 0;
-        bool had_deadlock = _loop_trans == std::numeric_limits<uint32_t>::max() - 1;
-        // print (reverted) dstack
-        while (!dstack.empty()) {
-            p = dstack.back()._pos;
-            dstack.pop_back();
-            auto stateid = cstack[p]._stateid;
-            auto[parent, tid] = seen.get_history(stateid);
-            _trace.push_back({(uint32_t)tid});
-            if(tid >= std::numeric_limits<uint32_t>::max() - 1)
-            {
-                had_deadlock = true;
-                break;
+        // each element of the search path remembers the transition taken towards the next one.
+        for (size_t i = 0; i + 1 < dstack.size(); ++i)
+            _trace.push_back({(uint32_t)dstack[i]._sucinfo.transition()});
+        if (_invariant_loop)
+            return; // any continuation of this run is a violation
+        _trace.push_back({(uint32_t)dstack.back()._sucinfo.transition()});
+
+        // states on the search path that close an accepting loop when reached again.
+        std::unordered_map<size_t, size_t> closing;
+        for (size_t i = 0; i < dstack.size() && dstack[i]._pos <= _astack.back(); ++i)
+            closing[cstack[dstack[i]._pos]._stateid] = i;
+
+        // the last transition may lead into an already explored part of the component,
+        // find the way from there back to the search path.
+        struct step_t { size_t _state; size_t _prev; uint32_t _transition; };
+        std::vector<step_t> steps{{_loop_state, 0, 0}};
+        std::unordered_set<size_t> reached{_loop_state};
+        State parent = _factory.new_state();
+        State working = _factory.new_state();
+        for (size_t i = 0; i < steps.size(); ++i) {
+            auto it = closing.find(steps[i]._state);
+            if (it != closing.end()) {
+                std::vector<uint32_t> back;
+                for (size_t j = i; j != 0; j = steps[j]._prev)
+                    back.push_back(steps[j]._transition);
+                for (auto t = back.rbegin(); t != back.rend(); ++t)
+                    _trace.push_back({*t});
+                _loop = it->second;
+                return;
             }
-            if(cstack[p]._stateid == _loop_state)
-                _loop = _trace.size();
-            cstack[p]._lowlink = std::numeric_limits<idx_t>::max();
-        }
-        // follow previously found back edges via lowsource until back in dstack.
-        if(!had_deadlock && cstack[p]._lowsource != std::numeric_limits<idx_t>::max())
-        {
-            p = cstack[p]._lowsource;
-            while (cstack[p]._lowlink != std::numeric_limits<idx_t>::max() && p != cstack[p]._lowsource) {
-                auto[parent, tid] = seen.get_history(cstack[p]._stateid);
-                assert(tid < _net.numberOfTransitions());
-                _trace.push_back({(uint32_t)tid});
-                if(tid >= std::numeric_limits<ptrie::uint>::max() - 1)
-                {
-                    had_deadlock = true;
-                    break;
-                }
-                if(cstack[p]._lowsource == std::numeric_limits<idx_t>::max())
-                    break;
-                assert(cstack[p]._lowsource != std::numeric_limits<idx_t>::max());
-                p = cstack[p]._lowsource;
+            seen.decode(parent, steps[i]._state);
+            auto info = successorGenerator.initial_suc_info();
+            successorGenerator.prepare(&parent, info);
+            while (successorGenerator.next(working, info)) {
+                auto stateid = std::get<1>(seen.add(working));
+                if (stateid != std::numeric_limits<idx_t>::max() && reached.insert(stateid).second)
+                    steps.push_back({stateid, i, (uint32_t)info.transition()});
             }
         }
-        if(!had_deadlock && _loop_trans < _net.numberOfTransitions())
-        {
-            assert(_loop_trans < _net.numberOfTransitions());
-            _trace.push_back({_loop_trans});
-        }
     }
 }
-- 
2.43.0


From 0d620a41a45156428b8cacd856c7ec19f3433abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:50 +0000
Subject: [PATCH 017/111] fix: fire agglomerated transitions the right number
 of times in traces

---
 src/PetriEngine/Reducer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 336cbfc..4f3545c 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -362,9 +362,11 @@ namespace PetriEngine {
                 for(size_t pp : pre.producers)
                 {
                     auto prefire = getTransitionName(pp);
-                    _postfire[*prefire].push_back(tname);
+                    auto times = getOutArc(parent->_transitions[pp], pPre)->weight / w;
+                    for(size_t i = 0; i < times; ++i)
+                        _postfire[*prefire].push_back(tname);
                 }
-                for(size_t i = 0; i < parent->initMarking()[pPre]; ++i)
+                for(size_t i = 0; i < parent->initMarking()[pPre] / w; ++i)
                 {
                     _initfire.push_back(tname);
                 }
@@ -543,7 +545,7 @@ namespace PetriEngine {
                         _postfire[*toutname].push_back(tinname);
                     }
 
-                    for(size_t i = 0; initm > 0 && i < initm / inArc->weight; ++i )
+                    for(size_t i = 0; i < initm; ++i )
                     {
                         _initfire.push_back(tinname);
                     }
-- 
2.43.0


From 629d9c5f77ca5ea363782f42a1ea60c794a17ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:50 +0000
Subject: [PATCH 018/111] fix: random walk traces of several queries

---
 .../Reachability/ReachabilitySearch.h         |  7 ++----
 include/PetriEngine/Structures/StateSet.h     | 25 +++++++++----------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/include/PetriEngine/Reachability/ReachabilitySearch.h b/include/PetriEngine/Reachability/ReachabilitySearch.h
index 56f4b88..b0b63d9 100644
--- a/include/PetriEngine/Reachability/ReachabilitySearch.h
+++ b/include/PetriEngine/Reachability/ReachabilitySearch.h
@@ -280,11 +280,6 @@ namespace PetriEngine {
                 }
             }
 
-            if constexpr (std::is_same_v<W, Structures::TracableRandomWalkStateSet>) {
-                // Not to be 0 in case of a printTrace call
-                _satisfyingMarking = 1;
-            }
-
             const int64_t maxDepthValue = std::numeric_limits<int64_t>::max() - incRandomWalk;
             while(true) {
                 // Start a new random walk
@@ -301,6 +296,8 @@ namespace PetriEngine {
                     if constexpr (std::is_same_v<W, Structures::TracableRandomWalkStateSet>) {
                         // Add one element to the trace. It will be modified using setHistory
                         states.addStepTrace();
+                        // In case of a printTrace call
+                        _satisfyingMarking = states.traceSize();
                     }
 
                     while(generator.next(candidate)) {
diff --git a/include/PetriEngine/Structures/StateSet.h b/include/PetriEngine/Structures/StateSet.h
index 7fb4853..682f021 100644
--- a/include/PetriEngine/Structures/StateSet.h
+++ b/include/PetriEngine/Structures/StateSet.h
@@ -21,6 +21,7 @@
 #include <ptrie/ptrie_map.h>
 #include <unordered_map>
 #include <stack>
+#include <vector>
 #include <iostream>
 
 #include "State.h"
@@ -239,7 +240,7 @@ namespace PetriEngine {
                                const std::vector<MarkVal> &initPotencies, size_t seed, int nplaces = -1)
                 : RandomWalkStateSet(net, kbound, query, initPotencies, seed, nplaces)
             {
-                _stackTrace = std::stack<size_t>();
+                _stackTrace.clear();
             }
 
             /**
@@ -248,7 +249,7 @@ namespace PetriEngine {
              * it will be set later by setHistory.
             */
             void addStepTrace() {
-                _stackTrace.push(0);
+                _stackTrace.push_back(0);
             }
 
             /**
@@ -256,26 +257,24 @@ namespace PetriEngine {
              * @param transition the id of the transition
             */
             void setHistory(size_t transition) {
-                _stackTrace.top() = transition;
+                _stackTrace.back() = transition;
             }
 
             void newWalk() {
                 // Resets the trace stack before calling the parent method
-                _stackTrace = std::stack<size_t>();
+                _stackTrace.clear();
                 RandomWalkStateSet::newWalk();
             }
 
             /**
-             * Gets the last element of the trace stack and pops it
-             * Be careful, it pops the _stackTrace, so the element is lost
-             * @return a pair (size_t, size_t) where the first element is the remaining
-             *         size of the trace and the second element is the transition id
+             * Gets a step of the trace
+             * @param markingid the number of steps leading to the marking
+             * @return a pair (size_t, size_t) where the first element is the number of
+             *         steps leading to the parent and the second element is the transition id
             */
             std::pair<size_t, size_t> getHistory(size_t markingid) override
             {
-                size_t transition = _stackTrace.top();
-                _stackTrace.pop();
-                return std::pair<size_t, size_t>(_stackTrace.size(), transition);
+                return std::pair<size_t, size_t>(markingid - 1, _stackTrace[markingid - 1]);
             }
 
             size_t traceSize() const {
@@ -287,7 +286,7 @@ namespace PetriEngine {
              * Useful to restore the previous transition when computeCandidate returns false
             */
             void savePreviousTransition() {
-                _previousTransition = _stackTrace.top();
+                _previousTransition = _stackTrace.back();
             }
 
             size_t getPreviousTransition() const {
@@ -295,7 +294,7 @@ namespace PetriEngine {
             }
 
         private:
-            std::stack<size_t> _stackTrace;
+            std::vector<size_t> _stackTrace;
             size_t _previousTransition;
         };
 
-- 
2.43.0


From caeaaf86ea5731c16a62f48d763e8c72bf7bf789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:50 +0000
Subject: [PATCH 019/111] fix: print upper bounds as integers

---
 src/PetriEngine/Reachability/ResultPrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reachability/ResultPrinter.cpp b/src/PetriEngine/Reachability/ResultPrinter.cpp
index 526d52b..c9d4bfa 100644
--- a/src/PetriEngine/Reachability/ResultPrinter.cpp
+++ b/src/PetriEngine/Reachability/ResultPrinter.cpp
@@ -102,7 +102,7 @@ namespace PetriEngine {
             }
             else if(bound)
             {
-                std::cout << ((PQL::UnfoldedUpperBoundsCondition*)bound)->bounds() << " " << techniques << printTechniques() << std::endl;
+                std::cout << static_cast<size_t>(((PQL::UnfoldedUpperBoundsCondition*)bound)->bounds()) << " " << techniques << printTechniques() << std::endl;
                 std::cout << "Query index " << index << " was solved" << std::endl;
             }
             else if (retval == Satisfied) {
-- 
2.43.0


From b6ffeafdaf46d912f43bd069b1277af85a68bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:03 +0000
Subject: [PATCH 020/111] fix: key transitions of LTL stubborn sets must not be
 disabled from outside

---
 src/LTL/Stubborn/AutomatonStubbornSet.cpp | 22 +++++++++++++---------
 src/LTL/Stubborn/SafeAutStubbornSet.cpp   | 22 ++++++++++------------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/LTL/Stubborn/AutomatonStubbornSet.cpp b/src/LTL/Stubborn/AutomatonStubbornSet.cpp
index b12dca2..827868b 100644
--- a/src/LTL/Stubborn/AutomatonStubbornSet.cpp
+++ b/src/LTL/Stubborn/AutomatonStubbornSet.cpp
@@ -222,18 +222,22 @@ namespace LTL {
         }*/
 
         // Ensure we have a key transition in accepting buchi states.
-        if (!_has_enabled_stubborn && buchi_state._is_accepting) {
-            for (uint32_t i = 0; i < _net.numberOfTransitions(); ++i) {
-                if (!_stubborn[i] && _enabled[i]) {
-                    addToStub(i);
-                    _closure();
-                    if (_bad) {
-                        set_all_stubborn();
-                        return true;
-                    }
+        if (buchi_state._is_accepting) {
+            uint32_t key = _ordering.front();
+            for (auto t : _ordering) {
+                if (_stubborn[t]) {
+                    key = t;
                     break;
                 }
             }
+            // nothing outside of the stubborn set may disable the key transition.
+            addToStub(key);
+            postPresetOf(key);
+            _closure();
+            if (_bad) {
+                set_all_stubborn();
+                return true;
+            }
         }
 
         assert(!has_shared_mark(_stubborn.get(), _retarding_stubborn_set.stubborn(), _net.numberOfTransitions()));
diff --git a/src/LTL/Stubborn/SafeAutStubbornSet.cpp b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
index 75cbcac..ac0e717 100644
--- a/src/LTL/Stubborn/SafeAutStubbornSet.cpp
+++ b/src/LTL/Stubborn/SafeAutStubbornSet.cpp
@@ -71,20 +71,18 @@ namespace LTL {
             _print_debug();
             return true;
         }
-        // accepting states need key transition. add firs   t enabled by index.
-        if (state->is_accepting() && !_has_enabled_stubborn) {
-            //set_all_stubborn();
-            //_print_debug();
-            //return true;
-            addToStub(_ordering.front());
-            closure();
-/*            for (int i = 0; i < _net.numberOfPlaces(); ++i) {
-                if (_enabled[i]) {
-                    addToStub(i);
-                    closure();
+        // accepting states need a key transition, nothing outside of the stubborn set may disable it.
+        if (state->is_accepting()) {
+            uint32_t key = _ordering.front();
+            for (auto t : _ordering) {
+                if (_stubborn[t]) {
+                    key = t;
                     break;
                 }
-            }*/
+            }
+            addToStub(key);
+            postPresetOf(key);
+            closure();
             if (_bad) {
                 set_all_stubborn();
             }
-- 
2.43.0


From a770d89887b8bfaf95129795411f49d3877ba86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:03 +0000
Subject: [PATCH 021/111] fix: refinement ranges of disjunctions must be
 intersected

---
 src/PetriEngine/TAR/RangeContext.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/TAR/RangeContext.cpp b/src/PetriEngine/TAR/RangeContext.cpp
index b6b6da4..1aca576 100644
--- a/src/PetriEngine/TAR/RangeContext.cpp
+++ b/src/PetriEngine/TAR/RangeContext.cpp
@@ -294,8 +294,8 @@ namespace PetriEngine {
             }
             else {
                 auto& added = _ranges.find_or_add(c._place);
-                added._range._lower = std::max(c._lower, pr._range._lower);
-                added._range._upper = std::min(c._upper, pr._range._upper);
+                added._range._lower = std::max(c._lower, added._range._lower);
+                added._range._upper = std::min(c._upper, added._range._upper);
                 assert(added._range._lower <= _base[c._place]);
                 assert(added._range._upper >= _base[c._place]);
                 if(_dirty[c._place])
@@ -312,7 +312,9 @@ namespace PetriEngine {
                 return;
             }
             assert(priority > 0);
-            _ranges.find_or_add(pr._place) = pr;
+            auto& added = _ranges.find_or_add(pr._place);
+            added._range._lower = std::max(pr._range._lower, added._range._lower);
+            added._range._upper = std::min(pr._range._upper, added._range._upper);
             _ranges.compact();
         }
     }
-- 
2.43.0


From 8cccbbe60ef21bd5166875487e79c0dc0abfe680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:03 +0000
Subject: [PATCH 022/111] fix: random potency search with potencies that sum to
 zero

---
 src/PetriEngine/Structures/PotencyQueue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Structures/PotencyQueue.cpp b/src/PetriEngine/Structures/PotencyQueue.cpp
index c41af49..92dd673 100644
--- a/src/PetriEngine/Structures/PotencyQueue.cpp
+++ b/src/PetriEngine/Structures/PotencyQueue.cpp
@@ -111,7 +111,7 @@ namespace PetriEngine {
                 n += _potencies[t];
                 double r = (double) rand() / RAND_MAX;
                 double threshold = _potencies[t] / (double) n;
-                if (r <= threshold)
+                if (current == SIZE_MAX || r <= threshold)
                     current = t;
             }
 
-- 
2.43.0


From 25ea910a6cf6925efe035679dbca4553e8799b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:03 +0000
Subject: [PATCH 023/111] fix: recognise every use of deadlock that is
 sensitive to agglomeration

---
 include/PetriEngine/PQL/PredicateCheckers.h |  9 +++++-
 src/PetriEngine/PQL/PredicateCheckers.cpp   | 36 +++++++++++++++++++--
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/include/PetriEngine/PQL/PredicateCheckers.h b/include/PetriEngine/PQL/PredicateCheckers.h
index 1935b10..c97a0ec 100644
--- a/include/PetriEngine/PQL/PredicateCheckers.h
+++ b/include/PetriEngine/PQL/PredicateCheckers.h
@@ -31,10 +31,17 @@ namespace PetriEngine { namespace PQL {
 
     class NestedDeadlockVisitor : public AnyVisitor {
     private:
-        bool _nested_in_logical_condition = false;
+        // the closest operator above: "eventually", its dual "always", or anything else.
+        enum { eventually, always, other } _scope = other;
+
+        void _accept(const NotCondition* condition) override;
 
         void _accept(const LogicalCondition* condition) override;
 
+        void _accept(const UntilCondition* condition) override;
+
+        void _accept(const SimpleQuantifierCondition* condition) override;
+
         void _accept(const DeadlockCondition* condition) override;
     };
 
diff --git a/src/PetriEngine/PQL/PredicateCheckers.cpp b/src/PetriEngine/PQL/PredicateCheckers.cpp
index 6531bad..2160e72 100644
--- a/src/PetriEngine/PQL/PredicateCheckers.cpp
+++ b/src/PetriEngine/PQL/PredicateCheckers.cpp
@@ -35,15 +35,45 @@ namespace PetriEngine { namespace PQL {
         return v.getReturnValue();
     }
 
+    void NestedDeadlockVisitor::_accept(const NotCondition *condition) {
+        auto scope = _scope;
+        if (scope != other)
+            _scope = scope == eventually ? always : eventually;
+        Visitor::visit(this, condition->getCond());
+        _scope = scope;
+    }
+
     void NestedDeadlockVisitor::_accept(const LogicalCondition *condition) {
-        _nested_in_logical_condition = true;
+        auto scope = _scope;
+        _scope = other;
         for (auto& c : condition->getOperands())
             Visitor::visit(this, c);
-        _nested_in_logical_condition = false;
+        _scope = scope;
+    }
+
+    void NestedDeadlockVisitor::_accept(const UntilCondition *condition) {
+        auto scope = _scope;
+        _scope = other;
+        Visitor::visit(this, condition->getCond1());
+        Visitor::visit(this, condition->getCond2());
+        _scope = scope;
+    }
+
+    void NestedDeadlockVisitor::_accept(const SimpleQuantifierCondition *condition) {
+        auto scope = _scope;
+        if (dynamic_cast<const FCondition*>(condition) || dynamic_cast<const EFCondition*>(condition) || dynamic_cast<const AFCondition*>(condition))
+            _scope = eventually;
+        else if (dynamic_cast<const GCondition*>(condition) || dynamic_cast<const EGCondition*>(condition) || dynamic_cast<const AGCondition*>(condition))
+            _scope = always;
+        else if (!dynamic_cast<const ECondition*>(condition) && !dynamic_cast<const ACondition*>(condition))
+            _scope = other;
+        Visitor::visit(this, condition->getCond());
+        _scope = scope;
     }
 
     void NestedDeadlockVisitor::_accept(const DeadlockCondition *condition) {
-        if (_nested_in_logical_condition)
+        // only "eventually deadlock" and "always not deadlock" are insensitive to hidden intermediate markings.
+        if (_scope != eventually)
             setConditionFound();
     }
 
-- 
2.43.0


From 8c11e1299aaeb6358da15950139a501b7f2a6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:21 +0000
Subject: [PATCH 024/111] fix: reduction rule D must respect inhibitor arcs

---
 src/PetriEngine/Reducer.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 4f3545c..c3200a7 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -770,6 +770,10 @@ namespace PetriEngine {
         _tflags.resize(parent->_transitions.size(), 0);
         std::fill(_tflags.begin(), _tflags.end(), 0);
         bool has_empty_trans = false;
+        // the number of tokens matters to the query or to an inhibitor arc
+        auto observed = [this, placeInQuery](uint32_t p) {
+            return placeInQuery[p] > 0 || parent->_places[p].inhib;
+        };
         for(size_t t = 0; t < parent->_transitions.size(); ++t)
         {
             auto& trans = parent->_transitions[t];
@@ -843,7 +847,7 @@ namespace PetriEngine {
                         Arc& arc = trans1.pre[i];
                         for(; j < trans2.pre.size() && trans2.pre[j].place < arc.place; ++j)
                         {
-                            pre_equal &= placeInQuery[trans2.pre[j].place] == 0;
+                            pre_equal &= !observed(trans2.pre[j].place);
                             exact = false;
                         }
 
@@ -872,15 +876,15 @@ namespace PetriEngine {
                                 exact = false;
                             }
                         }
-                        some_in_query |= placeInQuery[arc2.place] > 0;
-                        pre_equal = pre_equal && (placeInQuery[arc2.place] == 0 ||
+                        some_in_query |= observed(arc2.place);
+                        pre_equal = pre_equal && (!observed(arc2.place) ||
                                                   arc.weight == arc2.weight*mult);
                         exact &= arc.weight == arc2.weight*mult;
                         if(!pre_equal) break;
                     }
                     for(; j < trans2.pre.size(); ++j)
                     {
-                        pre_equal &= placeInQuery[trans2.pre[j].place] == 0;
+                        pre_equal &= !observed(trans2.pre[j].place);
                         exact = false;
                     }
 
@@ -896,7 +900,7 @@ namespace PetriEngine {
                         Arc& arc2 = trans2.post[i];
                         for(; j < trans1.post.size() && trans1.post[j].place < arc2.place; ++j)
                         {
-                            post_equal &= placeInQuery[trans1.post[j].place] == 0;
+                            post_equal &= !observed(trans1.post[j].place);
                             exact = false;
                         }
                         if(j >= trans1.post.size() || trans1.post[j].place != arc2.place)
@@ -909,7 +913,7 @@ namespace PetriEngine {
                             ok = 2;
                             break;
                         }
-                        post_equal = post_equal && (placeInQuery[arc2.place] == 0 ||
+                        post_equal = post_equal && (!observed(arc2.place) ||
                                                     arc.weight * mult == arc2.weight);
                         exact &= arc.weight * mult == arc2.weight;
                         if (arc2.weight > arc.weight * mult) {
@@ -921,7 +925,7 @@ namespace PetriEngine {
 
                     for(; j < trans1.post.size(); ++j)
                     {
-                        post_equal &= placeInQuery[trans1.post[j].place] == 0;
+                        post_equal &= !observed(trans1.post[j].place);
                         exact = false;
                     }
 
-- 
2.43.0


From 55f84243dfaaf57356d929e88d84083f18da0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:21 +0000
Subject: [PATCH 025/111] fix: reduction rule H must not contract visible loops
 for LTL and CTL

---
 include/PetriEngine/Reducer.h |  2 +-
 src/PetriEngine/Reducer.cpp   | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/PetriEngine/Reducer.h b/include/PetriEngine/Reducer.h
index 9ab38ea..393175c 100644
--- a/include/PetriEngine/Reducer.h
+++ b/include/PetriEngine/Reducer.h
@@ -161,7 +161,7 @@ namespace PetriEngine {
         bool ReducebyRuleF(uint32_t* placeInQuery);
         bool ReducebyRuleFNO(uint32_t* placeInQuery);
         bool ReducebyRuleG(uint32_t* placeInQuery, bool remove_loops, bool remove_consumers);
-        bool ReducebyRuleH(uint32_t* placeInQuery, bool all_ltl);
+        bool ReducebyRuleH(uint32_t* placeInQuery, bool all_reach, bool all_ltl);
         bool ReducebyRuleJ(uint32_t* placeInQuery);
         bool ReducebyRuleK(uint32_t* placeInQuery, bool remove_consumers);
         bool ReducebyRuleL(uint32_t* placeInQuery);
diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index c3200a7..ed4fda7 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -1323,7 +1323,7 @@ namespace PetriEngine {
         return continueReductions;
     }
 
-    bool Reducer::ReducebyRuleH(uint32_t* placeInQuery, bool all_ltl)
+    bool Reducer::ReducebyRuleH(uint32_t* placeInQuery, bool all_reach, bool all_ltl)
     {
         if(reconstructTrace)
             return false; // we don't know where in the loop the tokens are needed
@@ -1360,7 +1360,7 @@ namespace PetriEngine {
             return 1;
         };
 
-        auto removeLoop = [this,placeInQuery,all_ltl](std::vector<uint32_t>& loop) -> bool {
+        auto removeLoop = [this,placeInQuery,all_reach,all_ltl](std::vector<uint32_t>& loop) -> bool {
             size_t i = 0;
             for(; i < loop.size(); ++i)
                 if(loop[i] == loop.back())
@@ -1370,6 +1370,14 @@ namespace PetriEngine {
             if(i == loop.size() - 1)
                 return false;
 
+            if(!all_reach)
+            {
+                // moving a token around the loop must be invisible
+                for(size_t j = i; j < loop.size(); ++j)
+                    if(placeInQuery[parent->_transitions[loop[j]].pre[0].place] > 0)
+                        return false;
+            }
+
             auto p1 = parent->_transitions[loop[i]].pre[0].place;
             bool removed = false;
 
@@ -2864,7 +2872,7 @@ namespace PetriEngine {
                 {
                     while(ReducebyRuleA(context.getQueryPlaceCount())) changed = true;
                     while(ReducebyRuleD(context.getQueryPlaceCount(), all_reach, false)) changed = true;
-                    while(ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                    while(ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                 }
             }
         }
@@ -2901,7 +2909,7 @@ restart:
                 if(!contains_next && !changed)
                 {
                     // Only try RuleH last. It can reduce applicability of other rules.
-                    while (ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                    while (ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                     while (ReducebyRuleS(context.getQueryPlaceCount(), all_reach, remove_loops, all_reach, explosion_limiter)) changed = true;
                     if(all_ltl && !changed) // ruleR is a last resort
                         changed = ReducebyRuleR(context.getQueryPlaceCount(), explosion_limiter);
@@ -2975,7 +2983,7 @@ restart:
                             while(ReducebyRuleG(context.getQueryPlaceCount(), remove_loops, all_reach)) changed = true;
                             break;
                         case 7:
-                            while(ReducebyRuleH(context.getQueryPlaceCount(), all_ltl)) changed = true;
+                            while(ReducebyRuleH(context.getQueryPlaceCount(), all_reach, all_ltl)) changed = true;
                             break;
                         case 8:
                             while(ReducebyRuleI(context.getQueryPlaceCount(), all_reach)) changed = true;
-- 
2.43.0


From da5960a9c9ca0a8ff6b21f530c0c6ed88209bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:47 +0000
Subject: [PATCH 026/111] fix: reduction rule R must keep the inhibitor mark of
 merged transitions

---
 src/PetriEngine/Reducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index ed4fda7..7bc1f1c 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2509,7 +2509,7 @@ namespace PetriEngine {
                     ++n_new_trans;
                     Transition& newtran = parent->_transitions[id];
                     newtran.skip = false;
-                    newtran.inhib = false;
+                    newtran.inhib = prod.inhib;
 
                     // Arcs from consumer
                     Transition& cons = parent->_transitions[con_id];
-- 
2.43.0


From 615284393594d1fbd426469db051d33756748f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:47 +0000
Subject: [PATCH 027/111] fix: a merged linear program may become impossible
 after an earlier solver failure

---
 src/PetriEngine/Simplification/LinearPrograms.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/Simplification/LinearPrograms.cpp b/src/PetriEngine/Simplification/LinearPrograms.cpp
index b4994f9..b078931 100644
--- a/src/PetriEngine/Simplification/LinearPrograms.cpp
+++ b/src/PetriEngine/Simplification/LinearPrograms.cpp
@@ -207,7 +207,7 @@ namespace PetriEngine {
                 if (context.timeout())
                 {
                     _result = POSSIBLE;
-                    break;
+                    return;
                 }
 
                 LinearProgram prog;
@@ -224,13 +224,13 @@ namespace PetriEngine {
                         !prog.isImpossible(context, solvetime))
                     {
                         _result = POSSIBLE;
-                        break;
+                        return;
                     }
                 }
                 ++nsat;
             } while (hasmore);
-            if (_result != POSSIBLE)
-                _result = IMPOSSIBLE;
+            // every combination is impossible, also if an earlier attempt had to give up
+            _result = IMPOSSIBLE;
         }
 
         uint32_t MergeCollection::explorePotencyImpl(const PQL::SimplificationContext& context,
-- 
2.43.0


From 34fbd40a3eee24f20c78519d060d9182ce23aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:02 +0000
Subject: [PATCH 028/111] fix: do not cancel common factors that may be zero in
 comparisons

---
 src/PetriEngine/PQL/PushNegation.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/PetriEngine/PQL/PushNegation.cpp b/src/PetriEngine/PQL/PushNegation.cpp
index 197a4e0..9653bf4 100644
--- a/src/PetriEngine/PQL/PushNegation.cpp
+++ b/src/PetriEngine/PQL/PushNegation.cpp
@@ -94,9 +94,7 @@ namespace PetriEngine { namespace PQL {
             if(auto p2 = std::dynamic_pointer_cast<PlusExpr>(_expr2))
                 remdup(p1, p2);
 
-        if(auto m1 = std::dynamic_pointer_cast<MultiplyExpr>(_expr1))
-            if(auto m2 = std::dynamic_pointer_cast<MultiplyExpr>(_expr2))
-                remdup(m1, m2);
+        // common factors of two products must stay: they may be zero
 
         if(auto p1 = std::dynamic_pointer_cast<CommutativeExpr>(_expr1))
             if(auto p2 = std::dynamic_pointer_cast<CommutativeExpr>(_expr2))
-- 
2.43.0


From 15efdfb690a0157879f149acbe2c679772b25f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:33 +0000
Subject: [PATCH 029/111] fix: reduction rule B must keep the initial tokens it
 does not move

---
 src/PetriEngine/Reducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 7bc1f1c..07d786c 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -552,7 +552,8 @@ namespace PetriEngine {
                 }
 
                  // UB1. Remove place p
-                parent->initialMarking[p] = 0;
+                 // the tokens that remain count as long as p has other producers
+                parent->initialMarking[p] -= initm * inArc->weight;
                 // We need to remember that when tOut fires, tIn fires just after.
                 // this should fix the trace
 
-- 
2.43.0


From b9d10d7983d058e56643903469e764281d474bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:42 +0000
Subject: [PATCH 030/111] fix: loop sensitivity must track negation per
 sub-formula

---
 src/PetriEngine/PQL/PredicateCheckers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PetriEngine/PQL/PredicateCheckers.cpp b/src/PetriEngine/PQL/PredicateCheckers.cpp
index 2160e72..b3e6ddb 100644
--- a/src/PetriEngine/PQL/PredicateCheckers.cpp
+++ b/src/PetriEngine/PQL/PredicateCheckers.cpp
@@ -313,12 +313,14 @@ namespace PetriEngine { namespace PQL {
     {
         _negated = !_negated;
         AnyVisitor::_accept(condition);
+        _negated = !_negated;
     }
 
     void IsLoopSensitiveVisitor::_accept(const NotCondition *condition)
     {
         _negated = !_negated;
         AnyVisitor::_accept(condition);
+        _negated = !_negated;
     }
 
     void IsLoopSensitiveVisitor::_accept(const UntilCondition *condition)
-- 
2.43.0


From 913b7b06453f70a303c284efb4fc44aa8d8bc9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:42 +0000
Subject: [PATCH 031/111] fix: a merged transition must not fire what was
 merged into it later

---
 include/PetriEngine/Reducer.h | 13 ++++++++--
 src/PetriEngine/Reducer.cpp   | 47 +++++++++++++++++++----------------
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/include/PetriEngine/Reducer.h b/include/PetriEngine/Reducer.h
index 393175c..81ad9c7 100644
--- a/include/PetriEngine/Reducer.h
+++ b/include/PetriEngine/Reducer.h
@@ -200,8 +200,17 @@ namespace PetriEngine {
             return (diff.count() >= timeout);
         }
 
-        std::vector<shared_const_string> _initfire;
-        std::unordered_map<std::string, std::vector<shared_const_string>> _postfire;
+        // A transition fired on behalf of another one, followed by the first n_post
+        // transitions of its own _postfire: those merged into it when this was recorded.
+        struct MergedFiring {
+            shared_const_string name;
+            size_t n_post;
+        };
+        MergedFiring mergedFiring(const shared_const_string& transition) const;
+        void printFirings(std::ostream& out, const std::vector<MergedFiring>& firings, size_t n) const;
+
+        std::vector<MergedFiring> _initfire;
+        std::unordered_map<std::string, std::vector<MergedFiring>> _postfire;
         // _transitionsBeforeReduction[transitionName] = { {placeName, weight}, ... }
         // Associate a transition with the vector of pre-places and their weights
         std::unordered_map<std::string, std::vector<ExpandedArc>> _transitionsBeforeReduction;
diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 07d786c..6dddf17 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -364,11 +364,11 @@ namespace PetriEngine {
                     auto prefire = getTransitionName(pp);
                     auto times = getOutArc(parent->_transitions[pp], pPre)->weight / w;
                     for(size_t i = 0; i < times; ++i)
-                        _postfire[*prefire].push_back(tname);
+                        _postfire[*prefire].push_back(mergedFiring(tname));
                 }
                 for(size_t i = 0; i < parent->initMarking()[pPre] / w; ++i)
                 {
-                    _initfire.push_back(tname);
+                    _initfire.push_back(mergedFiring(tname));
                 }
             }
 
@@ -542,12 +542,12 @@ namespace PetriEngine {
                     auto tinname  = getTransitionName(tIn);
                     for(size_t i = 0; i < multiplier; ++i)
                     {
-                        _postfire[*toutname].push_back(tinname);
+                        _postfire[*toutname].push_back(mergedFiring(tinname));
                     }
 
                     for(size_t i = 0; i < initm; ++i )
                     {
-                        _initfire.push_back(tinname);
+                        _initfire.push_back(mergedFiring(tinname));
                     }
                 }
 
@@ -2389,7 +2389,7 @@ namespace PetriEngine {
             if(reconstructTrace)
             {
                 for(size_t i = 0; i < k; ++i)
-                    _initfire.emplace_back(getTransitionName(t));
+                    _initfire.push_back(mergedFiring(getTransitionName(t)));
             }
 
             _ruleQ++;
@@ -3045,30 +3045,35 @@ restart:
         }
     }
 
+    Reducer::MergedFiring Reducer::mergedFiring(const shared_const_string& transition) const
+    {
+        auto it = _postfire.find(*transition);
+        return MergedFiring{transition, it == std::end(_postfire) ? 0 : it->second.size()};
+    }
+
+    void Reducer::printFirings(std::ostream& out, const std::vector<MergedFiring>& firings, size_t n) const
+    {
+        for (size_t i = 0; i < n; ++i)
+        {
+            const auto& el = firings[i];
+            out << "\t<transition id=\"" << *el.name << "\">\n";
+            tokenConsumption(out, *el.name);
+            out << "\t</transition>\n";
+            if (el.n_post > 0)
+                printFirings(out, _postfire.at(*el.name), el.n_post);
+        }
+    }
+
     void Reducer::postFire(std::ostream& out, const std::string& transition) const
     {
         auto it = _postfire.find(transition);
         if (it != std::end(_postfire))
-        {
-            for (const auto& el : it->second)
-            {
-                out << "\t<transition id=\"" << *el << "\">\n";
-                tokenConsumption(out, *el);
-                out << "\t</transition>\n";
-                postFire(out, *el);
-            }
-        }
+            printFirings(out, it->second, it->second.size());
     }
 
     void Reducer::initFire(std::ostream& out) const
     {
-        for (const auto& init : _initfire)
-        {
-            out << "\t<transition id=\"" << *init << "\">\n";
-            tokenConsumption(out, *init);
-            out << "\t</transition>\n";
-            postFire(out, *init);
-        }
+        printFirings(out, _initfire, _initfire.size());
     }
 
     void Reducer::tokenConsumption(std::ostream& out, const std::string& transition) const
-- 
2.43.0


From 19e26b20396195040ba0ef8bcb020608502cc228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:40 +0000
Subject: [PATCH 032/111] fix: preemptive firing in coloured reduction only
 moves tokens the transition can take away

The rule treated the input expression as accepting every colour, and lost the tokens when the transition returns them to the same place.
---
 .../Reduction/RedRulePreemptiveFiring.cpp     | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
index c353782..19abf09 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreemptiveFiring.cpp
@@ -59,6 +59,23 @@ namespace PetriEngine::Colored::Reduction {
         return continueReductions;
     }
 
+    // Some binding moves a token, whatever its color: n'(dot), n'(x) or n'(x, y, ...) with distinct variables.
+    static bool accepts_any_color(const ArcExpression& expr) {
+        auto number = dynamic_cast<const NumberOfExpression*>(&expr);
+        if (number == nullptr || number->size() != 1) return false;
+        const ColorExpression& color = *number->back();
+        if (dynamic_cast<const DotConstantExpression*>(&color) || dynamic_cast<const VariableExpression*>(&color))
+            return true;
+        auto tuple = dynamic_cast<const TupleExpression*>(&color);
+        if (tuple == nullptr) return false;
+        std::set<const Variable*> seen;
+        for (const auto& element : *tuple) {
+            auto var = dynamic_cast<const VariableExpression*>(element.get());
+            if (var == nullptr || !seen.insert(var->variable()).second) return false;
+        }
+        return true;
+    }
+
     bool RedRulePreemptiveFiring::t_is_viable(ColoredReducer &red, const PetriEngine::PQL::ColoredUseVisitor &inQuery,
                                               uint32_t t, uint32_t p) {
         //fireability consistency check
@@ -77,6 +94,7 @@ namespace PetriEngine::Colored::Reduction {
         // We must be able to move all the tokens
         auto &place = red.places()[p];
         const auto &in = red.getInArc(p, transition);
+        if (!accepts_any_color(*in->expr)) return false;
         uint32_t inWeight = red.getInArc(p, transition)->expr->weight();
         if (!place._pre.empty() && inWeight != 1) return false;
         if (place.marking.distinctSize() > 1 && inWeight != 1) return false;
@@ -84,6 +102,8 @@ namespace PetriEngine::Colored::Reduction {
 
         // Post set cannot inhibit or be in query
         for (auto &out: transition.output_arcs) {
+            // The tokens must leave the place
+            if (out.place == p) return false;
             auto &outPlace = red.places()[out.place];
             if (inQuery.isPlaceUsed(out.place) || outPlace.inhibitor) {
                 return false;
-- 
2.43.0


From b47894e75482af439af1d8f399852e8c4f3db8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:40 +0000
Subject: [PATCH 033/111] fix: parse the all-expression of a product sort

---
 src/PetriParse/PNMLParser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index bc00dd6..7691529 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -520,6 +520,15 @@ std::vector<ColorExpression_ptr> PNMLParser::parseColorExpression(rapidxml::xml_
     } else if (strcmp(element->name(), "all") == 0) {
         auto* sort = parseUserSort(element);
         std::vector<ColorExpression_ptr> colors;
+        if (sort->isProduct()) {
+            for (size_t i = 0; i < sort->size(); ++i) {
+                std::vector<ColorExpression_ptr> constituents;
+                for (auto* c : (*sort)[i].getTupleColors())
+                    constituents.emplace_back(std::make_shared<UserOperatorExpression>(c));
+                colors.emplace_back(std::make_shared<TupleExpression>(std::move(constituents), sort));
+            }
+            return colors;
+        }
         for(auto& c : *sort)
             colors.emplace_back(std::make_shared<UserOperatorExpression>(&c));
         return colors;
-- 
2.43.0


From 40b26cae1167694a4c8f927da5dbc026c2589511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:40 +0000
Subject: [PATCH 034/111] fix: parse nested negation in guards

---
 src/PetriParse/PNMLParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index 7691529..d5d2e20 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -380,7 +380,7 @@ void PNMLParser::collectColorsInTuple(rapidxml::xml_node<>* element, std::vector
 
 GuardExpression_ptr PNMLParser::parseGuardExpression(rapidxml::xml_node<>* element, bool notFlag) {
     if (strcmp(element->name(), "not") == 0) {
-        return parseGuardExpression(element->first_node(), true);
+        return parseGuardExpression(element->first_node(), !notFlag);
     }
     else if (strcmp(element->name(), "subterm") == 0 || strcmp(element->name(), "structure") == 0) {
         return parseGuardExpression(element->first_node(), notFlag);
-- 
2.43.0


From 9afc0e797f246839550291646ab8f6ba16c676ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:40 +0000
Subject: [PATCH 035/111] fix: parse every conjunct of a guard

---
 src/PetriParse/PNMLParser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index d5d2e20..0b40c58 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -390,9 +390,17 @@ GuardExpression_ptr PNMLParser::parseGuardExpression(rapidxml::xml_node<>* eleme
         if (right == nullptr)
             return parseGuardExpression(left, notFlag);
         if (notFlag) {
-            return std::make_shared<OrExpression>(parseGuardExpression(left, true), parseGuardExpression(right, true));
+            auto parentOr = std::make_shared<OrExpression>(parseGuardExpression(left, true), parseGuardExpression(right, true));
+            for (auto it = right->next_sibling(); it; it = it->next_sibling()) {
+                parentOr = std::make_shared<OrExpression>(parentOr, parseGuardExpression(it, true));
+            }
+            return parentOr;
         } else {
-            return std::make_shared<AndExpression>(parseGuardExpression(left, false), parseGuardExpression(right, false));
+            auto parentAnd = std::make_shared<AndExpression>(parseGuardExpression(left, false), parseGuardExpression(right, false));
+            for (auto it = right->next_sibling(); it; it = it->next_sibling()) {
+                parentAnd = std::make_shared<AndExpression>(parentAnd, parseGuardExpression(it, false));
+            }
+            return parentAnd;
         }
     } else if (strcmp(element->name(), "or") == 0) {
         auto left = element->first_node();
-- 
2.43.0


From 743792e5e3cdeae51b308c05f9b6a5c14774679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:26 +0000
Subject: [PATCH 036/111] fix: the sum place of an inhibitor is not part of the
 coloured place

The sum place counts every token of the coloured place. Registering it as
one of the unfolded places counts these tokens twice in queries when the
place is unfolded later on. A place that is never unfolded gets its orphan
place.
---
 src/PetriEngine/Colored/Unfolder.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/PetriEngine/Colored/Unfolder.cpp b/src/PetriEngine/Colored/Unfolder.cpp
index 09e3f70..897019d 100644
--- a/src/PetriEngine/Colored/Unfolder.cpp
+++ b/src/PetriEngine/Colored/Unfolder.cpp
@@ -201,9 +201,6 @@ namespace PetriEngine {
                         const PetriEngine::Colored::Place& place = _builder.places()[inhibArc.place];
                         auto sumPlaceName = std::make_shared<const_string>(*place.name + "Sum");
                         ptBuilder.addPlace(sumPlaceName, place.marking.size(), place._x + 30, place._y - 30);
-                        if (_ptplacenames.count(place.name) <= 0) {
-                            _ptplacenames[place.name][place.type->size()] = sumPlaceName;
-                        }
                         placeName = _sumPlacesNames[inhibArc.place] = std::move(sumPlaceName);
                     }
                     ptBuilder.addInputArc(placeName, newname, true, inhibArc.inhib_weight);
-- 
2.43.0


From 28fa2e69f3057db645d00fcd1d26349bed5470b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:27 +0000
Subject: [PATCH 037/111] fix: register a transition without bindings also in
 the naive unfolding

---
 src/PetriEngine/Colored/Unfolder.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/PetriEngine/Colored/Unfolder.cpp b/src/PetriEngine/Colored/Unfolder.cpp
index 897019d..1111277 100644
--- a/src/PetriEngine/Colored/Unfolder.cpp
+++ b/src/PetriEngine/Colored/Unfolder.cpp
@@ -139,19 +139,18 @@ namespace PetriEngine {
             double offset = 0;
             const Colored::Transition &transition = _builder.transitions()[transitionId];
             if (transition.skipped) return;
+            _pttransitionnames[transition.name]; // queries can refer to a transition without bindings
             if (_fixed_point.computed() || _partition.computed()) {
                 assert(_fixed_point.variable_map().size() > transitionId);
                 assert(_symmetry.symmetries().size() > transitionId);
                 FixpointBindingGenerator gen(transition, _builder.colors(), _symmetry.symmetries()[transitionId],
                     _fixed_point.variable_map()[transitionId]);
                 size_t i = 0;
-                bool hasBindings = false;
                 for (const auto &b : gen) {
                     auto name = std::make_shared<const_string>(*transition.name + "_" + std::to_string(i++));
 
                     storeBinding(name, b);
-                   
-                    hasBindings = true;
+
                     ptBuilder.addTransition(name, transition._player, transition._x, transition._y + offset);
                     offset += 15;
 
@@ -165,9 +164,6 @@ namespace PetriEngine {
                     _pttransitionnames[transition.name].push_back(name);
                     unfoldInhibitorArc(ptBuilder, transition.name, name);
                 }
-                if (!hasBindings) {
-                    _pttransitionnames[transition.name] = std::vector<shared_const_string>();
-                }
             } else {
                 NaiveBindingGenerator gen(transition, _builder.colors());
                 size_t i = 0;
-- 
2.43.0


From 36d33d5a2dc1440e76321748e6a621d013d1d20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:56 +0000
Subject: [PATCH 038/111] fix: do not restrict a shifted variable by the bound
 on its successor or predecessor

---
 src/PetriEngine/Colored/GuardRestrictor.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 06954fa..9d49f94 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -315,6 +315,20 @@ namespace PetriEngine{
                             std::set<const Colored::Variable*> &diagonalVars,
                             bool lessthan, bool strict) {
 
+            //The successor and predecessor wrap around, so the bound on a shifted variable is not a
+            //bound on the variable itself: leave the intervals to the evaluation of the guard
+            for(const auto *varModifierMap : {&varModifierMapL, &varModifierMapR}){
+                for(const auto &varModifiers : *varModifierMap){
+                    for(const auto &modifier : varModifiers.second.back()){
+                        if(modifier.second != 0){
+                            for(const auto &varPositionPair : varPositionsL) diagonalVars.insert(varPositionPair.second);
+                            for(const auto &varPositionPair : varPositionsR) diagonalVars.insert(varPositionPair.second);
+                            return;
+                        }
+                    }
+                }
+            }
+
             for(const auto &varPositionPair : varPositionsL){
                 uint32_t index = varPositionPair.first;
                 if(varPositionsR.count(index) > 0){
-- 
2.43.0


From d470844433adccdc69522bc2374acbcd4f53489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:53 +0000
Subject: [PATCH 039/111] fix: dead transitions in coloured reduction removes a
 place only when every consumer is dead

---
 src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp b/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp
index 3151304..1feed28 100644
--- a/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRuleDeadTransitions.cpp
@@ -88,7 +88,7 @@ namespace PetriEngine::Colored::Reduction {
 
             if (!ok || notenabled.empty()) continue;
 
-            bool skipplace = (notenabled.size() == place._pre.size() && !inQuery.isPlaceUsed(p));
+            bool skipplace = (notenabled.size() == place._post.size() && !inQuery.isPlaceUsed(p));
 
             for (uint32_t cons: notenabled) {
                 if (inQuery.isTransitionUsed(cons))
-- 
2.43.0


From 9e12b22cb5eafcfdf4279920d2951e263575693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:53 +0000
Subject: [PATCH 040/111] fix: reconsider a transition with input variables
 when new colours reach its places

---
 src/PetriEngine/Colored/ForwardFixedPoint.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Colored/ForwardFixedPoint.cpp b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
index 28af9b4..7ff489d 100644
--- a/src/PetriEngine/Colored/ForwardFixedPoint.cpp
+++ b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
@@ -364,10 +364,14 @@ namespace PetriEngine {
                     }
                 }
             }
-            //If there are no variables among the out arcs of a transition
+            //If there are no variables among the arcs of a transition
             // and it has been activated, there is no reason to cosider it again
             if (!transitionHasVarOutArcs) {
-                _considered[transition_id] = true;
+                std::set<const Colored::Variable *> variables;
+                for (const auto& arc : transition.input_arcs) {
+                    Colored::VariableVisitor::get_variables(*arc.expr, variables);
+                }
+                _considered[transition_id] = variables.empty();
             }
         }
     }
-- 
2.43.0


From 81c90f38410bd3e7e5be54988ba982050b2e6e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:22 +0000
Subject: [PATCH 041/111] fix: coloured pre-agglomeration only merges arcs that
 hold variables

Constants, successors and predecessors on the two arcs were ignored when the
transitions were merged, so that tokens of different colours were matched.
---
 .../Reduction/RedRulePreAgglomeration.cpp     | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
index 65ad333..77708b7 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
@@ -12,6 +12,28 @@
 #include "PetriEngine/Colored/VariableVisitor.h"
 
 namespace PetriEngine::Colored::Reduction {
+    // The colors of the two arcs are unified by renaming variables,
+    // so each arc has to hold one variable or one tuple of variables
+    static bool isSingleVariable(const ArcExpression &expr) {
+        if (auto* scalar = dynamic_cast<const ScalarProductExpression*>(&expr))
+            return isSingleVariable(*scalar->child());
+        if (auto* add = dynamic_cast<const AddExpression*>(&expr))
+            return add->size() == 1 && isSingleVariable(*(*add)[0]);
+        auto* number = dynamic_cast<const NumberOfExpression*>(&expr);
+        if (number == nullptr || number->size() != 1)
+            return false;
+        const ColorExpression* color = (*number)[0].get();
+        if (auto* tuple = dynamic_cast<const TupleExpression*>(color)) {
+            for (const auto& element : *tuple) {
+                if (dynamic_cast<const VariableExpression*>(element.get()) == nullptr)
+                    return false;
+            }
+            return true;
+        }
+        return dynamic_cast<const VariableExpression*>(color) != nullptr ||
+               dynamic_cast<const DotConstantExpression*>(color) != nullptr;
+    }
+
     bool RedRulePreAgglomeration::isApplicable(QueryType queryType, bool preserveLoops, bool preserveStutter) const {
         return queryType != CTL && !preserveStutter;
     }
@@ -111,7 +133,7 @@ namespace PetriEngine::Colored::Reduction {
                     uint32_t kw;
 
                     // T9, S6
-                    if(prodArc->expr->is_single_color()){
+                    if(isSingleVariable(*prodArc->expr)){
                         kw = prodArc->expr->weight();
                     } else {
                         ok = false;
@@ -133,13 +155,13 @@ namespace PetriEngine::Colored::Reduction {
 
                         // (T9, S6), S10, T10, T12
                         if (atomic_viable){
-                            if (!consArc->expr->is_single_color() || kw % w != 0) {
+                            if (!isSingleVariable(*consArc->expr) || kw % w != 0) {
                                 todo[n] = false;
                                 todoAllGood = false;
                             } else if (kw != w) {
                                 kIsAlwaysOne[n] = false;
                             }
-                        } else if (!consArc->expr->is_single_color() || kw != w) {
+                        } else if (!isSingleVariable(*consArc->expr) || kw != w) {
                             ok = false;
                             break;
                         }
-- 
2.43.0


From 413e25dcb0d0ec495dd6a31ae08e9e902d689713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:12 +0000
Subject: [PATCH 042/111] fix: do not restrict a variable that a guard compares
 to itself

---
 src/PetriEngine/Colored/GuardRestrictor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 9d49f94..274785b 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -253,6 +253,9 @@ namespace PetriEngine{
             diagonalVars.insert(var);
             diagonalVars.insert(varPositionsR.find(index)->second);
 
+            //Comparing a variable to itself (or its successors) does not depend on its intervals
+            if(var == varPositionsR.find(index)->second) return;
+
             for(auto& varMap : variableMap){
                 auto leftTupleIntervalVal = varMap.find(var)->second;
                 auto rightTupleIntervalVal = varMap.find(varPositionsR.find(index)->second)->second;
@@ -396,6 +399,7 @@ namespace PetriEngine{
                 for(const auto &varPosL : varPositionsL){
                     //Check if we are comparing varibles in this position
                     if(varPositionsR.find(varPosL.first) != varPositionsR.end()){
+                        if(varPosL.second == varPositionsR.find(varPosL.first)->second) continue;
                         handleInequalityVars(variableMapCopy, variableMap, varPosL.second, varPositionsR.find(varPosL.first)->second, i);
                     } else {
                         handleInequalityConstants(variableMapCopy, variableMap, varPosL.second, i);
-- 
2.43.0


From 435cfdf69285edabbfb378c2270f33e354fbf6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:43 +0000
Subject: [PATCH 043/111] fix: keep the modifiers of a variable aligned with
 the addends of its arc

Variables that first occur after a constant addend, or only on the right side
of a subtraction, got their intervals from another addend (or none).
---
 include/PetriEngine/Colored/VariableVisitor.h | 84 +++----------------
 src/PetriEngine/Colored/IntervalGenerator.cpp |  8 +-
 2 files changed, 17 insertions(+), 75 deletions(-)

diff --git a/include/PetriEngine/Colored/VariableVisitor.h b/include/PetriEngine/Colored/VariableVisitor.h
index ec4047c..7615d45 100644
--- a/include/PetriEngine/Colored/VariableVisitor.h
+++ b/include/PetriEngine/Colored/VariableVisitor.h
@@ -40,6 +40,7 @@ namespace PetriEngine {
         class VariableVisitor : public ColorExpressionVisitor {
             uint32_t _index = 0;
             uint32_t _tupleIndex = 0;
+            uint32_t _addend = 0; // the entry of the modifiers which belongs to the current addend
             std::set<const Colored::Variable*>& _variables;
             std::unordered_map<uint32_t, std::vector<const Colored::ColorExpression*>>& _tuples;
             PositionVariableMap& _varPositions;
@@ -65,23 +66,9 @@ namespace PetriEngine {
                 if(_tupleIndex > 0){
                     _tuples[_tupleIndex].emplace_back(e);
                 }
-                if(_varModifiers.count(e->variable()) == 0){
-                    std::vector<std::unordered_map<uint32_t, int32_t>> newVec;
-
-                    for(auto pair : _varModifiers){
-                        for(uint32_t i = 0; i < pair.second.size()-1; i++){
-                            std::unordered_map<uint32_t, int32_t> emptyMap;
-                            newVec.push_back(emptyMap);
-                        }
-                        break;
-                    }
-                    std::unordered_map<uint32_t, int32_t> newMap;
-                    newMap[_index] = 0;
-                    newVec.push_back(newMap);
-                    _varModifiers[e->variable()] = newVec;
-                } else {
-                    _varModifiers[e->variable()].back()[_index] = 0;
-                }
+                auto& modifiers = _varModifiers[e->variable()];
+                modifiers.resize(_addend + 1);
+                modifiers.back()[_index] = 0;
             }
 
             virtual void accept(const UserOperatorExpression* e)
@@ -101,6 +88,7 @@ namespace PetriEngine {
                 auto indexBefore = _index;
                 e->child()->visit(*this);
                 for(auto& varModifierPair : _varModifiers){
+                    if(varModifierPair.second.size() != _addend + 1) continue;
                     for(auto& idModPair : varModifierPair.second.back()){
                         if(idModPair.first <= _index && idModPair.first >= indexBefore){
                             --idModPair.second;
@@ -119,6 +107,7 @@ namespace PetriEngine {
                 auto indexBefore = _index;
                 e->child()->visit(*this);
                 for(auto& varModifierPair : _varModifiers){
+                    if(varModifierPair.second.size() != _addend + 1) continue;
                     for(auto& idModPair : varModifierPair.second.back()){
                         if(idModPair.first <= _index && idModPair.first >= indexBefore){
                             ++idModPair.second;
@@ -207,48 +196,24 @@ namespace PetriEngine {
 
             virtual void accept(const AddExpression* add)
             {
+                bool first = true;
                 for (const auto& elem : *add) {
-                    for (auto& pair : _varModifiers) {
-                        pair.second.emplace_back();
-                    }
-                    
+                    if (!first) ++_addend;
+                    first = false;
                     _index = 0;
                     elem->visit(*this);
                 }
-
-                if (add->back()->is_number_of()) {
-                    const auto& numberOfExpr = std::static_pointer_cast<const NumberOfExpression>(add->back());
-                    if (is_last_variable_expr(*numberOfExpr->back())) {
-                        for (auto& pair : _varModifiers) {
-                            pair.second.emplace_back();
-                        }
-                    }
-                }
             }
 
             virtual void accept(const SubtractExpression* sub)
             {
-                for (auto& pair : _varModifiers) {
-                    pair.second.emplace_back();
-                }
                 _index = 0;
                 (*sub)[0]->visit(*this);
                 //We ignore the restrictions imposed by the subtraction for now
                 if(_include_subtracts){
-                    for (auto& pair : _varModifiers) {
-                        pair.second.emplace_back();
-                    }
+                    ++_addend;
                     _index = 0;
                     (*sub)[1]->visit(*this);
-
-                    if ((*sub)[1]->is_number_of()) {
-                        const auto& numberOfExpr = std::static_pointer_cast<const NumberOfExpression>((*sub)[1]);
-                        if (is_last_variable_expr(*numberOfExpr->back())) {
-                            for (auto& pair : _varModifiers) {
-                                pair.second.emplace_back();
-                            }
-                        }
-                    }
                 }
             }
 
@@ -261,6 +226,9 @@ namespace PetriEngine {
             static inline void get_variables(Expression& e, std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions, VariableModifierMap& varModifierMap, std::unordered_map<uint32_t, std::vector<const Colored::ColorExpression*>>& tuples, bool includeSubtracts) {
                 VariableVisitor v(variables, varPositions, varModifierMap, tuples, includeSubtracts);
                 e.visit(v);
+                for (auto& pair : varModifierMap) {
+                    pair.second.resize(v._addend + 1);
+                }
             }
 
             static inline void get_variables(Expression& e, std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions, VariableModifierMap& varModifierMap, bool includeSubtracts) {
@@ -288,32 +256,6 @@ namespace PetriEngine {
 
                 get_variables(e, variables, varPositions, varModifierMap, tuples, true);
             }
-
-        private:
-            bool is_last_variable_expr(const ColorExpression& expr) const {
-                std::stack<const ColorExpression*> stack;
-                stack.push(&expr);
-
-                while (!stack.empty()) {
-                    const auto* currentExpr = stack.top();
-                    stack.pop();
-
-                    if (currentExpr->is_variable()) {
-                        return true;
-                    } else if (currentExpr->is_predecessor()) {
-                        stack.push(static_cast<const PredecessorExpression*>(currentExpr)->child().get());
-                    } else if (currentExpr->is_successor()) {
-                        stack.push(static_cast<const SuccessorExpression*>(currentExpr)->child().get());
-                    } else if (currentExpr->is_tuple()) {
-                        const auto* tupleExpr = static_cast<const TupleExpression*>(currentExpr);
-                        for (const auto& tupleElem : *tupleExpr) {
-                            stack.push(tupleElem.get());
-                        }
-                    }
-                }
-
-                return false;
-            }
         };
     }
 }
diff --git a/src/PetriEngine/Colored/IntervalGenerator.cpp b/src/PetriEngine/Colored/IntervalGenerator.cpp
index 9c7cf86..75abffc 100644
--- a/src/PetriEngine/Colored/IntervalGenerator.cpp
+++ b/src/PetriEngine/Colored/IntervalGenerator.cpp
@@ -93,8 +93,8 @@ namespace PetriEngine {
 
                 getArcVarIntervals(varIntervals, pair.second[tuplePos], interval, varColorTypes);
 
-                if (arcIntervals._intervalTupleVec.size() > 1 && pair.second[tuplePos].empty()) {
-                    //The variable is not on this side of the add expression, so we add a full interval to compare against for the other side
+                if (pair.second[tuplePos].empty()) {
+                    //The variable is not on this side of the add (or subtract) expression, so we add a full interval to compare against for the other side
                     varIntervals.addInterval(pair.first->colorType->getFullInterval());
                 }
 
@@ -136,8 +136,8 @@ namespace PetriEngine {
                     assert(pair.second.size() > tuplePos);
                     getArcVarIntervals(varIntervals, pair.second[tuplePos], interval, varColorTypes);
 
-                    if(arcIntervals._intervalTupleVec.size() > 1 && pair.second[tuplePos].empty()){
-                        //The variable is not on this side of the add expression, so we add a full interval to compare against for the other side
+                    if(pair.second[tuplePos].empty()){
+                        //The variable is not on this side of the add (or subtract) expression, so we add a full interval to compare against for the other side
                         varIntervals.addInterval(pair.first->colorType->getFullInterval());
                     } else if(varIntervals.size() < 1){
                         //If any varinterval ends up empty then we were unable to use this arc interval
-- 
2.43.0


From e51a797ddccb1b665d8b61eadacdec30d5213908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:16 +0000
Subject: [PATCH 044/111] fix: colours of a place are not merged when an arc
 takes several of its tokens

---
 src/PetriEngine/Colored/PartitionBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index 06a40ab..a1510fb 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -328,6 +328,12 @@ namespace PetriEngine {
                 if(_partition[inArc.place].isDiagonal()){
                     continue;
                 }
+                //Several tokens taken by one arc are related by their colors, merging colors would lose that
+                if(inArc.expr->weight() > 1){
+                    _partition[inArc.place].setDiagonal(true);
+                    addToQueue(inArc.place);
+                    continue;
+                }
                 VariableModifierMap preVarModifierMap;
                 PositionVariableMap preVarPositionMap;
                 std::set<const PetriEngine::Colored::Variable *> preArcVars;
-- 
2.43.0


From 85fa9b99f0d9557eaa96ea813b865fdfbb02cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:08 +0000
Subject: [PATCH 045/111] fix: a transition without variables that the colour
 fixpoint never enables has no bindings

---
 src/PetriEngine/Colored/BindingGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/BindingGenerator.cpp b/src/PetriEngine/Colored/BindingGenerator.cpp
index 14f6873..b987bd6 100644
--- a/src/PetriEngine/Colored/BindingGenerator.cpp
+++ b/src/PetriEngine/Colored/BindingGenerator.cpp
@@ -156,7 +156,8 @@ namespace PetriEngine {
     : _expr(transition.guard), _colorTypes(colorTypes), _transition(transition), _symmetric_vars(symmetric_vars), _var_map(var_map)
     {
         _isDone = false;
-        _noValidBindings = false;
+        //No variable maps means that the transition can never be enabled, even when it has no variables
+        _noValidBindings = var_map.empty();
         _nextIndex = 0;
 
         std::set<const Colored::Variable*> variables;
-- 
2.43.0


From 79b3af332cc0d0f308b0f69a16fed27b37e4f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:53 +0000
Subject: [PATCH 046/111] fix: the number of linear programs in a conjunction
 saturates

---
 .../Simplification/LinearPrograms.cpp          | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Simplification/LinearPrograms.cpp b/src/PetriEngine/Simplification/LinearPrograms.cpp
index b078931..ab7afd9 100644
--- a/src/PetriEngine/Simplification/LinearPrograms.cpp
+++ b/src/PetriEngine/Simplification/LinearPrograms.cpp
@@ -1,4 +1,5 @@
 #include "PetriEngine/Simplification/LinearPrograms.h"
+#include <limits>
 
 #include <vector>
 
@@ -31,6 +32,17 @@ namespace PetriEngine {
             return explorePotencyImpl(context, potencies, maxConfigurationsSolved);
         }
 
+        // the number of combinations easily exceeds what fits
+        static size_t saturating_add(size_t a, size_t b)
+        {
+            return a > std::numeric_limits<size_t>::max() - b ? std::numeric_limits<size_t>::max() : a + b;
+        }
+
+        static size_t saturating_mul(size_t a, size_t b)
+        {
+            return b != 0 && a > std::numeric_limits<size_t>::max() / b ? std::numeric_limits<size_t>::max() : a * b;
+        }
+
         // *************************
         // UnionCollection functions
         // *************************
@@ -39,7 +51,7 @@ namespace PetriEngine {
         : AbstractProgramCollection(), lps(std::move(programs))
         {
             for (auto& p : lps)
-                _size += p->size();
+                _size = saturating_add(_size, p->size());
         }
 
         UnionCollection::UnionCollection(const AbstractProgramCollection_ptr& A, const AbstractProgramCollection_ptr& B)
@@ -53,7 +65,7 @@ namespace PetriEngine {
                 if (_result == POSSIBLE) break;
             }
             for (auto& p : lps)
-                _size += p->size();
+                _size = saturating_add(_size, p->size());
         }
 
         void UnionCollection::clear()
@@ -131,7 +143,7 @@ namespace PetriEngine {
             assert(A);
             assert(B);
             has_empty = left->empty() && right->empty();
-            _size = left->size() * right->size();
+            _size = saturating_mul(left->size(), right->size());
         }
 
         void MergeCollection::clear()
-- 
2.43.0


From 790f5fa714a671c9c342d3beb243ea712dff9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:26 +0000
Subject: [PATCH 047/111] fix: variables shared with an unmerged place keep the
 colours of the other places apart

---
 src/PetriEngine/Colored/PartitionBuilder.cpp | 27 +++++++++-----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index a1510fb..eec356c 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -182,8 +182,10 @@ namespace PetriEngine {
                             }
 
                             if(_partition[placeVariables.first].getEquivalenceClasses().back().type()->productSize() == 1){
-                                _partition[placeVariables.first].setDiagonal(true);
-                                addToQueue(placeVariables.first);
+                                if(!_partition[placeVariables.first].isDiagonal()){
+                                    _partition[placeVariables.first].setDiagonal(true);
+                                    addToQueue(placeVariables.first);
+                                }
                             } else if(!_partition[placeVariables.first].getDiagonalTuplePositions()[varPosition.first]) {
                                 addToQueue(placeVariables.first);
                                 _partition[placeVariables.first].setDiagonalTuplePosition(varPosition.first, true);
@@ -191,12 +193,6 @@ namespace PetriEngine {
                             break;
                         }
                     }
-                    if(_partition[placeId].isDiagonal()){
-                        break;
-                    }
-                }
-                if(_partition[placeId].isDiagonal()){
-                    break;
                 }
             }
         }
@@ -325,7 +321,14 @@ namespace PetriEngine {
                     _partition[inArc.place].setDiagonal(true);
                 }
 
-                if(_partition[inArc.place].isDiagonal()){
+                const bool wasDiagonal = _partition[inArc.place].isDiagonal();
+                VariableModifierMap preVarModifierMap;
+                PositionVariableMap preVarPositionMap;
+                std::set<const PetriEngine::Colored::Variable *> preArcVars;
+                Colored::VariableVisitor::get_variables(*inArc.expr, preArcVars, preVarPositionMap, preVarModifierMap, true);
+                checkVarOnInputArcs(placeVariableMap, preVarPositionMap, diagonalVars, inArc.place);
+                placeVariableMap[inArc.place] = preVarPositionMap;
+                if(wasDiagonal){
                     continue;
                 }
                 //Several tokens taken by one arc are related by their colors, merging colors would lose that
@@ -334,12 +337,6 @@ namespace PetriEngine {
                     addToQueue(inArc.place);
                     continue;
                 }
-                VariableModifierMap preVarModifierMap;
-                PositionVariableMap preVarPositionMap;
-                std::set<const PetriEngine::Colored::Variable *> preArcVars;
-                Colored::VariableVisitor::get_variables(*inArc.expr, preArcVars, preVarPositionMap, preVarModifierMap, true);
-                checkVarOnInputArcs(placeVariableMap, preVarPositionMap, diagonalVars, inArc.place);
-                placeVariableMap[inArc.place] = preVarPositionMap;
                 if(checkDiagonal(inArc.place)) continue;
 
                 markSharedVars(preVarPositionMap, varPositionMap, postPlaceId, inArc.place);
-- 
2.43.0


From f42b0f0c8dac1c742c72c2a516dcfc458ad6c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:54 +0000
Subject: [PATCH 048/111] fix: agglomeration keeps the merged transitions that
 leave tokens behind

---
 .../Colored/Reduction/RedRulePreAgglomeration.cpp           | 4 ++--
 src/PetriEngine/Reducer.cpp                                 | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
index 77708b7..6bcdbe4 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
@@ -530,8 +530,8 @@ namespace PetriEngine::Colored::Reduction {
                 }
 
                 if (place._post.empty()) {
-                    auto transitions = place._pre;
-                    for (uint32_t tran_id : transitions)
+                    // keep the new transitions that leave some tokens behind
+                    for (uint32_t tran_id : originalProducers)
                         red.skipTransition(tran_id);
                     red.skipPlace(pid);
                 }
diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 6dddf17..2fdc32a 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2840,9 +2840,9 @@ namespace PetriEngine {
             }
 
             if (place.consumers.empty()) {
-                // The producers of place will become purely consuming transitions when it is gone
-                auto transitions = place.producers;
-                for (uint32_t tran_id : transitions)
+                // The producers of place will become purely consuming transitions when it is gone,
+                // but not the new ones that leave some tokens behind
+                for (uint32_t tran_id : originalProducers)
                 {
                     skipTransition(tran_id);
                     --n_added;
-- 
2.43.0


From 86af2e88f6648b4407841388ec230f0a9e2b7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:46 +0000
Subject: [PATCH 049/111] fix: an unfinished colour partition is not used

When the time limit strikes, the equivalence classes computed so far are too
coarse, yet arcs were evaluated with them.
---
 src/PetriEngine/Colored/PartitionBuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index eec356c..02c7f3f 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -95,8 +95,12 @@ namespace PetriEngine {
                 assignColorMap(_partition);
             }
             else
+            {
                 _computed = false;
-            return _placeQueue.empty();
+                //An unfinished partition merges colors that have to be kept apart
+                std::fill(_partition.begin(), _partition.end(), EquivalenceVec());
+            }
+            return _computed;
         }
 
         void PartitionBuilder::assignColorMap(std::vector<EquivalenceVec> &partition) const{
-- 
2.43.0


From 684cbb063e5e38d2839ec4a9d57bd16ce6e683b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:44 +0000
Subject: [PATCH 050/111] fix: unbound output variables range over every colour
 of their sort

---
 src/PetriEngine/Colored/ForwardFixedPoint.cpp | 45 ++++---------------
 1 file changed, 9 insertions(+), 36 deletions(-)

diff --git a/src/PetriEngine/Colored/ForwardFixedPoint.cpp b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
index 7ff489d..1ed893f 100644
--- a/src/PetriEngine/Colored/ForwardFixedPoint.cpp
+++ b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
@@ -304,42 +304,15 @@ namespace PetriEngine {
 
 
 
-                //Apply partitioning to unbound outgoing variables such that
-                // bindings are only created for colors used in the rest of the net
-                if (_partition.computed() && !_partition.partition()[arc.place].isDiagonal()) {
-                    int i = 0;
-                    for (auto* outVar : variables) {
-                        for (auto& varMap : _transition_variable_maps[transition_id]) {
-                            if (varMap.count(outVar) == 0) {
-                                Colored::interval_vector_t varIntervalTuple;
-                                for (const auto& EqClass : _partition.partition()[arc.place].getEquivalenceClasses()) {
-                                    interval_t ci;
-                                    // TODO: this looks odd. Why are we only using the last of the intervals?
-                                    auto canonical = EqClass.intervals().back().getCanonicalInterval();
-                                    for(size_t n = 0; n < outVar->colorType->productSize(); ++n)
-                                    {
-                                        ci.addRange(canonical[i + n]);
-                                    }
-                                    varIntervalTuple.addInterval(ci);
-                                }
-                                assert(outVar->colorType->productSize() == varIntervalTuple.size());
-                                varIntervalTuple.simplify();
-                                varMap[outVar] = std::move(varIntervalTuple);
-                            }
-                        }
-                        i += outVar->colorType->productSize();
-                    }
-                } else {
-                    // Else if partitioning was not computed or diagonal
-                    // and there is a varaible which was not found on an input arc or in the guard,
-                    // we give it the full interval
-                    for (auto* var : variables) {
-                        for (auto& varmap : _transition_variable_maps[transition_id]) {
-                            if (varmap.count(var) == 0) {
-                                Colored::interval_vector_t intervalTuple;
-                                intervalTuple.addInterval(var->colorType->getFullInterval());
-                                varmap[var] = std::move(intervalTuple);
-                            }
+                // If there is a variable which was not found on an input arc or in the guard,
+                // we give it the full interval. One color per equivalence class of this place would
+                // not do: the variable can be shifted, occur several times and on other arcs.
+                for (auto* var : variables) {
+                    for (auto& varmap : _transition_variable_maps[transition_id]) {
+                        if (varmap.count(var) == 0) {
+                            Colored::interval_vector_t intervalTuple;
+                            intervalTuple.addInterval(var->colorType->getFullInterval());
+                            varmap[var] = std::move(intervalTuple);
                         }
                     }
                 }
-- 
2.43.0


From b9a0c64c00a18addeed53feac0227ed267676c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:16 +0000
Subject: [PATCH 051/111] fix: constants on arcs are evaluated without the
 colour partition

---
 src/PetriEngine/Colored/EvaluationVisitor.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/PetriEngine/Colored/EvaluationVisitor.cpp b/src/PetriEngine/Colored/EvaluationVisitor.cpp
index b657840..fd07e6c 100644
--- a/src/PetriEngine/Colored/EvaluationVisitor.cpp
+++ b/src/PetriEngine/Colored/EvaluationVisitor.cpp
@@ -17,15 +17,9 @@ namespace PetriEngine {
         }
 
         void EvaluationVisitor::accept(const UserOperatorExpression* e) {
-            if(_context.placePartition.getEquivalenceClasses().empty()){
-                _cres = e->user_operator();
-            } else {
-                std::vector<uint32_t> tupleIds;
-                e->user_operator()->getTupleId(tupleIds);
-
-                _context.placePartition.applyPartition(tupleIds);
-                _cres = e->user_operator()->getColorType()->getColor(tupleIds);
-            }
+            //The unfolding maps the resulting colors to their equivalence classes,
+            //mapping a constant here would disturb shifts and subtractions
+            _cres = e->user_operator();
         }
 
         void EvaluationVisitor::accept(const SuccessorExpression* e) {
-- 
2.43.0


From 48bf7489855fe5370615d0aa4206a54df8d04f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:13 +0000
Subject: [PATCH 052/111] fix: a variable at several positions of a tuple keeps
 their colours apart

---
 src/PetriEngine/Colored/PartitionBuilder.cpp | 35 +++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index 02c7f3f..3eba4d4 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -143,27 +143,22 @@ namespace PetriEngine {
         //If the place is does not have a product colortype mark the whole place as diagonal, otherwise only the positions
         void PartitionBuilder::checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, bool inputArc){
             for(const auto &varModMap : varModifierMap){
-                if(varModMap.second.size() > 1){
-                    uint32_t actualSize = 0;
-                    std::vector<uint32_t> positions;
-                    for(const auto &map : varModMap.second){
-                        if(!map.empty()){
-                            for(auto position : map){
-                                positions.push_back(position.first);
-                            }
-                            actualSize++;
-                        }
+                std::vector<uint32_t> positions;
+                for(const auto &map : varModMap.second){
+                    for(auto position : map){
+                        positions.push_back(position.first);
                     }
-                    if(actualSize > 1) {
-                        diagonalVars.insert(varModMap.first);
-                        if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
-                            _partition[placeId].setDiagonal(true);
-                        } else {
-                            for(auto pos : positions){
-                                if(!_partition[placeId].getDiagonalTuplePositions()[pos]){
-                                    if(inputArc) addToQueue(placeId);
-                                    _partition[placeId].setDiagonalTuplePosition(pos,true);
-                                }
+                }
+                //in several addends, or at several positions of a tuple
+                if(positions.size() > 1) {
+                    diagonalVars.insert(varModMap.first);
+                    if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
+                        _partition[placeId].setDiagonal(true);
+                    } else {
+                        for(auto pos : positions){
+                            if(!_partition[placeId].getDiagonalTuplePositions()[pos]){
+                                if(inputArc) addToQueue(placeId);
+                                _partition[placeId].setDiagonalTuplePosition(pos,true);
                             }
                         }
                     }
-- 
2.43.0


From bb84dc8f0fab0b13252b0e746b99a4b324849839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:13 +0000
Subject: [PATCH 053/111] fix: only interchangeable variables are treated as
 symmetric

---
 include/PetriEngine/Colored/SymmetryVisitor.h | 8 ++++++--
 src/PetriEngine/Colored/VariableSymmetry.cpp  | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/PetriEngine/Colored/SymmetryVisitor.h b/include/PetriEngine/Colored/SymmetryVisitor.h
index a29c637..78543d9 100644
--- a/include/PetriEngine/Colored/SymmetryVisitor.h
+++ b/include/PetriEngine/Colored/SymmetryVisitor.h
@@ -29,6 +29,7 @@
 #define SYMMETRYVISITOR_H
 
 #include "Expressions.h"
+#include <set>
 #include <vector>
 
 namespace PetriEngine {
@@ -37,6 +38,7 @@ namespace PetriEngine {
         class SymmetryVisitor : public ColorExpressionVisitor {
         private:
             std::vector<uint32_t>& _numbers;
+            std::set<const Variable*> _variables;
             bool _ok = true;
         public:
 
@@ -50,7 +52,8 @@ namespace PetriEngine {
 
             virtual void accept(const VariableExpression* e)
             {
-                _ok = false;
+                //the variables are only interchangeable if each of them occurs once
+                _ok = _variables.insert(e->variable()).second;
             }
 
             virtual void accept(const UserOperatorExpression* e)
@@ -117,7 +120,8 @@ namespace PetriEngine {
                 else
                 {
                     _numbers.emplace_back(no->number());
-                    //Maybe we need to check color expression also
+                    for (const auto& elem : *no)
+                        elem->visit(*this);
                 }
             }
 
diff --git a/src/PetriEngine/Colored/VariableSymmetry.cpp b/src/PetriEngine/Colored/VariableSymmetry.cpp
index 2f36a71..05af4be 100644
--- a/src/PetriEngine/Colored/VariableSymmetry.cpp
+++ b/src/PetriEngine/Colored/VariableSymmetry.cpp
@@ -55,6 +55,7 @@ namespace PetriEngine {
                         }
                         if (isEligible) {
                             _symmetric_var_map[transitionId].emplace_back(inArcVars);
+                            break; //the bindings of a transition are generated for at most one set
                         }
                     }
                 }
@@ -97,6 +98,11 @@ namespace PetriEngine {
                         isEligible = false;
                         break;
                     }
+                    //Exchanging the variables must not change what is produced
+                    if (!Colored::SymmetryVisitor::eligible_for_symmetry(*outputArc.expr).first) {
+                        isEligible = false;
+                        break;
+                    }
                     numArcs++;
                     //All vars were present
                     foundSomeVars = false;
-- 
2.43.0


From a40971e218578b685675b2adb036faff6c6f6466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 054/111] fix: explicit coloured queries compare token counts
 as signed numbers

---
 .../ExplicitQueryPropositionCompiler.cpp                   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ExpressionCompilers/ExplicitQueryPropositionCompiler.cpp b/src/PetriEngine/ExplicitColored/ExpressionCompilers/ExplicitQueryPropositionCompiler.cpp
index bbbbd14..d513709 100644
--- a/src/PetriEngine/ExplicitColored/ExpressionCompilers/ExplicitQueryPropositionCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ExpressionCompilers/ExplicitQueryPropositionCompiler.cpp
@@ -110,7 +110,7 @@ namespace PetriEngine::ExplicitColored {
             return rv;
         }
 
-        static QueryValue fromCount(const MarkingCount_t count) {
+        static QueryValue fromCount(const int64_t count) {
             QueryValue rv;
             rv._value.count = count;
             rv._isPlace = false;
@@ -132,7 +132,8 @@ namespace PetriEngine::ExplicitColored {
             }
         }
 
-        [[nodiscard]] MarkingCount_t getCount(const ColoredPetriNetMarking& marking) const {
+        //signed, as literals may be negative
+        [[nodiscard]] int64_t getCount(const ColoredPetriNetMarking& marking) const {
             if (_isPlace) {
                 return marking.getPlaceCount(_value.placeIndex);
             } else {
@@ -142,7 +143,7 @@ namespace PetriEngine::ExplicitColored {
     private:
         bool _isPlace = false;
         union {
-            MarkingCount_t count;
+            int64_t count;
             uint32_t placeIndex;
         } _value {};
     };
-- 
2.43.0


From 239f06903d0fd33537e5289e32d2382f91523ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 055/111] fix: explicit coloured traces print colours of every
 place's sort

---
 src/PetriEngine/ExplicitColored/ColoredResultPrinter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/ExplicitColored/ColoredResultPrinter.cpp b/src/PetriEngine/ExplicitColored/ColoredResultPrinter.cpp
index 72746a0..f1cebdb 100644
--- a/src/PetriEngine/ExplicitColored/ColoredResultPrinter.cpp
+++ b/src/PetriEngine/ExplicitColored/ColoredResultPrinter.cpp
@@ -97,6 +97,7 @@ namespace PetriEngine::ExplicitColored {
 
             Colored::Multiset tokens;
             const auto& colorType = *explicitCpnBuilder.getPlaceUnderlyingColorType(place);
+            builder.addColorType(colorType.getName(), &colorType);
             for (const auto& [color, count] : traceTokens)
             {
                 if (color.size() > 1)
-- 
2.43.0


From 8cf9a216e1accbe1320621d790cfc613e26e9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 056/111] fix: copying a sum or product in an explicit coloured
 query keeps its terms

---
 .../Visitors/ConditionCopyVisitor.h           | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/PetriEngine/ExplicitColored/Visitors/ConditionCopyVisitor.h b/include/PetriEngine/ExplicitColored/Visitors/ConditionCopyVisitor.h
index 5d2623c..80d17c2 100644
--- a/include/PetriEngine/ExplicitColored/Visitors/ConditionCopyVisitor.h
+++ b/include/PetriEngine/ExplicitColored/Visitors/ConditionCopyVisitor.h
@@ -238,25 +238,17 @@ namespace PetriEngine::ExplicitColored {
         }
 
         void _accept(const PQL::PlusExpr *element) override {
-            std::vector<PQL::Expr_ptr> copiedExpressions;
-            for (const auto& expr : element->expressions()) {
-                visit(this, expr);
-                copiedExpressions.push_back(_copiedExpr);
-            }
+            auto copiedExpressions = _copyOperands(element);
             _copiedExpr = std::make_shared<PQL::PlusExpr>(std::move(copiedExpressions));
         }
 
         void _accept(const PQL::MultiplyExpr *element) override {
-            std::vector<PQL::Expr_ptr> copiedExpressions;
-            for (const auto& expr : element->expressions()) {
-                visit(this, expr);
-                copiedExpressions.push_back(_copiedExpr);
-            }
+            auto copiedExpressions = _copyOperands(element);
             _copiedExpr = std::make_shared<PQL::MultiplyExpr>(std::move(copiedExpressions));
         }
 
         void _accept(const PQL::MinusExpr *element) override {
-            visit(this, element);
+            visit(this, (*element)[0]);
             _copiedExpr = std::make_shared<PQL::MinusExpr>(_copiedExpr);
         }
 
@@ -279,6 +271,20 @@ namespace PetriEngine::ExplicitColored {
 
     private:
         ConditionCopyVisitor() {}
+
+        std::vector<PQL::Expr_ptr> _copyOperands(const PQL::CommutativeExpr* element) {
+            std::vector<PQL::Expr_ptr> copied;
+            copied.push_back(std::make_shared<PQL::LiteralExpr>(element->constant()));
+            for (const auto& [offset, name] : element->places()) {
+                copied.push_back(std::make_shared<PQL::UnfoldedIdentifierExpr>(name, offset));
+            }
+            for (const auto& expr : element->expressions()) {
+                visit(this, expr);
+                copied.push_back(_copiedExpr);
+            }
+            return copied;
+        }
+
         PQL::Condition_ptr _copiedCondition;
         PQL::Expr_ptr _copiedExpr;
     };
-- 
2.43.0


From 0e8667ed7d48dded65ae451f9da9fd0df8c0d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 057/111] fix: inhibitor arcs of the colour-ignorant net reach
 every variation

---
 .../ExplicitColored/ColorIgnorantPetriNetBuilder.cpp           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp b/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
index 1e8cd9b..5831d0a 100644
--- a/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
+++ b/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
@@ -162,7 +162,8 @@ namespace PetriEngine::ExplicitColored {
                 _builder.addInputArc(place, transition, true, weight);
             } else {
                 for (size_t i = 0; i < transitionVariationCountIt->second.size(); i++) {
-                    _builder.addInputArc(place, transition + "___" + std::to_string(i), true, weight);
+                    const auto variation = i == 0 ? transition : transition + "___" + std::to_string(i + 1);
+                    _builder.addInputArc(place, variation, true, weight);
                 }
             }
         }
-- 
2.43.0


From e87fdd508c1bea9f505c650d07abb3e7c69abb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 058/111] fix: no fireability verdict from a colour-ignorant
 net with a source transition

---
 .../ExplicitColored/ExplicitColoredModelChecker.cpp        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp b/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
index 3cc4d9b..296d041 100644
--- a/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
+++ b/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
@@ -112,6 +112,13 @@ namespace PetriEngine::ExplicitColored {
        const std::unique_ptr<PetriNet>& qnet,
        options_t& options
     ) const {
+        //Without input arcs the fireability becomes the constant true, although guards may prevent the transition from firing
+        for (uint32_t t = 0; t < qnet->numberOfTransitions(); ++t) {
+            const auto [first, last] = qnet->preset(t);
+            if (first == last) {
+                return Result::UNKNOWN;
+            }
+        }
         negstat_t stats;
         queries[0] = pushNegation(queries[0], stats, context, false, false, false);
         contextAnalysis(false, {}, {}, builder, qnet.get(), queries);
-- 
2.43.0


From c6acefae12fec14c07f2f8d81f7732e8be666c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 059/111] fix: a constant in a tuple wraps at the size of its
 own component

---
 src/PetriEngine/ExplicitColored/ArcCompiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index 785a390..cb83c83 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -715,7 +715,7 @@ namespace PetriEngine::ExplicitColored {
                             hasVariable = true;
                             break;
                         }
-                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[i]));
+                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[newColorSequence.size()]));
                     }
                     if (!hasVariable) {
                         constantMultiSet.addCount(ColorSequence { newColorSequence, expr->getColorMaxes() }, expr->getSignedCount());
-- 
2.43.0


From 0f0a04f69cc7723666e5c0df9f6f1b72b7227b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 060/111] fix: the explicit coloured engine refuses
 product-sorted variables

---
 src/PetriEngine/ExplicitColored/ArcCompiler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index cb83c83..6f771d0 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -472,6 +472,9 @@ namespace PetriEngine::ExplicitColored {
             const auto varIt = _variableMap.find(expr->variable()->name);
             if (varIt == _variableMap.end())
                 throw explicit_error{ExplicitErrorType::UNKNOWN_VARIABLE};
+            // A variable is bound to a single color, it cannot stand for the components of a tuple
+            if (expr->variable()->colorType->isProduct())
+                throw explicit_error{ExplicitErrorType::UNSUPPORTED_NET};
             _maxColor = expr->getColorType(_colorTypeMap)->size();
             _parameterizedColor = ParameterizedColor::fromVariable(varIt->second);
 
-- 
2.43.0


From 8696542a8e42b015d4fdba1c9b558aaf3c9f298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 061/111] fix: parallel arcs of the explicit coloured engine
 are summed

---
 .../ExplicitColoredPetriNetBuilder.cpp        | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp b/src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp
index 09ed11e..295182b 100644
--- a/src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp
+++ b/src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp
@@ -55,6 +55,22 @@ namespace PetriEngine::ExplicitColored {
          }
     }
 
+    // Several arcs between the same place and transition are one arc with the sum of their expressions
+    static void addArcToCompile(
+        std::vector<std::tuple<Transition_t, Transition_t, Colored::ArcExpression_ptr>>& arcs,
+        const Transition_t from, const Transition_t to, const Colored::ArcExpression_ptr& expr
+    ) {
+        for (auto& [otherFrom, otherTo, otherExpr] : arcs) {
+            if (otherFrom == from && otherTo == to) {
+                otherExpr = std::make_shared<Colored::AddExpression>(
+                    std::vector<Colored::ArcExpression_ptr>{otherExpr, expr}
+                );
+                return;
+            }
+        }
+        arcs.emplace_back(from, to, expr);
+    }
+
     //Colored input arc
     void ExplicitColoredPetriNetBuilder::addInputArc(const std::string& place, const std::string& transition, const Colored::ArcExpression_ptr& expr, uint32_t inhib_weight) {
         auto from = _placeIndices.find(place)->second;
@@ -62,7 +78,7 @@ namespace PetriEngine::ExplicitColored {
         if (inhib_weight != 0) {
             _currentNet._inhibitorArcs.emplace_back(from, to, inhib_weight);
         } else {
-            _inputArcsToCompile.emplace_back(from, to, expr);
+            addArcToCompile(_inputArcsToCompile, from, to, expr);
         }
 
     }
@@ -92,7 +108,7 @@ namespace PetriEngine::ExplicitColored {
     void ExplicitColoredPetriNetBuilder::addOutputArc(const std::string& transition, const std::string& place, const Colored::ArcExpression_ptr& expr) {
         const auto from = _transitionIndices.find(transition)->second;
         const auto to = _placeIndices.find(place)->second;
-        _outputArcsToCompile.emplace_back(from, to, expr);
+        addArcToCompile(_outputArcsToCompile, from, to, expr);
     }
 
     void ExplicitColoredPetriNetBuilder::addPlace(const std::string& name, const Colored::ColorType* type, Colored::Multiset&& tokens, double, double) {
-- 
2.43.0


From e2fd66b0727563faa9572851024e5bd2dd1c417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 062/111] fix: written coloured nets keep inhibitor weights and
 are well formed

---
 src/PetriEngine/Colored/PnmlWriter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/PnmlWriter.cpp b/src/PetriEngine/Colored/PnmlWriter.cpp
index d14fb9b..ad83d27 100644
--- a/src/PetriEngine/Colored/PnmlWriter.cpp
+++ b/src/PetriEngine/Colored/PnmlWriter.cpp
@@ -330,7 +330,7 @@ namespace PetriEngine {
                     const std::string& start = c->getColorType()->operator[](size_t{0}).getColorName();
                     const std::string& end = c->getColorType()->operator[](
                             c->getColorType()->size() - 1).getColorName();
-                    _out << increaseTabs() << "<finiteintrangeconstant value=\"" << c->getColorName() << "\">\n>";
+                    _out << increaseTabs() << "<finiteintrangeconstant value=\"" << c->getColorName() << "\">\n";
                     _out << increaseTabs() << "<finiteintrange start=\"" << start << "\" end=\"" << end << "\"/>\n";
                     _out << decreaseTabs() << "</finiteintrangeconstant>\n";
                 } else {
@@ -435,6 +435,10 @@ namespace PetriEngine {
                 _out << increaseTabs() << "<name>\n";
                 _out << increaseTabs() << "<text>" << id << "</text>\n";
                 _out << decreaseTabs() << "</name>\n";
+                // The weight of an inhibitor arc is read from the inscription, not from the hlinscription
+                _out << getTabs() << "<inscription>\n";
+                _out << increaseTabs() << "<text>" << inhibitor.inhib_weight << "</text>\n";
+                _out << decreaseTabs() << "</inscription>\n";
                 _out << getTabs() << "<hlinscription>\n";
 
                 _out << increaseTabs() << "<text>" << inhibitor.inhib_weight << "'" << place.type->getName() << ".all"
-- 
2.43.0


From 43a31fa563217c38bee8758fd9d081fe92848b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 063/111] fix: guards over tuples restrict colours only where
 positions align

---
 src/PetriEngine/Colored/GuardRestrictor.cpp | 31 +++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 274785b..1cc37fd 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -355,6 +355,27 @@ namespace PetriEngine{
             }
         }
 
+        //A product variable can only be compared component by component with a variable of the same size
+        static bool positionsAlign(const PositionVariableMap &varPositionsL, const PositionVariableMap &varPositionsR) {
+            for(const auto &varPosition : varPositionsL){
+                const auto other = varPositionsR.find(varPosition.first);
+                const size_t size = varPosition.second->colorType->productSize();
+                if(other == varPositionsR.end()){
+                    if(size > 1) return false;
+                } else if(size != other->second->colorType->productSize()) return false;
+            }
+            for(const auto &varPosition : varPositionsR){
+                if(varPosition.second->colorType->productSize() > 1 && varPositionsL.count(varPosition.first) == 0) return false;
+            }
+            return true;
+        }
+
+        static void addDiagonals(const PositionVariableMap &varPositionsL, const PositionVariableMap &varPositionsR,
+                                 std::set<const Colored::Variable*> &diagonalVars) {
+            for(const auto &varPosition : varPositionsL) diagonalVars.insert(varPosition.second);
+            for(const auto &varPosition : varPositionsR) diagonalVars.insert(varPosition.second);
+        }
+
         void GuardRestrictor::restrictEquality(std::vector<VariableIntervalMap>& variableMap,
                             const VariableModifierMap &varModifierMapL,
                             const VariableModifierMap &varModifierMapR,
@@ -363,6 +384,11 @@ namespace PetriEngine{
                             const std::unordered_map<uint32_t, const Color*> &constantMapL,
                             const std::unordered_map<uint32_t, const Color*> &constantMapR,
                             std::set<const Colored::Variable*> &diagonalVars) {
+            if(!positionsAlign(varPositionsL, varPositionsR)){
+                //leave the intervals to the evaluation of the guard
+                addDiagonals(varPositionsL, varPositionsR, diagonalVars);
+                return;
+            }
             for(const auto& varPositionPair : varPositionsL){
                 uint32_t index = varPositionPair.first;
                 if(varPositionsR.count(index)){
@@ -392,6 +418,11 @@ namespace PetriEngine{
                             const std::unordered_map<uint32_t, const Color*> &constantMapL,
                             const std::unordered_map<uint32_t, const Color*> &constantMapR,
                             std::set<const Colored::Variable*> &diagonalVars) {
+            if(!positionsAlign(varPositionsL, varPositionsR) || varPositionsL.size() + constantMapL.size() > 1){
+                //Tuples differ if any of their components do, which does not restrict a single component
+                addDiagonals(varPositionsL, varPositionsR, diagonalVars);
+                return;
+            }
             auto variableMapCopy = variableMap;
             restrictEquality(variableMap, varModifierMapL, varModifierMapR, varPositionsL, varPositionsR, constantMapL, constantMapR, diagonalVars);
 
-- 
2.43.0


From 9cd3f797708a2b134cea8a3188b3228b4a36b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 064/111] fix: successor in a tuple shifts only its own
 component

---
 include/PetriEngine/Colored/ConstantVisitor.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/PetriEngine/Colored/ConstantVisitor.h b/include/PetriEngine/Colored/ConstantVisitor.h
index 6dea153..90f81ca 100644
--- a/include/PetriEngine/Colored/ConstantVisitor.h
+++ b/include/PetriEngine/Colored/ConstantVisitor.h
@@ -47,16 +47,20 @@ namespace PetriEngine {
             virtual void accept(const SuccessorExpression* e)
             {
                 e->child()->visit(*this);
-                for(auto& constIndexPair : _color_map){
-                    constIndexPair.second = &++(*constIndexPair.second);
+                // only the constant of this component is shifted, not those of earlier components
+                auto constant = _color_map.find(_index);
+                if(constant != _color_map.end()){
+                    constant->second = &++(*constant->second);
                 }
             }
 
             virtual void accept(const PredecessorExpression* e)
             {
                 e->child()->visit(*this);
-                for(auto& constIndexPair : _color_map){
-                    constIndexPair.second = &--(*constIndexPair.second);
+                // only the constant of this component is shifted, not those of earlier components
+                auto constant = _color_map.find(_index);
+                if(constant != _color_map.end()){
+                    constant->second = &--(*constant->second);
                 }
             }
 
-- 
2.43.0


From 997ab4cde10cf7afba0aebde01208e4809416474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 065/111] fix: pre-agglomeration iterates over a copy of the
 inhibitor arcs

---
 src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
index 6bcdbe4..431c417 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
@@ -507,7 +507,9 @@ namespace PetriEngine::Colored::Reduction {
                                 }
                             }
 
-                            for (const auto& arc : red.inhibitorArcs()){
+                            // adding arcs changes the list of inhibitor arcs
+                            const auto inhibitorArcs = red.inhibitorArcs();
+                            for (const auto& arc : inhibitorArcs){
                                 if (arc.transition == originalConsumers[n]){
                                     ArcExpression_ptr expr = nullptr;
                                     red.addInputArc(arc.place, tid, expr, arc.inhib_weight);
-- 
2.43.0


From 2c2bf7227338ee077fc95410dda95f26f1fc36f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:29 +0000
Subject: [PATCH 066/111] fix: a variable only subtracted on an output arc is
 diagonal

---
 src/PetriEngine/Colored/PartitionBuilder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index 3eba4d4..5c7a57b 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -285,6 +285,15 @@ namespace PetriEngine {
 
             checkVarOnArc(varModifierMap, diagonalVars, postPlaceId, false);
 
+            //The colors of the post place do not restrict a variable that only occurs in a subtraction
+            std::set<const PetriEngine::Colored::Variable *> addedVars;
+            VariableModifierMap addedModifierMap;
+            PositionVariableMap addedPositionMap;
+            Colored::VariableVisitor::get_variables(*postArc->expr, addedVars, addedPositionMap, addedModifierMap, false);
+            for(auto* var : postArcVars){
+                if(addedVars.count(var) == 0) diagonalVars.insert(var);
+            }
+
             if(transition.guard != nullptr){
                 Colored::VariableVisitor::get_variables(*transition.guard, guardVars);
             }
-- 
2.43.0


From 3923d3bc32b7d08cd115b700d5acf56be710818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:30 +0000
Subject: [PATCH 067/111] fix: colour partitioning sees every position of every
 variable

---
 .../PetriEngine/Colored/PartitionBuilder.h    | 11 +++--
 src/PetriEngine/Colored/PartitionBuilder.cpp  | 40 ++++++++++++++-----
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/include/PetriEngine/Colored/PartitionBuilder.h b/include/PetriEngine/Colored/PartitionBuilder.h
index c4de60d..1cfc710 100644
--- a/include/PetriEngine/Colored/PartitionBuilder.h
+++ b/include/PetriEngine/Colored/PartitionBuilder.h
@@ -63,16 +63,19 @@ namespace PetriEngine {
                 bool checkTupleDiagonal(uint32_t placeId);
                 bool checkDiagonal(uint32_t placeId);
 
-                void handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const PositionVariableMap &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId);
+                //Every variable of an arc with its position, the addends of a sum share positions
+                typedef std::vector<std::pair<uint32_t, const Colored::Variable*>> PositionVariables;
+                static PositionVariables variablePositions(const VariableModifierMap &varModifierMap);
+                void handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const PositionVariables &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId);
 
                 void applyNewIntervals(const Arc &inArc, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps);
 
                 void checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, bool inputArc);
 
-                void checkVarOnInputArcs(const std::unordered_map<uint32_t,PositionVariableMap> &placeVariableMap, const PositionVariableMap &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
+                void checkVarOnInputArcs(const std::unordered_map<uint32_t,PositionVariables> &placeVariableMap, const PositionVariables &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
 
-                void markSharedVars(const PositionVariableMap &preVarPositionMap, const PositionVariableMap &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId);
-                void checkVarInGuard(const PositionVariableMap &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
+                void markSharedVars(const PositionVariables &preVarPositionMap, const PositionVariables &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId);
+                void checkVarInGuard(const PositionVariables &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
 
                 std::vector<VariableIntervalMap> prepareVariables(
                             const VariableModifierMap &varModifierMap,
diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index 5c7a57b..e20487b 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -144,13 +144,17 @@ namespace PetriEngine {
         void PartitionBuilder::checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, bool inputArc){
             for(const auto &varModMap : varModifierMap){
                 std::vector<uint32_t> positions;
+                size_t occurrences = 0;
                 for(const auto &map : varModMap.second){
                     for(auto position : map){
-                        positions.push_back(position.first);
+                        ++occurrences;
+                        for(uint32_t i = 0; i < varModMap.first->colorType->productSize(); ++i){
+                            positions.push_back(position.first + i);
+                        }
                     }
                 }
                 //in several addends, or at several positions of a tuple
-                if(positions.size() > 1) {
+                if(occurrences > 1) {
                     diagonalVars.insert(varModMap.first);
                     if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
                         _partition[placeId].setDiagonal(true);
@@ -165,9 +169,24 @@ namespace PetriEngine {
                 }
             }
         }
+        PartitionBuilder::PositionVariables PartitionBuilder::variablePositions(const VariableModifierMap &varModifierMap){
+            PositionVariables positions;
+            for(const auto &varModifiers : varModifierMap){
+                for(const auto &addend : varModifiers.second){
+                    for(const auto &position : addend){
+                        //a variable over a product covers a position for each component
+                        for(uint32_t i = 0; i < varModifiers.first->colorType->productSize(); ++i){
+                            positions.emplace_back(position.first + i, varModifiers.first);
+                        }
+                    }
+                }
+            }
+            return positions;
+        }
+
         //Check if the variales on this preArc also appear on other preArcs for the transition
         //and mark them as diagonal if they do
-        void PartitionBuilder::checkVarOnInputArcs(const std::unordered_map<uint32_t,PositionVariableMap> &placeVariableMap, const PositionVariableMap &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
+        void PartitionBuilder::checkVarOnInputArcs(const std::unordered_map<uint32_t,PositionVariables> &placeVariableMap, const PositionVariables &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
             for(const auto &placeVariables : placeVariableMap){
                 for(const auto &variable : preVarPositionMap){
                     for(const auto &varPosition : placeVariables.second){
@@ -197,7 +216,7 @@ namespace PetriEngine {
         }
         //Check if the preArc share variables with the postArc and mark diagonal if the
         //variable positions are diagonal in the post place
-        void PartitionBuilder::markSharedVars(const PositionVariableMap &preVarPositionMap, const PositionVariableMap &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId){
+        void PartitionBuilder::markSharedVars(const PositionVariables &preVarPositionMap, const PositionVariables &varPositionMap, uint32_t postPlaceId, uint32_t prePlaceId){
             for(const auto &preVar : preVarPositionMap){
                 for(const auto &postVar : varPositionMap){
                     if(preVar.second == postVar.second){
@@ -214,7 +233,7 @@ namespace PetriEngine {
             }
         }
         //Check if any of the variables on the preArc was part of a diagonal constraint in the gaurd
-        void PartitionBuilder::checkVarInGuard(const PositionVariableMap &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
+        void PartitionBuilder::checkVarInGuard(const PositionVariables &preVarPositionMap, const std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
             for(const auto &preVar : preVarPositionMap){
                 if(diagonalVars.count(preVar.second)){
                     if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
@@ -317,12 +336,12 @@ namespace PetriEngine {
                     Colored::RestrictVisitor::restrict(*transition.guard, varMaps, diagonalVars);
                 }
 
-                handleInArcs(transition, diagonalVars, varPositionMap, varMaps, postPlaceId);
+                handleInArcs(transition, diagonalVars, variablePositions(varModifierMap), varMaps, postPlaceId);
             }
         }
 
-        void PartitionBuilder::handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const PositionVariableMap &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId){
-            std::unordered_map<uint32_t,PositionVariableMap> placeVariableMap;
+        void PartitionBuilder::handleInArcs(const Transition &transition, std::set<const Colored::Variable*> &diagonalVars, const PositionVariables &varPositionMap, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps, uint32_t postPlaceId){
+            std::unordered_map<uint32_t,PositionVariables> placeVariableMap;
             for(const auto &inArc : transition.input_arcs){
                 //Hack to avoid considering dot places
                 if(_places[inArc.place].type == ColorType::dotInstance()){
@@ -331,9 +350,10 @@ namespace PetriEngine {
 
                 const bool wasDiagonal = _partition[inArc.place].isDiagonal();
                 VariableModifierMap preVarModifierMap;
-                PositionVariableMap preVarPositionMap;
+                PositionVariableMap lastPositions;
                 std::set<const PetriEngine::Colored::Variable *> preArcVars;
-                Colored::VariableVisitor::get_variables(*inArc.expr, preArcVars, preVarPositionMap, preVarModifierMap, true);
+                Colored::VariableVisitor::get_variables(*inArc.expr, preArcVars, lastPositions, preVarModifierMap, true);
+                const auto preVarPositionMap = variablePositions(preVarModifierMap);
                 checkVarOnInputArcs(placeVariableMap, preVarPositionMap, diagonalVars, inArc.place);
                 placeVariableMap[inArc.place] = preVarPositionMap;
                 if(wasDiagonal){
-- 
2.43.0


From e5e5fd38bb1be4b1d7c078c84f461180b2259999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:30 +0000
Subject: [PATCH 068/111] fix: product-sorted variables are not merged by
 coloured reductions

---
 src/PetriEngine/Colored/ArcVarMultisetVisitor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PetriEngine/Colored/ArcVarMultisetVisitor.cpp b/src/PetriEngine/Colored/ArcVarMultisetVisitor.cpp
index 53e7408..0e5d506 100644
--- a/src/PetriEngine/Colored/ArcVarMultisetVisitor.cpp
+++ b/src/PetriEngine/Colored/ArcVarMultisetVisitor.cpp
@@ -9,6 +9,11 @@
 
 namespace PetriEngine::Colored {
     void ArcVarMultisetVisitor::accept(const VariableExpression *e) {
+        // A variable over a product stands for a whole tuple and cannot be compared with tuples of variables
+        if (e->variable()->colorType->productSize() > 1) {
+            _ok = false;
+            return;
+        }
         if (_inTuple)
             _varRes = e->variable();
         else
-- 
2.43.0


From fe8676a70f09cd0d4297dfb6797041cf77c78867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 069/111] fix: an exhausted query reduction time limit does not
 wrap around

---
 src/VerifyPN.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/VerifyPN.cpp b/src/VerifyPN.cpp
index c669c29..b548d3b 100644
--- a/src/VerifyPN.cpp
+++ b/src/VerifyPN.cpp
@@ -533,10 +533,16 @@ void simplify_queries(const MarkVal* marking,
     auto end = std::chrono::high_resolution_clock::now();
     std::vector<bool> hadTo(queries.size(), true);
 
+    // what is left of the time limit, it must not wrap around when the limit is passed
+    auto remaining = [&]() -> uint32_t {
+        auto elapsed = std::chrono::duration_cast<std::chrono::seconds>(end - begin).count();
+        return std::max<int64_t>(0, options.queryReductionTimeout - std::max<int64_t>(0, elapsed));
+    };
+
     do {
-        auto qt = (options.queryReductionTimeout - std::chrono::duration_cast<std::chrono::seconds>(end - begin).count()) / (1 + (to_handle / options.cores));
+        auto qt = remaining() / (1 + (to_handle / options.cores));
         if ((to_handle <= options.cores || options.cores == 1) && to_handle > 0)
-            qt = (options.queryReductionTimeout - std::chrono::duration_cast<std::chrono::seconds>(end - begin).count()) / to_handle;
+            qt = remaining() / to_handle;
         std::atomic<uint32_t> cnt(0);
 #ifdef VERIFYPN_MC_Simplification
         std::vector<std::thread> threads;
@@ -569,7 +575,7 @@ void simplify_queries(const MarkVal* marking,
                     }
 
 #ifndef VERIFYPN_MC_Simplification
-                    qt = (options.queryReductionTimeout - std::chrono::duration_cast<std::chrono::seconds>(end - begin).count()) / (queries.size() - i);
+                    qt = remaining() / (queries.size() - i);
 #endif
                     // this is used later, we already know that this is a plain reachability (or AG)
                     auto preSize = formulaSize(queries[i]);
-- 
2.43.0


From 1293fbd9427a046018f5d3a94425953e5765cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 070/111] fix: coloured reductions are not applied to games

---
 src/VerifyPN.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/VerifyPN.cpp b/src/VerifyPN.cpp
index b548d3b..273d191 100644
--- a/src/VerifyPN.cpp
+++ b/src/VerifyPN.cpp
@@ -70,6 +70,13 @@ bool reduceColored(ColoredPetriNetBuilder &cpnBuilder, std::vector<std::shared_p
         return false;
     }
 
+    for (auto &q: queries) {
+        if (std::dynamic_pointer_cast<PQL::ControlCondition>(q)) {
+            out << "\nSkipping colored structural reductions due to 'control' predicate in query." << std::endl;
+            return false;
+        }
+    }
+
     ColoredUseVisitor useVisitor(cpnBuilder.colored_placenames(), cpnBuilder.getPlaceCount(),
                                  cpnBuilder.colored_transitionnames(), cpnBuilder.getTransitionCount());
     bool preserveLoops = false;
-- 
2.43.0


From 4feb91adf73b78d439cd9a2d63c80b4cb5ecb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 071/111] fix: every synthesis query is answered

---
 src/main.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 9f2094d..6256751 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -476,9 +476,10 @@ int main(int argc, const char** argv) {
 
                 if (strategy_out != nullptr && strategy_out != &std::cout)
                     delete strategy_out;
-                if (std::find(results.begin(), results.end(), ResultPrinter::Unknown) == results.end()) {
-                    return to_underlying(ReturnValue::SuccessCode);
-                }
+            }
+
+            if (!synth_ids.empty() && std::find(results.begin(), results.end(), ResultPrinter::Unknown) == results.end()) {
+                return to_underlying(ReturnValue::SuccessCode);
             }
 
 
-- 
2.43.0


From 895c7293fac5c5de8409d363945ccb29c4de8892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 072/111] fix: a strategy is synthesised without partial order
 reduction

---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 6256751..e00b102 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -462,7 +462,9 @@ int main(int argc, const char** argv) {
 
                 std::ostream *strategy_out = nullptr;
 
-                results[i] = strategy.synthesize(options.strategy, options.stubbornreduction, false);
+                // a strategy needs an answer to every choice of the environment, not just to the stubborn ones
+                const bool use_stubborn = options.stubbornreduction && options.strategy_output.empty();
+                results[i] = strategy.synthesize(options.strategy, use_stubborn, false);
 
                 strategy.result().print(querynames[i], options.printstatistics, i, options, std::cout);
 
-- 
2.43.0


From e8f0604b4f3174f6dee53482829ac699bf482955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 073/111] fix: only the predicate of a control query is
 rewritten

---
 src/PetriEngine/PQL/PushNegation.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/PushNegation.cpp b/src/PetriEngine/PQL/PushNegation.cpp
index 9653bf4..c957009 100644
--- a/src/PetriEngine/PQL/PushNegation.cpp
+++ b/src/PetriEngine/PQL/PushNegation.cpp
@@ -108,8 +108,23 @@ namespace PetriEngine { namespace PQL {
     }
 
     void PushNegationVisitor::_accept(ControlCondition *element) {
-        auto res = subvisit((*element)[0], false, negated);
-        return_value = std::make_shared<ControlCondition>(res);
+        // The rewritings of paths do not hold for strategies (control: AG (a and b) is not two games),
+        // only the predicate is rewritten
+        auto cond = (*element)[0];
+        if (!negated) {
+            auto predicate = [this](const Condition_ptr& c) { return subvisit(c, true, false); };
+            if (auto ag = std::dynamic_pointer_cast<AGCondition>(cond))
+                cond = std::make_shared<AGCondition>(predicate((*ag)[0]));
+            else if (auto af = std::dynamic_pointer_cast<AFCondition>(cond))
+                cond = std::make_shared<AFCondition>(predicate((*af)[0]));
+            else if (auto a = std::dynamic_pointer_cast<ACondition>(cond)) {
+                if (auto g = std::dynamic_pointer_cast<GCondition>((*a)[0]))
+                    cond = std::make_shared<AGCondition>(predicate((*g)[0]));
+                else if (auto f = std::dynamic_pointer_cast<FCondition>((*a)[0]))
+                    cond = std::make_shared<AFCondition>(predicate((*f)[0]));
+            }
+        }
+        return_value = std::make_shared<ControlCondition>(cond);
     }
 
     void PushNegationVisitor::_accept(EGCondition *element) {
-- 
2.43.0


From a9dd8338d4c90a7abbdc9f7638638d9ec74faf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 074/111] fix: place use of constant predicates

---
 include/PetriEngine/PQL/PlaceUseVisitor.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/PetriEngine/PQL/PlaceUseVisitor.h b/include/PetriEngine/PQL/PlaceUseVisitor.h
index 9354fc4..2e9bf75 100644
--- a/include/PetriEngine/PQL/PlaceUseVisitor.h
+++ b/include/PetriEngine/PQL/PlaceUseVisitor.h
@@ -48,6 +48,7 @@ namespace PQL {
         virtual void _accept(const MinusExpr* element) override;
         virtual void _accept(const SubtractExpr* element) override;
         virtual void _accept(const DeadlockCondition* element) override;
+        virtual void _accept(const BooleanCondition* element) override { }
         virtual void _accept(const CompareConjunction* element) override;
         virtual void _accept(const UnfoldedUpperBoundsCondition* element) override;
 
-- 
2.43.0


From f95577beecd8df572f0b65f9d3f420884ac43105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 075/111] fix: transitions without preset keep their player

---
 src/PetriEngine/PetriNetBuilder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/PetriNetBuilder.cpp b/src/PetriEngine/PetriNetBuilder.cpp
index 6320c33..63dca13 100644
--- a/src/PetriEngine/PetriNetBuilder.cpp
+++ b/src/PetriEngine/PetriNetBuilder.cpp
@@ -299,6 +299,7 @@ namespace PetriEngine {
                 // ALL have to be inhibitor, if any. Otherwise not orphan
 
                 if(trans.skip) continue;
+                net->_controllable[freetrans] = trans._player == 0;
                 net->_transitions[freetrans].inputs = freeinv;
 
                 // add inhibitors
-- 
2.43.0


From c9d3cec354c55f831daa7d0db58327301760ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 076/111] fix: a controllable self-loop keeps a safety game
 safe

---
 src/PetriEngine/Synthesis/SimpleSynthesis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
index 787abb0..71b1db1 100644
--- a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
+++ b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
@@ -465,6 +465,7 @@ namespace PetriEngine {
                 some = true;
                 if (&child == &cconf) {
                     if (_is_safety) { // maybe a win if safety ( no need to explore more)
+                        some_winning = true;
                         cconf._state = SynthConfig::MAYBE;
                         if (!permissive) {
                             ctrl_buffer.clear();
-- 
2.43.0


From d87717fc72d1049fe6e151726a86eb61070f7696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 077/111] fix: the printed strategy lists each marking once and
 only explored moves

---
 src/PetriEngine/Synthesis/SimpleSynthesis.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
index 71b1db1..bc9985e 100644
--- a/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
+++ b/src/PetriEngine/Synthesis/SimpleSynthesis.cpp
@@ -347,6 +347,8 @@ namespace PetriEngine {
             {
                 auto res = _stateset.add(working);
                 missing.emplace(res.second);
+                auto& state = _stateset.get_data(res.second)._state;
+                state = state | SynthConfig::PRINTED;
             }
             if (&out == &std::cout) out << "\n##BEGIN STRATEGY##\n";
             out << "{\n";
@@ -359,6 +361,8 @@ namespace PetriEngine {
                 if ((meta._state & SynthConfig::WINNING) ||
                     (_is_safety && (meta._state & (SynthConfig::UNKNOWN | SynthConfig::LOSING)) == 0)) {
                     _stateset.decode(parent, nxt);
+                    if (!_is_safety && eval(_predicate.get(), parent.marking()))
+                        continue; // the goal is reached, no more choices to make
                     generator.prepare(parent);
                     while (generator.next_env(working)) {
                         auto res = _stateset.add(working);
@@ -383,7 +387,9 @@ namespace PetriEngine {
                         auto res = _stateset.add(working);
                         auto state = _stateset.get_data(res.second)._state;
                         if ((state & SynthConfig::LOSING)) continue;
-                        if (!_is_safety && (state & SynthConfig::WINNING) == 0) continue;
+                        if ((!_is_safety || seen_win) && (state & SynthConfig::WINNING) == 0) continue;
+                        if ((state & (SynthConfig::WINNING | SynthConfig::PROCESSED | SynthConfig::MAYBE)) == 0)
+                            continue; // never explored, it could be losing
                         if ((state & SynthConfig::WINNING) && !seen_win) {
                             seen_win = true;
                             winning.clear();
-- 
2.43.0


From 03182b4f06be85a51f405548d74b4aaa65e8bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 078/111] fix: game stubborn sets see consumption from query
 places

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index 72f284b..05736f4 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -248,8 +248,16 @@ namespace PetriEngine {
         bool GameStubbornSet::approximateFuture(const bool ctrl) {
             std::stack<uint32_t> waiting;
             std::fill(_future_enabled.begin(), _future_enabled.end(), false);
-            auto color_transition = [this, &waiting](auto t) {
+            bool seen_from_query = false;
+            auto color_transition = [this, &waiting, &seen_from_query](auto t) {
                 _future_enabled[t] = true;
+                {
+                    auto [finv, linv] = _net.preset(t);
+                    for (; finv < linv; ++finv) {
+                        if (finv->direction < 0 && _in_query[finv->place])
+                            seen_from_query = true;
+                    }
+                }
                 if (_netContainsInhibitorArcs) {
                     // check for decrementors
                     auto [finv, linv] = _net.preset(t);
@@ -283,7 +291,6 @@ namespace PetriEngine {
             }
 
             // saturate
-            bool seen_from_query = false;
             while (!waiting.empty()) {
                 auto p = waiting.top();
                 waiting.pop();
-- 
2.43.0


From 1c4bc7049211b38a12d419f5b80b206ade0ad636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 079/111] fix: game stubborn sets see transitions freed from an
 inhibitor

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index 05736f4..36ce99b 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -299,12 +299,8 @@ namespace PetriEngine {
                 }
                 if ((_places_seen[p] & INCR) != 0 ||
                     (_inhibiting_place[p] && (_places_seen[p] & DECR) != 0)) {
-                    auto pf = _places[p].post;
-                    auto pl = _places[p + 1].pre;
-                    for (; pf < pl; ++pf) {
-                        if ((_future_enabled[_arcs[pf].index]) == 0 &&
-                            _net.controllable(_arcs[pf].index) == ctrl) {
-                            auto t = _arcs[pf].index;
+                    auto check_transition = [&](uint32_t t) {
+                        if (!_future_enabled[t] && _net.controllable(t) == ctrl) {
                             auto [finv, linv] = _net.preset(t);
                             bool ok = true;
                             // check color of preset
@@ -328,7 +324,11 @@ namespace PetriEngine {
                                 color_transition(t);
                             }
                         }
-                    }
+                    };
+                    for (auto pf = _places[p].post; pf < _places[p + 1].pre; ++pf)
+                        check_transition(_arcs[pf].index);
+                    for (auto t : _inhibpost[p])
+                        check_transition(t);
                 }
             }
             return seen_from_query;
-- 
2.43.0


From 701a6ff822141686e8e295987a1bc2adbb375ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:41 +0000
Subject: [PATCH 080/111] fix: bounds of game stubborn sets count present
 tokens and net consumption

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index 36ce99b..649ecc4 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -135,7 +135,7 @@ namespace PetriEngine {
                         while (fout < lout && fout->place < finv->place)
                             ++fout;
                         if (fout < lout && fout->place == finv->place) {
-                            mx = std::min(_place_bounds[finv->place].second / (fout->tokens - finv->tokens), mx);
+                            mx = std::min(_place_bounds[finv->place].second / (finv->tokens - fout->tokens), mx);
                         } else {
                             mx = std::min(_place_bounds[finv->place].second / finv->tokens, mx);
                         }
@@ -160,7 +160,7 @@ namespace PetriEngine {
                 _places_seen[p] &= ~WAITING;
 
                 // place loop
-                uint64_t sum = 0;
+                uint64_t sum = (*_parent)[p];
                 for (auto ti = _places[p].pre; ti != _places[p].post; ++ti) {
                     const auto& arc = _arcs[ti];
                     if (arc.direction <= 0 ||
-- 
2.43.0


From a1f92bdb6efe3704e8b99b63c298b4422ccdded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:41 +0000
Subject: [PATCH 081/111] fix: intervals of differences and negations in game
 stubborn sets

---
 include/PetriEngine/Synthesis/IntervalVisitor.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/PetriEngine/Synthesis/IntervalVisitor.h b/include/PetriEngine/Synthesis/IntervalVisitor.h
index 3b0a0ab..0266c24 100644
--- a/include/PetriEngine/Synthesis/IntervalVisitor.h
+++ b/include/PetriEngine/Synthesis/IntervalVisitor.h
@@ -31,6 +31,7 @@ namespace PetriEngine {
         protected:
             virtual void _accept(const PQL::NotCondition* element)
             {
+                Visitor::visit(this, (*element)[0]);
                 switch(_result_tos)
                 {
                     case TRUE:
@@ -315,6 +316,7 @@ namespace PetriEngine {
             }
 
             virtual void _accept(const PQL::MinusExpr *element) {
+                Visitor::visit(this, (*element)[0]);
                 _bound_tos.first *= -1;
                 _bound_tos.second *= -1;
                 std::swap(_bound_tos.first, _bound_tos.second);
@@ -328,8 +330,7 @@ namespace PetriEngine {
                     Visitor::visit(this, e);
                     if(first)
                     {
-                        bounds.first = _bound_tos.second;
-                        bounds.second = _bound_tos.first;
+                        bounds = _bound_tos;
                         first = false;
                     }
                     else
-- 
2.43.0


From f77243913d669db0f802982b1961c631ef4bffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:40 +0000
Subject: [PATCH 082/111] fix: a net or query file that could not be written is
 reported

---
 src/VerifyPN.cpp | 5 +++++
 src/main.cpp     | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/VerifyPN.cpp b/src/VerifyPN.cpp
index 273d191..8322212 100644
--- a/src/VerifyPN.cpp
+++ b/src/VerifyPN.cpp
@@ -363,6 +363,8 @@ void writeQueries(const std::vector<std::shared_ptr<Condition>>&queries, std::ve
         out << "</property-set>\n";
     }
     out.close();
+    if (!out)
+        throw base_error("Could not write ", filename);
 }
 
 std::vector<Condition_ptr> getCTLQueries(const std::vector<Condition_ptr>& ctlStarQueries) {
@@ -499,6 +501,9 @@ void outputNet(const PetriNetBuilder &builder, std::string out_file) {
     std::fstream file;
     file.open(out_file, std::ios::out);
     unfoldedNet->toXML(file);
+    file.close();
+    if (!file)
+        throw base_error("Could not write ", out_file);
 }
 
 void outputQueries(const PetriNetBuilder &builder, const std::vector<PetriEngine::PQL::Condition_ptr> &queries,
diff --git a/src/main.cpp b/src/main.cpp
index e00b102..8256f23 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -163,6 +163,9 @@ int main(int argc, const char** argv) {
             file.open(options.model_col_out_file, std::ios::out);
             PetriEngine::Colored::PnmlWriter writer(cpnBuilder, file);
             writer.toColPNML();
+            file.close();
+            if (!file)
+                throw base_error("Could not write ", options.model_col_out_file);
         }
 
         if (!options.doUnfolding) {
@@ -326,6 +329,9 @@ int main(int argc, const char** argv) {
             std::fstream file;
             file.open(options.model_out_file, std::ios::out);
             net->toXML(file);
+            file.close();
+            if (!file)
+                throw base_error("Could not write ", options.model_out_file);
         }
 
         if (alldone)
-- 
2.43.0


From de0b1041b4f11fb645a32f4931c4cf91f3aee161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:40 +0000
Subject: [PATCH 083/111] fix: input that cannot be read or parsed is refused
 with a message, not an abort

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 8256f23..8e187c4 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -572,7 +572,7 @@ int main(int argc, const char** argv) {
                 }
             }
         }
-    } catch (base_error& e) {
+    } catch (std::exception& e) {
         std::cerr << "ERROR: " << e.what() << std::endl;
         std::exit(-1);
     }
-- 
2.43.0


From 267e8c65a2f8b4ea467d39272e6c2de38745dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:13 +0000
Subject: [PATCH 084/111] fix: constant sums and products are written to query
 files

---
 src/PetriEngine/PQL/XMLPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/XMLPrinter.cpp b/src/PetriEngine/PQL/XMLPrinter.cpp
index a9c9cc5..8dd8632 100644
--- a/src/PetriEngine/PQL/XMLPrinter.cpp
+++ b/src/PetriEngine/PQL/XMLPrinter.cpp
@@ -322,7 +322,7 @@ namespace PetriEngine {
 
         void XMLPrinter::_accept(const PlusExpr *element) {
             auto printer = [this](auto* element) {
-                if(element->constant() != 0)
+                if(element->constant() != 0 || (element->places().empty() && element->expressions().empty()))
                     outputLine("<integer-constant>", element->constant(), "</integer-constant>");
                 if(!element->places().empty()) {
                     Tag tc(this, "tokens-count");
@@ -348,7 +348,7 @@ namespace PetriEngine {
 
         void XMLPrinter::_accept(const MultiplyExpr *element) {
             auto printer = [this](auto* element) {
-                if(element->constant() != 1)
+                if(element->constant() != 1 || (element->places().empty() && element->expressions().empty()))
                 outputLine("<integer-constant>", element->constant(), "</integer-constant>");
                 if(!element->places().empty()) {
                     for(auto& i : element->places())
-- 
2.43.0


From 1c5de6d8219dd7eeb9bc187479083a28ecb48569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:11 +0000
Subject: [PATCH 085/111] fix: written place-bound queries can be read back and
 keep their offset

---
 include/PetriEngine/PQL/Expressions.h | 11 ++++++++---
 src/PetriEngine/PQL/Analyze.cpp       |  4 ++--
 src/PetriEngine/PQL/XMLPrinter.cpp    |  9 +++++++++
 src/PetriParse/QueryXMLParser.cpp     |  8 +++++++-
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/PetriEngine/PQL/Expressions.h b/include/PetriEngine/PQL/Expressions.h
index 8f11824..60d90ca 100644
--- a/include/PetriEngine/PQL/Expressions.h
+++ b/include/PetriEngine/PQL/Expressions.h
@@ -1084,20 +1084,24 @@ namespace PetriEngine {
         {
             friend class AnalyzeVisitor;
         public:
-            UpperBoundsCondition(const std::vector<shared_const_string>& places) : _places(places)
+            UpperBoundsCondition(const std::vector<shared_const_string>& places, double offset = 0)
+            : _places(places), _offset(offset)
             {}
             const std::vector<shared_const_string> &getPlaces() const {
                 return _places;
             }
 
+            double getOffset() const { return _offset; }
+
             Condition_ptr clone() override
             {
-                return std::make_shared<UpperBoundsCondition>(_places);
+                return std::make_shared<UpperBoundsCondition>(_places, _offset);
             }
             virtual type_id_t type() const { return PQL::type_id<decltype(this)>(); };
 
         private:
             std::vector<shared_const_string> _places;
+            double _offset = 0;
         };
 
 
@@ -1125,7 +1129,8 @@ namespace PetriEngine {
                 }
             };
 
-            UnfoldedUpperBoundsCondition(const std::vector<shared_const_string>& places)
+            UnfoldedUpperBoundsCondition(const std::vector<shared_const_string>& places, double offset = 0)
+            : _offset(offset)
             {
                 _places.reserve(places.size());
                 for(auto& s : places)
diff --git a/src/PetriEngine/PQL/Analyze.cpp b/src/PetriEngine/PQL/Analyze.cpp
index 1cb8144..3dce70a 100644
--- a/src/PetriEngine/PQL/Analyze.cpp
+++ b/src/PetriEngine/PQL/Analyze.cpp
@@ -431,9 +431,9 @@ namespace PetriEngine { namespace PQL {
                         throw base_error("Unable to resolve colored identifier \"", *p, "\"");
                     }
                 }
-                element->_compiled = std::make_shared<UnfoldedUpperBoundsCondition>(uplaces);
+                element->_compiled = std::make_shared<UnfoldedUpperBoundsCondition>(uplaces, element->getOffset());
             } else {
-                element->_compiled = std::make_shared<UnfoldedUpperBoundsCondition>(element->getPlaces());
+                element->_compiled = std::make_shared<UnfoldedUpperBoundsCondition>(element->getPlaces(), element->getOffset());
             }
             Visitor::visit(this, element->_compiled);
         }
diff --git a/src/PetriEngine/PQL/XMLPrinter.cpp b/src/PetriEngine/PQL/XMLPrinter.cpp
index 8dd8632..28af382 100644
--- a/src/PetriEngine/PQL/XMLPrinter.cpp
+++ b/src/PetriEngine/PQL/XMLPrinter.cpp
@@ -15,6 +15,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 #include "PetriEngine/PQL/XMLPrinter.h"
+#include "PetriEngine/PQL/PredicateCheckers.h"
 namespace PetriEngine {
     namespace PQL {
 
@@ -164,6 +165,9 @@ namespace PetriEngine {
             for(auto& p : element->places()) {
                 outputLine("<place>", *p._name, "</place>");
             }
+            // tokens of places that simplification has taken out of the sum
+            if(element->getOffset() != 0)
+                outputLine("<integer-constant>", static_cast<int64_t>(element->getOffset()), "</integer-constant>");
         }
 
         void XMLPrinter::_accept(const ControlCondition *condition) {
@@ -172,6 +176,11 @@ namespace PetriEngine {
         }
 
         void XMLPrinter::_accept(const EFCondition *condition) {
+            if(containsUpperBounds(condition->getCond())) {
+                // the formula of a place-bound query is the bare place-bound element
+                Visitor::visit(this, condition->getCond());
+                return;
+            }
             Tag ep(this, "exists-path");
             {
                 Tag f(this, "finally");
diff --git a/src/PetriParse/QueryXMLParser.cpp b/src/PetriParse/QueryXMLParser.cpp
index c30ea8c..6ad4e58 100644
--- a/src/PetriParse/QueryXMLParser.cpp
+++ b/src/PetriParse/QueryXMLParser.cpp
@@ -176,7 +176,13 @@ Condition_ptr QueryXMLParser::parseFormula(rapidxml::xml_node<>*  element) {
     }
     else if (childName == "place-bound") {
         std::vector<shared_const_string> places;
+        double offset = 0;
         for (auto it = child->first_node(); it ; it = it->next_sibling()) {
+            if (strcmp(it->name(), "integer-constant") == 0)
+            {
+                offset += atoi(it->value());
+                continue;
+            }
             if (strcmp(it->name(), "place") != 0)
             {
                 assert(false);
@@ -190,7 +196,7 @@ Condition_ptr QueryXMLParser::parseFormula(rapidxml::xml_node<>*  element) {
             }
             places.emplace_back(place);
         }
-        auto bnds = std::make_shared<UpperBoundsCondition>(places);
+        auto bnds = std::make_shared<UpperBoundsCondition>(places, offset);
         return std::make_shared<EFCondition>(bnds);
     } else if ((cond = parseBooleanFormula(child)) != nullptr) {
         return cond;
-- 
2.43.0


From 1791364a0452cdd68aeb37b309c5b942f2e0cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:11 +0000
Subject: [PATCH 086/111] fix: an empty model file is refused

---
 src/PetriParse/PNMLParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index 0b40c58..9e76e6c 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -55,7 +55,7 @@ void PNMLParser::parse(std::istream& xml,
     doc.parse<0>(&buffer[0]);
 
     rapidxml::xml_node<>* root = doc.first_node();
-    if(strcmp(root->name(), "pnml") != 0)
+    if(root == nullptr || strcmp(root->name(), "pnml") != 0)
     {
         throw base_error("expecting <pnml> tag as root-node in xml tree.");
     }
-- 
2.43.0


From 3c0da2e7a443a896b2ff5f05c4ece0243b16e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:11 +0000
Subject: [PATCH 087/111] fix: a truncated binary query file is refused

---
 src/PetriParse/QueryBinaryParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriParse/QueryBinaryParser.cpp b/src/PetriParse/QueryBinaryParser.cpp
index 2c982fe..344c2ac 100644
--- a/src/PetriParse/QueryBinaryParser.cpp
+++ b/src/PetriParse/QueryBinaryParser.cpp
@@ -20,7 +20,8 @@
 #include "PetriEngine/PQL/Expressions.h"
 
 bool QueryBinaryParser::parse(std::istream& bin, const std::set<size_t>& parse_only) {
-    //Parse the xml
+    // a file that ends early is an error, not a source of arbitrary values
+    bin.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit);
     uint32_t numq;
     bin.read(reinterpret_cast<char*>(&numq), sizeof(uint32_t));
     std::vector<shared_const_string> names;
-- 
2.43.0


From 2393f9d94735200e92271b3985279abf8a55c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:44 +0000
Subject: [PATCH 088/111] fix: comparisons with negative constants are not
 merged into unsigned constraints

---
 src/PetriEngine/PQL/Expressions.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index a37bd68..2cb7319 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -69,6 +69,18 @@ namespace PetriEngine {
                         return;
                     }
 
+                    // constraints are unsigned and never trivial: no negative constants, "less than zero" or "at least zero"
+                    const bool left = (*comp)[1]->placeFree();
+                    EvaluationContext context;
+                    const auto val = PetriEngine::PQL::evaluate((*comp)[left ? 1 : 0].get(), context);
+                    if(val < 0 ||
+                       (val == 0 && left && std::dynamic_pointer_cast<LessThanCondition>(ptr)) ||
+                       (val == 0 && !left && std::dynamic_pointer_cast<LessThanOrEqualCondition>(ptr)))
+                    {
+                        _conds.emplace_back(ptr);
+                        return;
+                    }
+
                     std::vector<Condition_ptr> cnds{ptr};
                     auto cmp = std::make_shared<CompareConjunction>(cnds, std::is_same<T, OrCondition>::value);
                     tryMerge<T>(_conds, cmp, aggressive);
-- 
2.43.0


From bebf804f17d45c3884c83a9cad0b359aa28ed40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:44 +0000
Subject: [PATCH 089/111] fix: solved queries in a written LTL query file can
 be read back

---
 src/VerifyPN.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/VerifyPN.cpp b/src/VerifyPN.cpp
index 8322212..fa75ce5 100644
--- a/src/VerifyPN.cpp
+++ b/src/VerifyPN.cpp
@@ -388,7 +388,8 @@ std::vector<Condition_ptr> getLTLQueries(const std::vector<Condition_ptr>& ctlSt
     std::vector<Condition_ptr> ltlQueries;
     for (const auto &ctlStarQuery : ctlStarQueries) {
         LTL::LTLValidator isLtl;
-        if (isLtl.isLTL(ctlStarQuery)) {
+        // solved queries are kept as constants by --keep-solved
+        if (ctlStarQuery->isTriviallyTrue() || ctlStarQuery->isTriviallyFalse() || isLtl.isLTL(ctlStarQuery)) {
             ltlQueries.push_back(ctlStarQuery);
         } else {
             throw base_error("A query could not be translated from CTL* to LTL.");
-- 
2.43.0


From 8e2bee53c64fe50f634324dd27af8eefb5d19f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:30 +0000
Subject: [PATCH 090/111] fix: coloured pre-agglomeration leaves behind the
 tokens not consumed, not a multiple of them

---
 src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
index 431c417..0b4de4b 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
@@ -375,6 +375,7 @@ namespace PetriEngine::Colored::Reduction {
                     const auto &consArc = red.getInArc(pid, consumer);
 
                     uint32_t w = consArc->expr->weight();
+                    const ArcExpression_ptr consArcExpr = consArc->expr;
                     std::set<const Variable *> consVars;
                     std::set<const Variable *> consArcVars;
                     std::unordered_map<uint32_t, std::vector<const Colored::ColorExpression*>> consTuples;
@@ -522,7 +523,7 @@ namespace PetriEngine::Colored::Reduction {
                             }
 
                             if (k_i != k){
-                                red.addOutputArc(tid, pid, std::make_shared<PetriEngine::Colored::ScalarProductExpression>(varReplacevis.makeReplacementArcExpr(proArc->expr), k-k_i));
+                                red.addOutputArc(tid, pid, std::make_shared<PetriEngine::Colored::ScalarProductExpression>(varReplacevis.makeReplacementArcExpr(consArcExpr), k-k_i));
                             }
                         }
                     }
-- 
2.43.0


From 360b4f83cf7975035f820c87be4a5e07f342eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:03 +0000
Subject: [PATCH 091/111] fix: coloured pre-agglomeration fires a consumer
 several times only under one possible binding

---
 .../Colored/Reduction/RedRulePreAgglomeration.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
index 0b4de4b..f2d33df 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
@@ -273,6 +273,21 @@ namespace PetriEngine::Colored::Reduction {
 
                     Colored::VariableVisitor::get_variables(*consArc->expr, consArcVars, consTuples);
 
+                    if (!kIsAlwaysOne[n]) {
+                        // The merged transition fires the consumer several times under one binding,
+                        // so the consumed color has to determine that binding
+                        std::set<const Variable *> otherVars;
+                        if (consumer.guard)
+                            Colored::VariableVisitor::get_variables(*consumer.guard, otherVars);
+                        for (const auto &arc: consumer.output_arcs)
+                            Colored::VariableVisitor::get_variables(*arc.expr, otherVars);
+                        if (!std::includes(consArcVars.begin(), consArcVars.end(), otherVars.begin(), otherVars.end())) {
+                            todo[n] = false;
+                            todoAllGood = false;
+                            continue;
+                        }
+                    }
+
                     if (prodHangingVars.second) {
                         // The hanging variable checks need the arc variables and guard variables in separate sets
                         if (consumer.guard)
-- 
2.43.0


From ddd2a835fd21e15c1da6d8486f910a54db23480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:03 +0000
Subject: [PATCH 092/111] fix: coloured pre-agglomeration keeps the guard's
 variables when firing a consumer several times

---
 .../Colored/Reduction/RedRulePreAgglomeration.cpp        | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
index f2d33df..287eae2 100644
--- a/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRulePreAgglomeration.cpp
@@ -494,15 +494,6 @@ namespace PetriEngine::Colored::Reduction {
                             // Create new transition with effect of firing the producer, and then the consumer k_i times
                             auto tid = red.newTransition(mergedguard);
 
-                            // Separate variables for the k_i firing versions.
-                            if (k_i > 1){
-                                for (auto& kvPair : varReplacementMap) {
-                                    auto* newVar = new Variable{kvPair.first + "k" + std::to_string(k_i), kvPair.second->colorType};
-                                    red.addVariable(newVar);
-                                    kvPair.second = newVar;
-                                }
-                            }
-
                             // Re-fetch the transition references as they might be invalidated?
                             const Transition &producerPrime = red.transitions()[prod];
                             const Transition &consumerPrime = red.transitions()[originalConsumers[n]];
-- 
2.43.0


From b66fd260bddc0405b1da329f59d2f995d9a57ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:31 +0000
Subject: [PATCH 093/111] fix: a query file that cannot be read to the end is
 refused

---
 src/VerifyPN.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/VerifyPN.cpp b/src/VerifyPN.cpp
index fa75ce5..c949880 100644
--- a/src/VerifyPN.cpp
+++ b/src/VerifyPN.cpp
@@ -278,9 +278,7 @@ readQueries(shared_string_set& string_set, options_t& options, std::vector<std::
         if (options.querynumbers.size() == 0) {
 
             //Read everything
-            std::stringstream buffer;
-            buffer << qfile.rdbuf();
-            auto str = buffer.str();
+            std::string str((std::istreambuf_iterator<char>(qfile)), std::istreambuf_iterator<char>());
             qstrings.push_back(options.queryfile);
             auto q = ParseQuery(str);
             if(q == nullptr)
-- 
2.43.0


From 2098d0e93a0067fd46f9d3c652037f4049aa00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:01 +0000
Subject: [PATCH 094/111] fix: a strategy that could not be written is reported

---
 src/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 8e187c4..e2b67df 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -482,8 +482,13 @@ int main(int argc, const char** argv) {
                 if (strategy_out != nullptr)
                     strategy.print_strategy(*strategy_out);
 
-                if (strategy_out != nullptr && strategy_out != &std::cout)
+                if (strategy_out != nullptr && strategy_out != &std::cout) {
+                    strategy_out->flush();
+                    const bool written = strategy_out->good();
                     delete strategy_out;
+                    if (!written)
+                        throw base_error("Could not write strategy to file: ", options.strategy_output);
+                }
             }
 
             if (!synth_ids.empty() && std::find(results.begin(), results.end(), ResultPrinter::Unknown) == results.end()) {
-- 
2.43.0


From bd29f74dd15432515a0cae70f7afacecdd4a7349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:20 +0000
Subject: [PATCH 095/111] fix: an interactive session ends when its client is
 gone

---
 .../ExplicitColored/ExplicitColoredInteractiveMode.cpp     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp b/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp
index f5e11b1..78fc514 100644
--- a/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp
+++ b/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp
@@ -47,6 +47,11 @@ namespace PetriEngine::ExplicitColored {
         rapidxml::xml_document<> initialMarkingXml;
         initialMarkingXml.parse<0>(initialMarkingInput.data());
 
+        if (initialMarkingXml.first_node() == nullptr) {
+            std::cerr << "No xml was given" << std::endl;
+            return 1;
+        }
+
         auto initialMarkingOption = _parseMarking(initialMarkingXml, std::cerr);
 
         if (!initialMarkingOption.has_value()) {
@@ -61,7 +66,7 @@ namespace PetriEngine::ExplicitColored {
         while (true) {
             auto input = _readUntilDoubleNewline(std::cin);
 
-            if (input == "EXIT") {
+            if (input == "EXIT" || (input.empty() && !std::cin)) {
                 return 0;
             }
 
-- 
2.43.0


From 4f57b77806024c78eeec749c0ffce7dc30867a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:20 +0000
Subject: [PATCH 096/111] fix: a transition that is not enabled cannot be fired
 interactively

---
 .../SuccessorGenerator/ColoredSuccessorGenerator.h           | 2 +-
 .../ExplicitColored/ExplicitColoredInteractiveMode.cpp       | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h b/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
index 7f288ac..5800cc2 100644
--- a/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
+++ b/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
@@ -48,8 +48,8 @@ namespace PetriEngine::ExplicitColored {
         }
         void getBinding(Transition_t tid, Binding_t bid, Binding& binding) const;
         void fire(ColoredPetriNetMarking& state, Transition_t tid, const Binding& binding) const;
-    protected:
         [[nodiscard]] bool check(const ColoredPetriNetMarking& state, Transition_t tid, const Binding& binding) const;
+    protected:
         [[nodiscard]] bool checkInhibitor(const ColoredPetriNetMarking& state, Transition_t tid) const;
         [[nodiscard]] bool checkPresetAndGuard(const ColoredPetriNetMarking& state, Transition_t tid, const Binding& binding) const;
         void consumePreset(ColoredPetriNetMarking& state, Transition_t tid, const Binding& binding) const;
diff --git a/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp b/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp
index 78fc514..79c8eb7 100644
--- a/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp
+++ b/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp
@@ -93,6 +93,11 @@ namespace PetriEngine::ExplicitColored {
                     return 1;
                 }
 
+                if (!_successorGenerator.check(marking, selectedTransition->first, selectedTransition->second)) {
+                    std::cerr << "The transition is not enabled under the given binding" << std::endl;
+                    return 1;
+                }
+
                 _successorGenerator.fire(marking, selectedTransition->first, selectedTransition->second);
 
                 _printCurrentMarking(std::cout, marking);
-- 
2.43.0


From 8ac0b391ad224659b06f7fea5a9807448dc95867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:20 +0000
Subject: [PATCH 097/111] fix: incomplete interactive requests are refused

---
 .../ExplicitColoredInteractiveMode.cpp        | 24 +++++++++++++------
 src/PetriParse/PNMLParser.cpp                 |  4 ++++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp b/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp
index 79c8eb7..58ca05a 100644
--- a/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp
+++ b/src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp
@@ -205,18 +205,17 @@ namespace PetriEngine::ExplicitColored {
         }
 
         const auto bindingNode = transitionNode->first_node();
+        if (bindingNode == nullptr) {
+            errorOut << "Missing binding tag" << std::endl;
+            return std::nullopt;
+        }
         if (bindingNode->name() != std::string("binding")) {
             errorOut << "Unexpected tag " << std::quoted(bindingNode->name()) << std::endl;
             return std::nullopt;
         }
 
         Binding binding;
-        auto variableNode = bindingNode->first_node();
-        if (variableNode == nullptr) {
-            return std::make_pair(transitionIndexIt->second, binding);
-        }
-
-        do {
+        for (auto variableNode = bindingNode->first_node(); variableNode != nullptr; variableNode = variableNode->next_sibling()) {
             if (variableNode->name() != std::string("variable")) {
                 errorOut << "Unexpected tag " << std::quoted(variableNode->name()) << std::endl;
                 return std::nullopt;
@@ -235,6 +234,10 @@ namespace PetriEngine::ExplicitColored {
             }
 
             const auto colorNode = variableNode->first_node();
+            if (colorNode == nullptr) {
+                errorOut << "Missing color tag" << std::endl;
+                return std::nullopt;
+            }
             if (colorNode->name() != std::string("color")) {
                 errorOut << "Unexpected tag " << std::quoted(colorNode->name()) << std::endl;
                 return std::nullopt;
@@ -257,7 +260,14 @@ namespace PetriEngine::ExplicitColored {
             }
 
             binding.setValue(variableIndexIt->second, *colorIndex);
-        } while ((variableNode = variableNode->next_sibling()) != nullptr);
+        }
+
+        for (const auto variable : _cpn.getAllTransitionVariables(transitionIndexIt->second)) {
+            if (binding.getValues().find(variable) == binding.getValues().end()) {
+                errorOut << "Missing value for variable " << std::quoted(_builder.getVariableName(variable)) << std::endl;
+                return std::nullopt;
+            }
+        }
 
         return std::make_pair(transitionIndexIt->second, binding);
     }
diff --git a/src/PetriParse/PNMLParser.cpp b/src/PetriParse/PNMLParser.cpp
index 9e76e6c..d21f40a 100644
--- a/src/PetriParse/PNMLParser.cpp
+++ b/src/PetriParse/PNMLParser.cpp
@@ -640,6 +640,10 @@ void PNMLParser::parseMarking(const rapidxml::xml_document<>& doc, PetriEngine::
         std::unordered_map<const Variable*, const Color*> binding;
         EquivalenceVec placePartition;
         ExpressionContext context {binding, *colorTypes, placePartition};
+        if (child->first_node() == nullptr)
+        {
+            throw base_error("expected place to have tokens");
+        }
         auto ae = parseArcExpression(child->first_node());
         auto initialMarking = EvaluationVisitor::evaluate(*ae, context);
 
-- 
2.43.0


From 4b23513d92ffe12c3830e0948f02cb19e7e3e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:10 +0000
Subject: [PATCH 098/111] fix: color classes that differ for some colors of a
 diagonal position are kept apart

---
 src/PetriEngine/Colored/EquivalenceVec.cpp   | 36 +++++++++++++++-----
 src/PetriEngine/Colored/PartitionBuilder.cpp |  3 ++
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/PetriEngine/Colored/EquivalenceVec.cpp b/src/PetriEngine/Colored/EquivalenceVec.cpp
index bcb4148..56af7b0 100644
--- a/src/PetriEngine/Colored/EquivalenceVec.cpp
+++ b/src/PetriEngine/Colored/EquivalenceVec.cpp
@@ -34,18 +34,38 @@ namespace PetriEngine {
         }
 
         void EquivalenceVec::mergeEqClasses(){
-            for(int32_t i = _equivalenceClasses.size()-1; i >= 1; i--){
-                for(int32_t j = i-1; j >= 0; j--){
-                    bool fullyContained = true;
-                    for(const auto &interval : _equivalenceClasses[i].intervals()){
-                        if(!_equivalenceClasses[j].intervals().contains(interval, _diagonalTuplePositions)){
-                            fullyContained = false;
-                            break;
+            const auto contained = [&](const EquivalenceClass &inner, const EquivalenceClass &outer){
+                for(const auto &interval : inner.intervals()){
+                    if(!outer.intervals().contains(interval, _diagonalTuplePositions)){
+                        return false;
+                    }
+                }
+                return true;
+            };
+            const auto overlap = [&](const EquivalenceClass &left, const EquivalenceClass &right){
+                for(const auto &leftInterval : left.intervals()){
+                    for(const auto &rightInterval : right.intervals()){
+                        bool disjoint = false;
+                        for(uint32_t i = 0; i < _diagonalTuplePositions.size(); i++){
+                            if(!_diagonalTuplePositions[i] && (leftInterval[i]._lower > rightInterval[i]._upper || rightInterval[i]._lower > leftInterval[i]._upper)){
+                                disjoint = true;
+                                break;
+                            }
                         }
+                        if(!disjoint) return true;
                     }
-                    if(fullyContained){
+                }
+                return false;
+            };
+            for(int32_t i = _equivalenceClasses.size()-1; i >= 1; i--){
+                for(int32_t j = i-1; j >= 0; j--){
+                    if(contained(_equivalenceClasses[i], _equivalenceClasses[j]) && contained(_equivalenceClasses[j], _equivalenceClasses[i])){
                         _equivalenceClasses.erase(_equivalenceClasses.begin() + i);
                         break;
+                    } else if(overlap(_equivalenceClasses[i], _equivalenceClasses[j])){
+                        //The classes differ for some colors of the diagonal positions only
+                        _diagonal = true;
+                        return;
                     }
                 }
             }
diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index e20487b..9d09f37 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -70,6 +70,7 @@ namespace PetriEngine {
                 _placeQueue.pop_back();
                 _inQueue[placeId] = false;
 
+                _partition[placeId].mergeEqClasses();
                 bool allPositionsDiagonal = true;
                 for(auto diag : _partition[placeId].getDiagonalTuplePositions()){
                     if(!diag){
@@ -291,6 +292,7 @@ namespace PetriEngine {
                 addToQueue(inArc.place);
             }
             _partition[inArc.place].mergeEqClasses();
+            checkDiagonal(inArc.place);
         }
 
         void PartitionBuilder::handleTransition(const Transition &transition, const uint32_t postPlaceId, const Arc *postArc) {
@@ -376,6 +378,7 @@ namespace PetriEngine {
                 if(checkDiagonal(inArc.place)) continue;
 
                 _partition[inArc.place].mergeEqClasses();
+                if(checkDiagonal(inArc.place)) continue;
                 if(_partition[inArc.place].getEquivalenceClasses().size() >=
                     _partition[inArc.place].getEquivalenceClasses().back().type()->size(_partition[inArc.place].getDiagonalTuplePositions())){
                     _partition[inArc.place].setDiagonal(true);
-- 
2.43.0


From 8110ac54244b4f8a6402f05baa3fdf9397131ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:49 +0000
Subject: [PATCH 099/111] fix: places of different color classes get different
 ids when unfolding

---
 src/PetriEngine/Colored/EquivalenceVec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Colored/EquivalenceVec.cpp b/src/PetriEngine/Colored/EquivalenceVec.cpp
index 56af7b0..3ce94bb 100644
--- a/src/PetriEngine/Colored/EquivalenceVec.cpp
+++ b/src/PetriEngine/Colored/EquivalenceVec.cpp
@@ -123,7 +123,7 @@ namespace PetriEngine {
             }
 
             if(hasDiagonalPositions){
-                return eqClass->id() + color->getColorType()->getColor(newColorTupleIds)->getId();
+                return color->getColorType()->getColor(newColorTupleIds)->getId();
             }
 
             return eqClass->id();
-- 
2.43.0


From 9da995134cd44bf3749d83911d93d0d1f270b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:50 +0000
Subject: [PATCH 100/111] fix: an inequality guard over variables with several
 colors does not restrict them to equal colors

---
 src/PetriEngine/Colored/GuardRestrictor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 1cc37fd..12834e9 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -473,6 +473,8 @@ namespace PetriEngine{
             if((leftColorsBefore > 1 && rightColorsBefore > 1) || leftColorsBefore == 0 || rightColorsBefore == 0){
                 //If both variables have more than one color in their interval we cannot restrict the intervals
                 //and if either side did not have any colors the varmap is not valid.
+                variableMap[varMapIndex][var1] = variableMapCopy[varMapIndex].find(var1)->second;
+                variableMap[varMapIndex][var2] = variableMapCopy[varMapIndex].find(var2)->second;
                 return;
             } else if (leftColorsBefore == 1 && rightColorsBefore == 1){
                 //if we are comparing single colors and there is an interval after equality
-- 
2.43.0


From 26f266633d17eae50066aa7c4d323ec0250f7205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:50 +0000
Subject: [PATCH 101/111] fix: color classes are not narrowed in diagonal
 positions when a partition is split

---
 src/PetriEngine/Colored/EquivalenceClass.cpp |  4 +++-
 src/PetriEngine/Colored/EquivalenceVec.cpp   | 13 +-----------
 src/PetriEngine/Colored/PartitionBuilder.cpp | 21 +++++++++++++++++---
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/PetriEngine/Colored/EquivalenceClass.cpp b/src/PetriEngine/Colored/EquivalenceClass.cpp
index 24bb2d2..7081693 100644
--- a/src/PetriEngine/Colored/EquivalenceClass.cpp
+++ b/src/PetriEngine/Colored/EquivalenceClass.cpp
@@ -42,6 +42,7 @@ namespace PetriEngine {
             interval_vector_t resIntervals;
             for(const auto& interval : _colorIntervals){
                 interval_vector_t intervalSubRes;
+                bool first = true;
                 for(const auto& otherInterval : other._colorIntervals){
                     auto subtractedIntervals = interval.getSubtracted(otherInterval, diagonalPositions);
                     
@@ -51,8 +52,9 @@ namespace PetriEngine {
                         break;                           
                     }
 
-                    if(intervalSubRes.empty()){
+                    if(first){
                         intervalSubRes = subtractedIntervals;
+                        first = false;
                     } else {
                         interval_vector_t newIntervals;
                         for(const auto& newInterval : subtractedIntervals){
diff --git a/src/PetriEngine/Colored/EquivalenceVec.cpp b/src/PetriEngine/Colored/EquivalenceVec.cpp
index 3ce94bb..8b266fb 100644
--- a/src/PetriEngine/Colored/EquivalenceVec.cpp
+++ b/src/PetriEngine/Colored/EquivalenceVec.cpp
@@ -34,14 +34,6 @@ namespace PetriEngine {
         }
 
         void EquivalenceVec::mergeEqClasses(){
-            const auto contained = [&](const EquivalenceClass &inner, const EquivalenceClass &outer){
-                for(const auto &interval : inner.intervals()){
-                    if(!outer.intervals().contains(interval, _diagonalTuplePositions)){
-                        return false;
-                    }
-                }
-                return true;
-            };
             const auto overlap = [&](const EquivalenceClass &left, const EquivalenceClass &right){
                 for(const auto &leftInterval : left.intervals()){
                     for(const auto &rightInterval : right.intervals()){
@@ -59,10 +51,7 @@ namespace PetriEngine {
             };
             for(int32_t i = _equivalenceClasses.size()-1; i >= 1; i--){
                 for(int32_t j = i-1; j >= 0; j--){
-                    if(contained(_equivalenceClasses[i], _equivalenceClasses[j]) && contained(_equivalenceClasses[j], _equivalenceClasses[i])){
-                        _equivalenceClasses.erase(_equivalenceClasses.begin() + i);
-                        break;
-                    } else if(overlap(_equivalenceClasses[i], _equivalenceClasses[j])){
+                    if(overlap(_equivalenceClasses[i], _equivalenceClasses[j])){
                         //The classes differ for some colors of the diagonal positions only
                         _diagonal = true;
                         return;
diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index 9d09f37..a229910 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -2,6 +2,7 @@
 #include "PetriEngine/Colored/OutputIntervalVisitor.h"
 #include "PetriEngine/Colored/RestrictVisitor.h"
 #include "PetriEngine/Colored/ArcIntervalVisitor.h"
+#include <algorithm>
 #include <numeric>
 #include <chrono>
 
@@ -280,12 +281,26 @@ namespace PetriEngine {
             //based on the intervals from the postPlace, the postArc, preArc and guard
             auto outIntervals = OutputIntervalVisitor::intervals(*inArc.expr, varMaps);
             EquivalenceVec newEqVec;
+            const auto *type = _partition[inArc.place].getEquivalenceClasses().back().type();
+            const auto diagonalPositions = _partition[inArc.place].getDiagonalTuplePositions();
             for(auto& intervalTuple : outIntervals){
                 intervalTuple.simplify();
-                EquivalenceClass newEqClass(++_eq_id_counter, _partition[inArc.place].getEquivalenceClasses().back().type(), std::move(intervalTuple));
-                newEqVec.push_back_Eqclass(std::move(newEqClass));
+                if(std::find(diagonalPositions.begin(), diagonalPositions.end(), true) == diagonalPositions.end()){
+                    newEqVec.push_back_Eqclass(EquivalenceClass(++_eq_id_counter, type, std::move(intervalTuple)));
+                    continue;
+                }
+                //A class does not tell the colors of a diagonal position apart
+                for(auto& interval : intervalTuple){
+                    if(!interval.isSound()) continue;
+                    for(uint32_t i = 0; i < interval.size(); ++i){
+                        if(diagonalPositions[i]) interval[i] = type->getFullInterval()[i];
+                    }
+                    EquivalenceClass newEqClass(++_eq_id_counter, type);
+                    newEqClass.addInterval(std::move(interval));
+                    newEqVec.push_back_Eqclass(std::move(newEqClass));
+                }
             }
-            newEqVec.setDiagonalTuplePositions(_partition[inArc.place].getDiagonalTuplePositions());
+            newEqVec.setDiagonalTuplePositions(diagonalPositions);
 
             //If the prePlace has not been marked as diagonal, then split the current partitions based on the new intervals
             if(splitPartition(std::move(newEqVec), inArc.place)){
-- 
2.43.0


From b111a99edaef5877c249c5ab87efcfcde169c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:59 +0000
Subject: [PATCH 102/111] fix: liveness queries of coloured nets with a
 transition that has no bindings

---
 src/PetriEngine/PQL/Analyze.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/PQL/Analyze.cpp b/src/PetriEngine/PQL/Analyze.cpp
index 3dce70a..a94941f 100644
--- a/src/PetriEngine/PQL/Analyze.cpp
+++ b/src/PetriEngine/PQL/Analyze.cpp
@@ -325,7 +325,7 @@ namespace PetriEngine { namespace PQL {
                 std::vector<Condition_ptr> disj;
                 for(auto& tn : n.second)
                     disj.emplace_back(std::make_shared<UnfoldedFireableCondition>(tn));
-                quasi.emplace_back(std::make_shared<EFCondition>(std::make_shared<OrCondition>(std::move(disj))));
+                quasi.emplace_back(std::make_shared<EFCondition>(makeOr(disj)));
             }
         }
         else
@@ -355,7 +355,7 @@ namespace PetriEngine { namespace PQL {
                 std::vector<Condition_ptr> disj;
                 for(auto& tn : n.second)
                     disj.emplace_back(std::make_shared<UnfoldedFireableCondition>(tn));
-                liveness.emplace_back(std::make_shared<AGCondition>(std::make_shared<EFCondition>(std::make_shared<OrCondition>(std::move(disj)))));
+                liveness.emplace_back(std::make_shared<AGCondition>(std::make_shared<EFCondition>(makeOr(disj))));
             }
         }
         else
-- 
2.43.0


From 8d24e2770e9577ce58416f4859296e43c4ffd3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 103/111] fix: a place that an output arc makes diagonal is
 handled again by colour partitioning

---
 include/PetriEngine/Colored/PartitionBuilder.h | 2 +-
 src/PetriEngine/Colored/PartitionBuilder.cpp   | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/PetriEngine/Colored/PartitionBuilder.h b/include/PetriEngine/Colored/PartitionBuilder.h
index 1cfc710..07ef798 100644
--- a/include/PetriEngine/Colored/PartitionBuilder.h
+++ b/include/PetriEngine/Colored/PartitionBuilder.h
@@ -70,7 +70,7 @@ namespace PetriEngine {
 
                 void applyNewIntervals(const Arc &inArc, const std::vector<PetriEngine::Colored::VariableIntervalMap> &varMaps);
 
-                void checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, bool inputArc);
+                void checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
 
                 void checkVarOnInputArcs(const std::unordered_map<uint32_t,PositionVariables> &placeVariableMap, const PositionVariables &preVarPositionMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId);
 
diff --git a/src/PetriEngine/Colored/PartitionBuilder.cpp b/src/PetriEngine/Colored/PartitionBuilder.cpp
index a229910..d58793f 100644
--- a/src/PetriEngine/Colored/PartitionBuilder.cpp
+++ b/src/PetriEngine/Colored/PartitionBuilder.cpp
@@ -143,7 +143,7 @@ namespace PetriEngine {
 
         //Check if a variable appears more than once on the output arc
         //If the place is does not have a product colortype mark the whole place as diagonal, otherwise only the positions
-        void PartitionBuilder::checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId, bool inputArc){
+        void PartitionBuilder::checkVarOnArc(const VariableModifierMap &varModifierMap, std::set<const Colored::Variable*> &diagonalVars, uint32_t placeId){
             for(const auto &varModMap : varModifierMap){
                 std::vector<uint32_t> positions;
                 size_t occurrences = 0;
@@ -159,11 +159,12 @@ namespace PetriEngine {
                 if(occurrences > 1) {
                     diagonalVars.insert(varModMap.first);
                     if(_partition[placeId].getEquivalenceClasses().back().type()->productSize() == 1){
+                        if(!_partition[placeId].isDiagonal()) addToQueue(placeId);
                         _partition[placeId].setDiagonal(true);
                     } else {
                         for(auto pos : positions){
                             if(!_partition[placeId].getDiagonalTuplePositions()[pos]){
-                                if(inputArc) addToQueue(placeId);
+                                addToQueue(placeId);
                                 _partition[placeId].setDiagonalTuplePosition(pos,true);
                             }
                         }
@@ -319,7 +320,7 @@ namespace PetriEngine {
 
             Colored::VariableVisitor::get_variables(*postArc->expr, postArcVars, varPositionMap, varModifierMap, true);
 
-            checkVarOnArc(varModifierMap, diagonalVars, postPlaceId, false);
+            checkVarOnArc(varModifierMap, diagonalVars, postPlaceId);
 
             //The colors of the post place do not restrict a variable that only occurs in a subtraction
             std::set<const PetriEngine::Colored::Variable *> addedVars;
@@ -386,7 +387,7 @@ namespace PetriEngine {
 
                 markSharedVars(preVarPositionMap, varPositionMap, postPlaceId, inArc.place);
                 if(checkDiagonal(inArc.place)) continue;
-                checkVarOnArc(preVarModifierMap, diagonalVars, inArc.place, true);
+                checkVarOnArc(preVarModifierMap, diagonalVars, inArc.place);
                 if(checkDiagonal(inArc.place)) continue;
 
                 checkVarInGuard(preVarPositionMap, diagonalVars, inArc.place);
-- 
2.43.0


From 1ed539926aa17cbd99b3cacbee53868476be23c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 104/111] fix: every controllable transition that may enable
 the environment is unsafe for game reductions

---
 src/PetriEngine/Synthesis/GameStubbornSet.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/PetriEngine/Synthesis/GameStubbornSet.cpp b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
index 649ecc4..e7af7db 100644
--- a/src/PetriEngine/Synthesis/GameStubbornSet.cpp
+++ b/src/PetriEngine/Synthesis/GameStubbornSet.cpp
@@ -94,7 +94,6 @@ namespace PetriEngine {
                                     continue;
                                 // has to be consuming
                                 _safe_actions[id] = false;
-                                break;
                             }
                         }
                     } else {
@@ -106,7 +105,6 @@ namespace PetriEngine {
                                 if (!_net.controllable(id))
                                     continue;
                                 _safe_actions[id] = false;
-                                break;
                             }
                         }
                     }
-- 
2.43.0


From 8f77ea7ec26070b463a8f03d6720171a41c26276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 105/111] fix: wrap colour intervals correctly when a modifier
 leads around the colour type more than once

---
 include/PetriEngine/Colored/Intervals.h       | 6 +++---
 src/PetriEngine/Colored/GuardRestrictor.cpp   | 3 +--
 src/PetriEngine/Colored/IntervalGenerator.cpp | 5 +----
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/PetriEngine/Colored/Intervals.h b/include/PetriEngine/Colored/Intervals.h
index 140b343..a91f5e7 100644
--- a/include/PetriEngine/Colored/Intervals.h
+++ b/include/PetriEngine/Colored/Intervals.h
@@ -20,6 +20,7 @@
 #define INTERVALS_H
 
 #include "../TAR/range.h"
+#include "utils/MathExt.h"
 #include <set>
 #include <unordered_map>
 #include <chrono>
@@ -308,9 +309,8 @@ namespace PetriEngine {
             }
 
             static std::pair<uint32_t,uint32_t> shiftInterval(uint32_t lower, uint32_t upper, uint32_t ctSize, int32_t modifier) {
-                int32_t lower_val = ctSize + (lower + modifier);
-                int32_t upper_val = ctSize + (upper + modifier);
-                return std::make_pair(lower_val % ctSize, upper_val % ctSize);
+                //A modifier can lead around the color type more than once
+                return std::make_pair(addColorOffset(lower, modifier, ctSize), addColorOffset(upper, modifier, ctSize));
             }
 
             bool hasValidIntervals() const {
diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 12834e9..62fda20 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -37,8 +37,7 @@ namespace PetriEngine{
         interval_t GuardRestrictor::getIntervalFromIds(const std::vector<uint32_t> &idVec, uint32_t ctSize, int32_t modifier) {
             interval_t interval;
             for(auto id : idVec){
-                int32_t val = ctSize + (id + modifier);
-                auto colorVal = val % ctSize;
+                auto colorVal = addColorOffset(id, modifier, ctSize);
                 interval.addRange(colorVal,colorVal);
             }
             return interval;
diff --git a/src/PetriEngine/Colored/IntervalGenerator.cpp b/src/PetriEngine/Colored/IntervalGenerator.cpp
index 75abffc..08dc66b 100644
--- a/src/PetriEngine/Colored/IntervalGenerator.cpp
+++ b/src/PetriEngine/Colored/IntervalGenerator.cpp
@@ -27,10 +27,7 @@ namespace PetriEngine {
             assert(varPosition + varColorTypes.size() <= interval.size());
             for(uint32_t i = varPosition; i < varPosition + varColorTypes.size(); i++){
                 auto ctSize = varColorTypes[i - varPosition]->size();
-                int32_t lower_val = ctSize + (interval[i]._lower + varModifier);
-                int32_t upper_val = ctSize + (interval[i]._upper + varModifier);
-                uint32_t lower = lower_val % ctSize;
-                uint32_t upper = upper_val % ctSize;
+                auto [lower, upper] = interval_vector_t::shiftInterval(interval[i]._lower, interval[i]._upper, ctSize, varModifier);
 
                 if(lower > upper ){
                     if(lower == upper+1){
-- 
2.43.0


From 9183cf3fb96c7b5dc80360494ed36b2655b63e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:41 +0000
Subject: [PATCH 106/111] fix: take the sign of a factor into account when
 finding the transitions that change an expression

---
 src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index f025b77..9284c3a 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -311,7 +311,7 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::MultiplyExpr *element)
     {
-        if ((element->places().size() + element->expressions().size()) == 1) {
+        if (element->constant() >= 0 && (element->places().size() + element->expressions().size()) == 1) {
             for (auto &i : element->places()) _stubborn.presetOf(i.first, closure);
             for (auto &e : element->expressions()) Visitor::visit(this, e);
         } else {
@@ -328,7 +328,7 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::DecrVisitor::_accept(const PQL::MultiplyExpr *element)
     {
-        if ((element->places().size() + element->expressions().size()) == 1) {
+        if (element->constant() >= 0 && (element->places().size() + element->expressions().size()) == 1) {
             for (auto &i : element->places()) _stubborn.postsetOf(i.first, closure);
             for (auto &e : element->expressions()) Visitor::visit(this, e);
         } else
@@ -337,12 +337,12 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::MinusExpr *element)
     {
-        // TODO not implemented
+        Visitor::visit(decr, (*element)[0]);
     }
 
     void InterestingTransitionVisitor::DecrVisitor::_accept(const PQL::MinusExpr *element)
     {
-        // TODO not implemented
+        Visitor::visit(incr, (*element)[0]);
     }
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::LiteralExpr *element)
-- 
2.43.0


From b40d062cc230c6fce656554a8b7aa03809f8938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:58 +0000
Subject: [PATCH 107/111] fix: a query file that cannot be opened ends the run

---
 src/VerifyPN.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/VerifyPN.cpp b/src/VerifyPN.cpp
index c949880..7220aa6 100644
--- a/src/VerifyPN.cpp
+++ b/src/VerifyPN.cpp
@@ -269,10 +269,7 @@ readQueries(shared_string_set& string_set, options_t& options, std::vector<std::
         //Open query file
         std::ifstream qfile(options.queryfile, std::ifstream::in);
         if (!qfile) {
-            fprintf(stderr, "Error: Query file \"%s\" couldn't be opened\n", options.queryfile);
-            fprintf(stdout, "CANNOT_COMPUTE\n");
-            conditions.clear();
-            return conditions;
+            throw base_error("CANNOT_COMPUTE\nError: Query file \"", options.queryfile, "\" couldn't be opened");
         }
 
         if (options.querynumbers.size() == 0) {
-- 
2.43.0


From 2caa0197829b755b2e1a889f1e34b9db70978447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:17 +0000
Subject: [PATCH 108/111] fix: products of place bounds do not overflow in the
 interval analysis of games

---
 include/PetriEngine/Synthesis/IntervalVisitor.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/PetriEngine/Synthesis/IntervalVisitor.h b/include/PetriEngine/Synthesis/IntervalVisitor.h
index 0266c24..973b2dd 100644
--- a/include/PetriEngine/Synthesis/IntervalVisitor.h
+++ b/include/PetriEngine/Synthesis/IntervalVisitor.h
@@ -289,9 +289,17 @@ namespace PetriEngine {
             template<typename T>
             std::pair<T,T> multiply(const std::pair<T,T> a, const std::pair<T,T> b)
             {
-                auto lb = a.first * b.first;
+                // the bounds of a place can be as large as a marking gets, so a product of them is capped
+                auto product = [](T x, T y) {
+                    constexpr T limit = std::numeric_limits<T>::max() / 1024;
+                    T res;
+                    if(__builtin_mul_overflow(x, y, &res))
+                        return (x < 0) == (y < 0) ? limit : -limit;
+                    return std::max(-limit, std::min(limit, res));
+                };
+                auto lb = product(a.first, b.first);
                 auto ub = lb;
-                for(auto v : {a.first* b.second, a.second*b.first, a.second*b.second})
+                for(auto v : {product(a.first, b.second), product(a.second, b.first), product(a.second, b.second)})
                 {
                     lb = std::min(lb, v);
                     ub = std::max(ub, v);
-- 
2.43.0


From 5792536493d43719c3ef9750f51445bcf9c8287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 109/111] fix: colour fixed point notices subtractions inside
 sums and products

---
 include/PetriEngine/Colored/Expressions.h          | 9 +++++++++
 src/PetriEngine/Colored/ColoredPetriNetBuilder.cpp | 8 ++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/PetriEngine/Colored/Expressions.h b/include/PetriEngine/Colored/Expressions.h
index 14d7d13..ab692ba 100644
--- a/include/PetriEngine/Colored/Expressions.h
+++ b/include/PetriEngine/Colored/Expressions.h
@@ -411,6 +411,13 @@ namespace PetriEngine {
                 return _constituents.back();
             }
 
+            bool is_subtraction() const override {
+                for (const auto& expr : _constituents) {
+                    if (expr->is_subtraction()) return true;
+                }
+                return false;
+            }
+
             AddExpression(std::vector<ArcExpression_ptr> &&constituents)
                     : _constituents(std::move(constituents)) {}
 
@@ -470,6 +477,8 @@ namespace PetriEngine {
                 return _expr;
             }
 
+            bool is_subtraction() const override { return _expr->is_subtraction(); }
+
             ScalarProductExpression(ArcExpression_ptr&& expr, uint32_t scalar)
                     : _scalar(std::move(scalar)), _expr(expr) {}
 
diff --git a/src/PetriEngine/Colored/ColoredPetriNetBuilder.cpp b/src/PetriEngine/Colored/ColoredPetriNetBuilder.cpp
index 594d6fe..26f76d9 100644
--- a/src/PetriEngine/Colored/ColoredPetriNetBuilder.cpp
+++ b/src/PetriEngine/Colored/ColoredPetriNetBuilder.cpp
@@ -131,6 +131,10 @@ namespace PetriEngine {
         if (!input) assert(expr != nullptr);
         assert((expr == nullptr) != (inhib_weight == 0));
 
+        if (input && expr && expr->is_subtraction()) {
+            _places[p].hasSubtractionInputArc = true;
+        }
+
         // Modify arc if it already exists
         if (inhib_weight > 0) {
             for (PetriEngine::Colored::Arc& arc : _inhibitorArcs) {
@@ -174,10 +178,6 @@ namespace PetriEngine {
         arc.input = input;
         arc.inhib_weight = inhib_weight;
 
-        if (input && expr && expr->is_subtraction()) {
-            _places[p].hasSubtractionInputArc = true;
-        }
-
         if (inhib_weight > 0) {
             _inhibitorArcs.push_back(std::move(arc));
         } else if (input) {
-- 
2.43.0


From 0ec7aef16f11c757686018b1f3620b4953428dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:57 +0000
Subject: [PATCH 110/111] fix: reduction rule B must not merge several firings
 of a consumer with other inputs

---
 src/PetriEngine/Reducer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 2fdc32a..c1e52b4 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -481,6 +481,10 @@ namespace PetriEngine {
 
                 size_t multiplier = outArc->weight / inArc->weight;
 
+                // when the consumer also needs other tokens, it cannot always fire several times at once
+                if(multiplier != 1 && in.pre.size() != 1)
+                    continue;
+
                 // B4. Do inhibitor check, neither In, out or place can be involved with any inhibitor
                 if(place.inhib || in.inhib || out.inhib)
                     continue;
-- 
2.43.0


From 59f4ae594ccd9d54c1c2a6fc16e9643edf72aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:12 +0000
Subject: [PATCH 111/111] fix: coloured relevance rule keeps what changes the
 inputs and inhibitors of every query transition

---
 .../Colored/Reduction/RedRuleRelevance.cpp    | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/PetriEngine/Colored/Reduction/RedRuleRelevance.cpp b/src/PetriEngine/Colored/Reduction/RedRuleRelevance.cpp
index 690ed04..be7d40d 100644
--- a/src/PetriEngine/Colored/Reduction/RedRuleRelevance.cpp
+++ b/src/PetriEngine/Colored/Reduction/RedRuleRelevance.cpp
@@ -47,13 +47,15 @@ namespace PetriEngine::Colored::Reduction {
         }
 
         for (uint32_t tid = 0; tid < red.transitionCount(); tid++) {
-            if (!red._tflags[tid] && inQuery.isTransitionUsed(tid)) {
-                wtrans.push_back(tid);
-                red._tflags[tid] = true;
-                // All places that a query transition consumes from should be treated as being in the query too.
-                for (const auto& arc : red.transitions()[tid].input_arcs){
-                    red._pflags[arc.place] = true;
-                    const Place &place = red.places()[arc.place];
+            if (inQuery.isTransitionUsed(tid)) {
+                if (!red._tflags[tid]) {
+                    wtrans.push_back(tid);
+                    red._tflags[tid] = true;
+                }
+                // All places that a query transition consumes from, or is inhibited by, should be treated as being in the query too.
+                auto usePlace = [&](uint32_t pid) {
+                    red._pflags[pid] = true;
+                    const Place &place = red.places()[pid];
                     for (auto t : place._post) {
                         if (!red._tflags[t]) {
                             wtrans.push_back(t);
@@ -66,6 +68,14 @@ namespace PetriEngine::Colored::Reduction {
                             red._tflags[t] = true;
                         }
                     }
+                };
+                for (const auto& arc : red.transitions()[tid].input_arcs){
+                    usePlace(arc.place);
+                }
+                for (const auto& inhibitor : red.inhibitorArcs()) {
+                    if (inhibitor.transition == tid) {
+                        usePlace(inhibitor.place);
+                    }
                 }
             }
         }
-- 
2.43.0

