From c0ad91e75ffdc3e9ada8263f2d1c3b7da8c4f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 01/79] fix: keep the duplicate argument in the reduction of
 @(2, [x, x, z])

---
 src/pdag.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdag.cc b/src/pdag.cc
index 7c9e6a9..a979f4d 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -366,7 +366,8 @@ void Gate::ProcessAtleastGateDuplicateArg(int index) noexcept {
   assert(args_.size() >= min_number_);
   if (args_.size() == 2) {  // @(2, [x, x, z]) = x
     assert(min_number_ == 2);
-    this->EraseArg(index);
+    // Only the duplicate argument must stay.
+    this->EraseArg(*args_.begin() == index ? *args_.rbegin() : *args_.begin());
     this->type(kNull);
     return;
   }
-- 
2.43.0


From cb4819bd0def3daeb86754cb69e101c88bf74b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 02/79] fix: release the module root before NULL gate removal
 in Boolean optimization

---
 src/preprocessor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 9a03e14..aa56963 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1872,6 +1872,7 @@ void Preprocessor::ProcessCommonNode(
   }
   ClearStateMarks(root);
   node->opti_value(0);
+  root.reset();  // The module may have become constant; don't keep it alive.
   graph_->RemoveNullGates();
 }
 
-- 
2.43.0


From e0ea04906da3791d4994cc4b4833a81d3e9e3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 03/79] fix: always clean NULL gates after filtering of merge
 candidates

---
 src/preprocessor.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index aa56963..894340d 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1121,19 +1121,18 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
   std::vector<GateWeakPtr> modules = GatherModules();
   graph_->Clear<Pdag::kGateMark>();
   LOG(DEBUG4) << "Working with " << modules.size() << " modules...";
-  bool changed = false;
-  for (const auto& module : modules) {
-    if (module.expired())
-      continue;
-    GatePtr root = module.lock();
+  // Merges common arguments within a module.
+  // No strong references to the gates outlive the call.
+  auto merge_module = [this, op](const GatePtr& root) {
     MergeTable::Candidates candidates;
     GatherCommonArgs(root, op, &candidates);
     graph_->Clear<Pdag::kGateMark>(root);
     if (candidates.size() < 2)
-      continue;
+      return false;
     FilterMergeCandidates(&candidates);
     if (candidates.size() < 2)
-      continue;
+      return false;
+    bool changed = false;
     std::vector<MergeTable::Candidates> groups;
     GroupCandidatesByArgs(&candidates, &groups);
     for (const auto& group : groups) {
@@ -1152,6 +1151,14 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
         TransformCommonArgs(&member_group);
       }
     }
+    return changed;
+  };
+  bool changed = false;
+  for (const auto& module : modules) {
+    if (module.expired())
+      continue;
+    changed |= merge_module(module.lock());
+    // The candidate filtering may produce NULL gates even without merging.
     graph_->RemoveNullGates();
   }
   return changed;
-- 
2.43.0


From 5bf24e671b2b46fd88bb835edaf151a0daca5dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 04/79] fix: construct well-formed gates for single-argument
 cardinality

---
 src/pdag.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index a979f4d..f688e12 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -681,6 +681,8 @@ GatePtr Pdag::ConstructComplexGate(const mef::Formula& formula, bool ccf,
       auto well_form = [](Gate* atleast) {
         if (atleast->min_number() == 0) {
           atleast->MakeConstant(true);
+        } else if (atleast->args().size() == 1) {
+          atleast->type(kNull);
         } else if (atleast->min_number() == 1) {
           atleast->type(kOr);
         } else if (atleast->min_number() == atleast->args().size()) {
-- 
2.43.0


From cb85e5348586469987df8b1df3dfd548ef8cf892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 05/79] fix: register a demoted pass-through root gate for
 removal

---
 src/preprocessor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 894340d..10c139f 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -2087,6 +2087,8 @@ void Preprocessor::ProcessStateDestinations(
       ReplaceGate(target, new_gate);
     }
     new_gate->AddArg(target);  // Only after replacing target!
+    if (target->type() == kNull)
+      target->type(kNull);  // The pass-through root is demoted; register it.
     new_gate->descendant(node->index());  // Preserve continuity.
   }
 }
-- 
2.43.0


From a60f17f145a11d96800a5051204e34840292f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 06/79] fix: mark a promoted root gate as a module

---
 src/pdag.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index f688e12..1338cc6 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -776,6 +776,8 @@ bool Pdag::IsTrivial() noexcept {
     root_ = root_->args<Gate>().begin()->second;  // Destroy the previous root.
     assert(root_->parents().empty() && !root_->constant() &&
            root_->type() != kNull);
+    if (!root_->module())
+      root_->module(true);  // The root is an independent sub-graph.
     complement() ^= signed_index < 0;
     return false;
   }
-- 
2.43.0


From e4e5356b83e2cc51254fa3a16094c82fc839cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 07/79] fix: do not create BDD proxies for terminal modules

---
 src/bdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd.cc b/src/bdd.cc
index acb4448..6559b78 100644
--- a/src/bdd.cc
+++ b/src/bdd.cc
@@ -155,7 +155,7 @@ Bdd::Function Bdd::ConvertGraph(
   }
   for (const Gate::ConstArg<Gate>& arg : gate.args<Gate>()) {
     Function res = ConvertGraph(arg.second, gates);
-    if (arg.second.module()) {
+    if (arg.second.module() && !res.vertex->terminal()) {
       args.push_back(
           {arg.first < 0, FindOrAddVertex(arg.second, kOne_, kOne_, true)});
     } else {
-- 
2.43.0


From 0600df853a8db2e89acd119cfc786a18cf9517e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 08/79] fix: account for the complement root in the marginal
 importance factor

---
 src/importance_analysis.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 8e7bff9..4225438 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -80,6 +80,8 @@ double ImportanceAnalyzer<Bdd>::CalculateMif(int index) noexcept {
   int order = bdd_graph_->index_to_order().find(index)->second;
   double mif = CalculateMif(root, order, !original_mark);
   bdd_graph_->ClearMarks(original_mark);
+  if (bdd_graph_->root().complement)
+    mif = -mif;
   return mif;
 }
 
-- 
2.43.0


From 3379e17ae68f98e4c4232a9cf0e3e4422662fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 09/79] fix: accept CCF groups with only the level 1 factor

---
 src/ccf_group.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ccf_group.cc b/src/ccf_group.cc
index f5cf57c..fb4ee27 100644
--- a/src/ccf_group.cc
+++ b/src/ccf_group.cc
@@ -148,7 +148,7 @@ void CcfGroup::ApplyModel() {
   }
 
   ExpressionMap probabilities = this->CalculateProbabilities();
-  assert(probabilities.size() > 1);
+  assert(!probabilities.empty());
 
   // Generate CCF events.
   for (auto& [level, prob] : probabilities) {
@@ -176,8 +176,11 @@ void CcfGroup::ApplyModel() {
 
   // Assign formulas to the proxy gates.
   for (std::pair<Gate*, Formula::ArgSet>& gate : proxy_gates) {
-    assert(gate.second.size() >= 2);
-    gate.first->formula(std::make_unique<Formula>(kOr, std::move(gate.second)));
+    assert(gate.second.size() >= 1);
+    // The factors may describe only independent failures (i.e., level 1).
+    Connective connective = gate.second.size() == 1 ? kNull : kOr;
+    gate.first->formula(
+        std::make_unique<Formula>(connective, std::move(gate.second)));
   }
 }
 
@@ -256,7 +259,9 @@ CcfGroup::ExpressionMap AlphaFactorModel::CalculateProbabilities() {
     sum_args.emplace_back(CcfGroup::Register<Mul>(
         {CcfGroup::Register<ConstantExpression>(factor.first), factor.second}));
   }
-  Expression* sum = CcfGroup::Register<Add>(std::move(sum_args));
+  Expression* sum = sum_args.size() == 1
+                        ? sum_args.front()
+                        : CcfGroup::Register<Add>(std::move(sum_args));
   int num_members = CcfGroup::members().size();
 
   for (int i = 0; i < max_level; ++i) {
-- 
2.43.0


From 28998fab20d91a03d8ef0ce26ff804b3635d0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 10/79] fix: make CCF group members available for references by
 path

---
 src/initializer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/initializer.cc b/src/initializer.cc
index 8ec668b..34bff56 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -1271,7 +1271,9 @@ void Initializer::ProcessCcfMembers(const xml::Element& members_node,
       err << boost::errinfo_at_line(event_node.line());
       throw;
     }
+    auto* member = basic_event.get();
     Register(std::move(basic_event), event_node);
+    path_basic_events_.insert(member);
   }
 }
 
-- 
2.43.0


From aa19f315a70a383dd3fee2c195b78f9c6d28bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 11/79] fix: reject alpha-factor CCF groups with only zero
 factors

---
 src/ccf_group.cc | 9 +++++++++
 src/ccf_group.h  | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/ccf_group.cc b/src/ccf_group.cc
index fb4ee27..919d029 100644
--- a/src/ccf_group.cc
+++ b/src/ccf_group.cc
@@ -250,6 +250,15 @@ CcfGroup::ExpressionMap MglModel::CalculateProbabilities() {
   return probabilities;
 }
 
+void AlphaFactorModel::DoValidate() const {
+  double sum = 0;
+  for (const std::pair<int, Expression*>& factor : CcfGroup::factors())
+    sum += factor.second->value();
+  if (sum <= 0)
+    SCRAM_THROW(
+        ValidityError("The factors for Alpha model CCF must not sum to 0."));
+}
+
 CcfGroup::ExpressionMap AlphaFactorModel::CalculateProbabilities() {
   ExpressionMap probabilities;
   int max_level = CcfGroup::factors().back().first;
diff --git a/src/ccf_group.h b/src/ccf_group.h
index 4ce7ff2..dc6c168 100644
--- a/src/ccf_group.h
+++ b/src/ccf_group.h
@@ -236,6 +236,11 @@ class AlphaFactorModel : public CcfGroup {
   using CcfGroup::CcfGroup;
 
  private:
+  /// Alpha factors are normalized by their sum.
+  ///
+  /// @throws ValidityError  There are no non-zero factors.
+  void DoValidate() const override;
+
   ExpressionMap CalculateProbabilities() override;
 };
 
-- 
2.43.0


From efa789207317b32f21c7f05b8c79f9ad377a894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 12/79] fix: keep periodic test probabilities in the domain
 despite rounding

---
 src/expression/exponential.cc | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index bbe1d0a..a0da6f5 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -22,6 +22,8 @@
 
 #include <cmath>
 
+#include <algorithm>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -228,6 +230,11 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
   double p_repair = 0;
   double p_available = 1 - p_fail;
 
+  // Keeps probabilities in the domain despite floating-point rounding errors.
+  auto correct_rounding = [](double prob) {
+    return std::min(std::max(prob, 0.0), 1.0);
+  };
+
   // Failure after repair.
   auto p_mu_lambda = [&](double p_mu, double p_lambda, double t) {
     return p_mu * omega + (1 - omega) * p_exp(p_mu, p_lambda, mu, lambda, t);
@@ -237,25 +244,20 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
                     double t, bool available = true) {
     double p_fail_transient =
         p_fail + p_available * (gamma + (1 - gamma) * p_lambda_test);
-    p_fail = p_repair * p_mu_lambda(p_mu, p_lambda, t) +
-             (1 - sigma) * p_fail_transient;
-    p_repair = (1 - p_mu) * p_repair + sigma * p_fail_transient;
-    p_available =
+    p_fail = correct_rounding(p_repair * p_mu_lambda(p_mu, p_lambda, t) +
+                              (1 - sigma) * p_fail_transient);
+    p_repair =
+        correct_rounding((1 - p_mu) * p_repair + sigma * p_fail_transient);
+    p_available = correct_rounding(
         1 - p_fail - p_repair -
-        (available ? 0 : p_available * (1 - gamma) * (1 - p_lambda_test));
-    assert(p_repair >= 0 && p_repair <= 1);
-    assert(p_fail >= 0 && p_fail <= 1);
-    assert(p_available >= 0);
+        (available ? 0 : p_available * (1 - gamma) * (1 - p_lambda_test)));
   };
   // Time after test.
   auto p_period = [&](double p_lambda, double p_mu, double t) {
-    p_fail = p_available * p_lambda + p_fail +
-             p_repair * p_mu_lambda(p_mu, p_lambda, t);
+    p_fail = correct_rounding(p_available * p_lambda + p_fail +
+                              p_repair * p_mu_lambda(p_mu, p_lambda, t));
     p_repair = p_repair * (1 - p_mu);
-    p_available = 1 - p_fail - p_repair;
-    assert(p_repair >= 0 && p_repair <= 1);
-    assert(p_fail >= 0 && p_fail <= 1);
-    assert(p_available >= 0);
+    p_available = correct_rounding(1 - p_fail - p_repair);
   };
 
   double delta = time - theta;
-- 
2.43.0


From 646293e2a2dd785c328efd6ff999e400ef32ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 13/79] fix: reject not-a-number arguments of expressions and
 distributions

---
 src/expression.cc                |  6 +++---
 src/expression/random_deviate.cc | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/expression.cc b/src/expression.cc
index c22f9ad..4d1690d 100644
--- a/src/expression.cc
+++ b/src/expression.cc
@@ -74,7 +74,7 @@ std::string ToString(const Interval& interval) {
 
 void EnsureProbability(Expression* expression, const char* type) {
   double value = expression->value();
-  if (value < 0 || value > 1)
+  if (!(value >= 0 && value <= 1))
     SCRAM_THROW(DomainError("Invalid " + std::string(type) + " value"))
         << errinfo_value(std::to_string(value));
 
@@ -88,7 +88,7 @@ void EnsurePositive(Expression* expression, const char* description) {
   using namespace std::string_literals;  // NOLINT
 
   double value = expression->value();
-  if (value <= 0)
+  if (!(value > 0))
     SCRAM_THROW(DomainError(description + " argument value must be positive."s))
         << errinfo_value(std::to_string(value));
 
@@ -103,7 +103,7 @@ void EnsureNonNegative(Expression* expression, const char* description) {
   using namespace std::string_literals;  // NOLINT
 
   double value = expression->value();
-  if (value < 0)
+  if (!(value >= 0))
     SCRAM_THROW(
         DomainError(description + " argument value cannot be negative."s))
         << errinfo_value(std::to_string(value));
diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index fb5e810..ad21942 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -42,7 +42,7 @@ UniformDeviate::UniformDeviate(Expression* min, Expression* max)
     : RandomDeviate({min, max}), min_(*min), max_(*max) {}
 
 void UniformDeviate::Validate() const {
-  if (min_.value() >= max_.value()) {
+  if (!(min_.value() < max_.value())) {
     SCRAM_THROW(
         ValidityError("Min value is more than max for Uniform distribution."));
   }
@@ -57,7 +57,7 @@ NormalDeviate::NormalDeviate(Expression* mean, Expression* sigma)
     : RandomDeviate({mean, sigma}), mean_(*mean), sigma_(*sigma) {}
 
 void NormalDeviate::Validate() const {
-  if (sigma_.value() <= 0) {
+  if (!(sigma_.value() > 0)) {
     SCRAM_THROW(DomainError("Standard deviation cannot be negative or zero."));
   }
 }
@@ -77,12 +77,12 @@ LognormalDeviate::LognormalDeviate(Expression* mu, Expression* sigma)
       flavor_(new LognormalDeviate::Normal(mu, sigma)) {}
 
 void LognormalDeviate::Logarithmic::Validate() const {
-  if (level_.value() <= 0 || level_.value() >= 1) {
+  if (!(level_.value() > 0 && level_.value() < 1)) {
     SCRAM_THROW(DomainError("The confidence level is not within (0, 1)."));
-  } else if (ef_.value() <= 1) {
+  } else if (!(ef_.value() > 1)) {
     SCRAM_THROW(DomainError(
         "The Error Factor for Log-Normal distribution cannot be less than 1."));
-  } else if (mean_.value() <= 0) {
+  } else if (!(mean_.value() > 0)) {
     SCRAM_THROW(DomainError(
         "The mean of Log-Normal distribution cannot be negative or zero."));
   }
@@ -108,7 +108,7 @@ double LognormalDeviate::Logarithmic::location() noexcept {
 }
 
 void LognormalDeviate::Normal::Validate() const {
-  if (sigma_.value() <= 0)
+  if (!(sigma_.value() > 0))
     SCRAM_THROW(DomainError("Standard deviation cannot be negative or zero."));
 }
 
@@ -120,11 +120,11 @@ GammaDeviate::GammaDeviate(Expression* k, Expression* theta)
     : RandomDeviate({k, theta}), k_(*k), theta_(*theta) {}
 
 void GammaDeviate::Validate() const {
-  if (k_.value() <= 0) {
+  if (!(k_.value() > 0)) {
     SCRAM_THROW(
         DomainError("The k shape parameter for Gamma distribution"
                     " cannot be negative or zero."));
-  } else if (theta_.value() <= 0) {
+  } else if (!(theta_.value() > 0)) {
     SCRAM_THROW(
         DomainError("The theta scale parameter for Gamma distribution"
                     " cannot be negative or zero."));
@@ -148,11 +148,11 @@ BetaDeviate::BetaDeviate(Expression* alpha, Expression* beta)
     : RandomDeviate({alpha, beta}), alpha_(*alpha), beta_(*beta) {}
 
 void BetaDeviate::Validate() const {
-  if (alpha_.value() <= 0) {
+  if (!(alpha_.value() > 0)) {
     SCRAM_THROW(
         DomainError("The alpha shape parameter for Beta distribution"
                     " cannot be negative or zero."));
-  } else if (beta_.value() <= 0) {
+  } else if (!(beta_.value() > 0)) {
     SCRAM_THROW(
         DomainError("The beta shape parameter for Beta distribution"
                     " cannot be negative or zero."));
@@ -189,11 +189,11 @@ Histogram::Histogram(std::vector<Expression*> boundaries,
 }
 
 void Histogram::Validate() const {
-  if (ext::any_of(weights_, [](const auto& expr) { return expr->value() < 0; }))
+  if (ext::any_of(weights_, [](const auto& expr) { return !(expr->value() >= 0); }))
     SCRAM_THROW(ValidityError("Histogram weights cannot be negative."));
 
   if (!boost::is_sorted(boundaries_, [](const auto& lhs, const auto& rhs) {
-        return lhs->value() <= rhs->value();
+        return !(lhs->value() > rhs->value());
       })) {
     SCRAM_THROW(ValidityError(
         "Histogram upper boundaries are not strictly increasing."));
-- 
2.43.0


From 965b2f83d6fd60a3705b8254476be0dec75baee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 14/79] fix: reject histograms with only zero weights

---
 src/expression/random_deviate.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index ad21942..03a857d 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -192,6 +192,9 @@ void Histogram::Validate() const {
   if (ext::any_of(weights_, [](const auto& expr) { return !(expr->value() >= 0); }))
     SCRAM_THROW(ValidityError("Histogram weights cannot be negative."));
 
+  if (ext::none_of(weights_, [](const auto& expr) { return expr->value() > 0; }))
+    SCRAM_THROW(ValidityError("Histogram weights cannot be all zero."));
+
   if (!boost::is_sorted(boundaries_, [](const auto& lhs, const auto& rhs) {
         return !(lhs->value() > rhs->value());
       })) {
-- 
2.43.0


From 93223fae913d7e7af23e0c4a78d88db21b892f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 15/79] fix: reject fractional powers of negative values

---
 src/expression/numerical.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index 7bd94f4..bb53ad3 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -20,6 +20,8 @@
 
 #include "numerical.h"
 
+#include <cmath>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -59,7 +61,18 @@ void Pow::Validate() const {
   auto* arg_two = args().back();
   if (arg_one->value() == 0 && arg_two->value() <= 0)
     SCRAM_THROW(DomainError("0 to power 0 or less is undefined."));
-  if (Contains(arg_one->interval(), 0) && !IsPositive(arg_two->interval())) {
+  auto is_fraction = [](double value) { return std::trunc(value) != value; };
+  if (arg_one->value() < 0 && is_fraction(arg_two->value()))
+    SCRAM_THROW(
+        DomainError("Fractional power of a negative value is undefined."));
+  Interval exponent = arg_two->interval();
+  if (!IsNonNegative(arg_one->interval()) &&
+      exponent.lower() == exponent.upper() && is_fraction(exponent.lower())) {
+    SCRAM_THROW(
+        DomainError("Power expression 'base' sample range contains negative"
+                    " values; an integer exponent is required."));
+  }
+  if (Contains(arg_one->interval(), 0) && !IsPositive(exponent)) {
     SCRAM_THROW(
         DomainError("Power expression 'base' sample range contains 0);"
                     " positive exponent is required."));
-- 
2.43.0


From b14e7bc67a94e661c3a5f7e4abd27943d69302b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 16/79] fix: compute the sample domain of gamma and beta
 deviates

---
 src/expression/random_deviate.cc | 14 +++-----------
 src/expression/random_deviate.h  |  4 ++--
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index 03a857d..e49161c 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -22,10 +22,10 @@
 
 #include <cmath>
 
+#include <algorithm>
 #include <functional>
 
 #include <boost/iterator/transform_iterator.hpp>
-#include <boost/math/special_functions/beta.hpp>
 #include <boost/math/special_functions/erf.hpp>
 #include <boost/math/special_functions/gamma.hpp>
 #include <boost/random/beta_distribution.hpp>
@@ -132,11 +132,9 @@ void GammaDeviate::Validate() const {
 }
 
 Interval GammaDeviate::interval() noexcept {
-  using boost::math::gamma_q;
-  double k_max = k_.value();
   double high_estimate =
-      theta_.value() * std::pow(gamma_q(k_max, gamma_q(k_max, 0) - 0.99), -1);
-  return Interval::left_open(0, high_estimate);
+      theta_.value() * boost::math::gamma_p_inv(k_.value(), 0.99);
+  return Interval::left_open(0, std::max(high_estimate, this->value()));
 }
 
 double GammaDeviate::DoSample() noexcept {
@@ -159,12 +157,6 @@ void BetaDeviate::Validate() const {
   }
 }
 
-Interval BetaDeviate::interval() noexcept {
-  double high_estimate =
-      std::pow(boost::math::ibeta(alpha_.value(), beta_.value(), 0.99), -1);
-  return Interval::closed(0, high_estimate);
-}
-
 double BetaDeviate::DoSample() noexcept {
   return boost::random::beta_distribution(alpha_.value(),
                                           beta_.value())(RandomDeviate::rng());
diff --git a/src/expression/random_deviate.h b/src/expression/random_deviate.h
index 3494f37..aee691e 100644
--- a/src/expression/random_deviate.h
+++ b/src/expression/random_deviate.h
@@ -233,8 +233,8 @@ class BetaDeviate : public RandomDeviate {
     return alpha_mean / (alpha_mean + beta_.value());
   }
 
-  /// @returns 99 percentile.
-  Interval interval() noexcept override;
+  /// @returns The support of the distribution.
+  Interval interval() noexcept override { return Interval::closed(0, 1); }
 
  private:
   double DoSample() noexcept override;
-- 
2.43.0


From 4b84beaea4c80fc60ec501a5e99a60b20d73de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 17/79] fix: reject lognormal confidence levels without a valid
 error factor

---
 src/expression/random_deviate.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index e49161c..6c2caae 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -77,8 +77,8 @@ LognormalDeviate::LognormalDeviate(Expression* mu, Expression* sigma)
       flavor_(new LognormalDeviate::Normal(mu, sigma)) {}
 
 void LognormalDeviate::Logarithmic::Validate() const {
-  if (!(level_.value() > 0 && level_.value() < 1)) {
-    SCRAM_THROW(DomainError("The confidence level is not within (0, 1)."));
+  if (!(level_.value() > 0.5 && level_.value() < 1)) {  // EF is above median.
+    SCRAM_THROW(DomainError("The confidence level is not within (0.5, 1)."));
   } else if (!(ef_.value() > 1)) {
     SCRAM_THROW(DomainError(
         "The Error Factor for Log-Normal distribution cannot be less than 1."));
-- 
2.43.0


From 2076a793889be1557156c8fa12697c938393b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 18/79] fix: compute sound intervals of non-monotonic
 expressions

---
 src/expression.h            | 31 +++++++++++----
 src/expression/boolean.h    | 63 ++++++++++++++++++++++++++++++
 src/expression/numerical.cc | 77 +++++++++++++++++++++++++++++++++++++
 src/expression/numerical.h  | 15 ++++++++
 4 files changed, 179 insertions(+), 7 deletions(-)

diff --git a/src/expression.h b/src/expression.h
index b837952..07b5ee5 100644
--- a/src/expression.h
+++ b/src/expression.h
@@ -21,7 +21,11 @@
 
 #pragma once
 
+#include <cmath>
+
 #include <algorithm>
+#include <initializer_list>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -56,6 +60,21 @@ inline bool IsPositive(const Interval& interval) {
   return IsNonNegative(interval) && !Contains(interval, 0);
 }
 
+/// Constructs the closed interval spanning values at the interval corners.
+///
+/// @param[in] values  The values of an expression at its argument bounds.
+///
+/// @returns The whole range if any of the values is not a number.
+inline Interval SpanInterval(std::initializer_list<double> values) {
+  double inf = std::numeric_limits<double>::infinity();
+  for (double value : values) {
+    if (std::isnan(value))
+      return Interval::closed(-inf, inf);
+  }
+  auto min_max = std::minmax(values);
+  return Interval::closed(min_max.first, min_max.second);
+}
+
 /// Abstract base class for all sorts of expressions to describe events.
 /// This class also acts like a connector for parameter nodes
 /// and may create cycles.
@@ -176,8 +195,7 @@ class NaryExpression<T, 1> : public ExpressionFormula<NaryExpression<T, 1>> {
     Interval arg_interval = expression_.interval();
     double max_value = T()(arg_interval.upper());
     double min_value = T()(arg_interval.lower());
-    auto min_max = std::minmax(max_value, min_value);
-    return Interval::closed(min_max.first, min_max.second);
+    return SpanInterval({max_value, min_value});
   }
 
   /// Computes the expression value with a given argument value extractor.
@@ -207,8 +225,7 @@ class NaryExpression<T, 2> : public ExpressionFormula<NaryExpression<T, 2>> {
     double max_min = T()(interval_one.upper(), interval_two.lower());
     double min_max = T()(interval_one.lower(), interval_two.upper());
     double min_min = T()(interval_one.lower(), interval_two.lower());
-    auto interval_pair = std::minmax({max_max, max_min, min_max, min_min});
-    return Interval::closed(interval_pair.first, interval_pair.second);
+    return SpanInterval({max_max, max_min, min_max, min_min});
   }
 
   /// Computes the expression value with a given argument value extractor.
@@ -259,10 +276,10 @@ class NaryExpression<T, -1> : public ExpressionFormula<NaryExpression<T, -1>> {
       double max_min = T()(max_value, arg_min);
       double min_max = T()(min_value, arg_max);
       double min_min = T()(min_value, arg_min);
-      std::tie(min_value, max_value) =
-          std::minmax({max_max, max_min, min_max, min_min});
+      Interval span = SpanInterval({max_max, max_min, min_max, min_min});
+      min_value = span.lower();
+      max_value = span.upper();
     }
-    assert(min_value <= max_value);
     return Interval::closed(min_value, max_value);
   }
 
diff --git a/src/expression/boolean.h b/src/expression/boolean.h
index fb3e81f..9643664 100644
--- a/src/expression/boolean.h
+++ b/src/expression/boolean.h
@@ -36,4 +36,67 @@ using Gt = NaryExpression<std::greater<>, 2>;  ///< (>) test.
 using Leq = NaryExpression<std::less_equal<>, 2>;  ///< (<=) test.
 using Geq = NaryExpression<std::greater_equal<>, 2>;  ///< (>=) test.
 
+/// @cond Doxygen_With_Smart_Using_Declaration
+/// Interval specialization for operations not monotonic in their arguments.
+/// @{
+template <>
+inline Interval Not::interval() noexcept {
+  Interval arg = args().front()->interval();
+  if (Contains(arg, 0))
+    return Interval::closed(arg.lower() == arg.upper(), 1);
+  return Interval::closed(0, 0);
+}
+
+template <>
+inline Interval And::interval() noexcept {
+  bool always = true;
+  bool never = false;
+  for (Expression* expression : args()) {
+    Interval arg = expression->interval();
+    if (Contains(arg, 0)) {
+      always = false;
+      never |= arg.lower() == arg.upper();
+    }
+  }
+  return Interval::closed(always, !never);
+}
+
+template <>
+inline Interval Or::interval() noexcept {
+  bool always = false;
+  bool never = true;
+  for (Expression* expression : args()) {
+    Interval arg = expression->interval();
+    if (!Contains(arg, 0)) {
+      always = true;
+      never = false;
+    } else if (arg.lower() != arg.upper()) {
+      never = false;
+    }
+  }
+  return Interval::closed(always, !never);
+}
+
+template <>
+inline Interval Eq::interval() noexcept {
+  Interval lhs = args().front()->interval();
+  Interval rhs = args().back()->interval();
+  bool may_be = lhs.lower() <= rhs.upper() && rhs.lower() <= lhs.upper();
+  bool must_be = may_be && lhs.lower() == rhs.upper() &&
+                 lhs.lower() == lhs.upper() && rhs.lower() == rhs.upper();
+  return Interval::closed(must_be, may_be);
+}
+
+template <>
+inline Interval Df::interval() noexcept {
+  Interval lhs = args().front()->interval();
+  Interval rhs = args().back()->interval();
+  bool may_equal = lhs.lower() <= rhs.upper() && rhs.lower() <= lhs.upper();
+  bool must_equal = may_equal && lhs.lower() == rhs.upper() &&
+                    lhs.lower() == lhs.upper() && rhs.lower() == rhs.upper();
+  return Interval::closed(!may_equal, !must_equal);
+}
+/// @}
+/// @endcond
+
 }  // namespace scram::mef
diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index bb53ad3..90e8299 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -22,6 +22,10 @@
 
 #include <cmath>
 
+#include <algorithm>
+#include <functional>
+#include <limits>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -78,6 +82,79 @@ void Pow::Validate() const {
                     " positive exponent is required."));
   }
 }
+
+template <>
+Interval Abs::interval() noexcept {
+  Interval arg = args().front()->interval();
+  double at_lower = std::abs(arg.lower());
+  double at_upper = std::abs(arg.upper());
+  if (Contains(arg, 0))
+    return SpanInterval({at_lower, at_upper, 0});
+  return SpanInterval({at_lower, at_upper});
+}
+
+template <>
+Interval Tan::interval() noexcept {
+  Interval arg = args().front()->interval();
+  double pi = ConstantExpression::kPi.value();
+  double inf = std::numeric_limits<double>::infinity();
+  if (std::floor(arg.lower() / pi + 0.5) != std::floor(arg.upper() / pi + 0.5))
+    return Interval::closed(-inf, inf);  // There is a discontinuity.
+  return SpanInterval({std::tan(arg.lower()), std::tan(arg.upper())});
+}
+
+template <>
+Interval Cosh::interval() noexcept {
+  Interval arg = args().front()->interval();
+  double at_lower = std::cosh(arg.lower());
+  double at_upper = std::cosh(arg.upper());
+  if (Contains(arg, 0))
+    return SpanInterval({at_lower, at_upper, 1});
+  return SpanInterval({at_lower, at_upper});
+}
+
+template <>
+Interval Mod::interval() noexcept {
+  Interval dividend = args().front()->interval();
+  Interval divisor = args().back()->interval();
+  if (dividend.lower() == dividend.upper() &&
+      divisor.lower() == divisor.upper()) {
+    double value = std::modulus<int>()(dividend.lower(), divisor.lower());
+    return Interval::closed(value, value);
+  }
+  // The remainder has the sign of the dividend
+  // and is smaller than the divisor by its absolute value.
+  double limit = std::max(std::abs(std::trunc(divisor.lower())),
+                          std::abs(std::trunc(divisor.upper()))) - 1;
+  double lower = std::max(std::trunc(dividend.lower()), -limit);
+  double upper = std::min(std::trunc(dividend.upper()), limit);
+  return SpanInterval({std::min(lower, 0.0), std::max(upper, 0.0)});
+}
+
+template <>
+Interval Pow::interval() noexcept {
+  Interval base = args().front()->interval();
+  Interval exponent = args().back()->interval();
+  double max_max = std::pow(base.upper(), exponent.upper());
+  double max_min = std::pow(base.upper(), exponent.lower());
+  double min_max = std::pow(base.lower(), exponent.upper());
+  double min_min = std::pow(base.lower(), exponent.lower());
+  if (IsNonNegative(base))
+    return SpanInterval({max_max, max_min, min_max, min_min});
+  if (exponent.lower() == exponent.upper()) {
+    if (Contains(base, 0))
+      return SpanInterval({max_max, min_min, 0});
+    return SpanInterval({max_max, min_min});
+  }
+  // The sign of the result depends on the parity of the exponent.
+  double base_min = Contains(base, 0) ? 0 : std::abs(base.upper());
+  double base_max = std::max(std::abs(base.lower()), std::abs(base.upper()));
+  double limit = std::max({std::pow(base_min, exponent.lower()),
+                           std::pow(base_min, exponent.upper()),
+                           std::pow(base_max, exponent.lower()),
+                           std::pow(base_max, exponent.upper())});
+  return SpanInterval({-limit, limit});
+}
 /// @endcond
 
 Mean::Mean(std::vector<Expression*> args) : ExpressionFormula(std::move(args)) {
diff --git a/src/expression/numerical.h b/src/expression/numerical.h
index 786cba7..a29848a 100644
--- a/src/expression/numerical.h
+++ b/src/expression/numerical.h
@@ -185,6 +185,21 @@ template <>
 inline Interval Sin::interval() noexcept {
   return Interval::closed(-1, 1);
 }
+
+template <>
+Interval Abs::interval() noexcept;
+
+template <>
+Interval Tan::interval() noexcept;
+
+template <>
+Interval Cosh::interval() noexcept;
+
+template <>
+Interval Mod::interval() noexcept;
+
+template <>
+Interval Pow::interval() noexcept;
 /// @}
 /// @endcond
 
-- 
2.43.0


From b6ea0504d9da2050b281da04e3125344f5118dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 19/79] fix: reject modulo operands outside of the integer
 range

---
 src/expression/numerical.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index 90e8299..c59d122 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -46,6 +46,15 @@ template <>
 void Mod::Validate() const {
   assert(args().size() == 2);
   auto* arg_two = args().back();
+  auto is_int = [](double value) {
+    return std::abs(value) <= std::numeric_limits<int>::max();
+  };
+  for (Expression* arg : args()) {
+    Interval arg_interval = arg->interval();
+    if (!is_int(arg->value()) || !is_int(arg_interval.lower()) ||
+        !is_int(arg_interval.upper()))
+      SCRAM_THROW(DomainError("Modulo operands must be in the integer range."));
+  }
   int arg_value = arg_two->value();
   if (arg_value == 0)
     SCRAM_THROW(DomainError("Modulo second operand must not be 0."));
-- 
2.43.0


From d8cade3bd3f63eaf431706b0a15665cb6f1c5f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 20/79] fix: count event-tree paths that collect nothing as
 certain

---
 src/event_tree_analysis.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index 6bd06a6..5f43014 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -19,7 +19,9 @@
 
 #include "event_tree_analysis.h"
 
+#include "expression/constant.h"
 #include "expression/numerical.h"
+#include "ext/algorithm.h"
 #include "ext/find_iterator.h"
 #include "instruction.h"
 
@@ -113,8 +115,21 @@ void EventTreeAnalysis::Analyze() noexcept {
     auto gate = std::make_unique<mef::Gate>("__" + sequence.first->name());
     std::vector<mef::FormulaPtr> gate_formulas;
     std::vector<mef::Expression*> arg_expressions;
+    // A path that collects nothing is certain among the other paths.
+    bool has_expressions = ext::any_of(
+        sequence.second, [](const PathCollector& path_collector) {
+          return !path_collector.expressions.empty();
+        });
     for (PathCollector& path_collector : sequence.second) {
-      if (path_collector.formulas.size() == 1) {
+      if (path_collector.formulas.empty() &&
+          path_collector.expressions.empty()) {
+        if (has_expressions) {
+          arg_expressions.push_back(&mef::ConstantExpression::kOne);
+        } else {
+          gate_formulas.push_back(std::make_unique<mef::Formula>(
+              mef::kNull, mef::Formula::ArgSet{&mef::HouseEvent::kTrue}));
+        }
+      } else if (path_collector.formulas.size() == 1) {
         gate_formulas.push_back(std::move(path_collector.formulas.front()));
       } else if (path_collector.formulas.size() > 1) {
         mef::Formula::ArgSet arg_set;
@@ -156,9 +171,6 @@ void EventTreeAnalysis::Analyze() noexcept {
       gate->formula(std::make_unique<mef::Formula>(
           mef::kNull, mef::Formula::ArgSet{event.get()}));
       events_.push_back(std::move(event));
-    } else {
-      gate->formula(std::make_unique<mef::Formula>(
-          mef::kNull, mef::Formula::ArgSet{&mef::HouseEvent::kTrue}));
     }
     sequences_.push_back(
         {*sequence.first, std::move(gate), is_expression_only});
-- 
2.43.0


From 1d3a8017f564a831230fa516c1c74512594b1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 21/79] fix: sample test-event expressions in their context

---
 src/expression/test_event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression/test_event.h b/src/expression/test_event.h
index 168ed6e..a26654b 100644
--- a/src/expression/test_event.h
+++ b/src/expression/test_event.h
@@ -47,7 +47,7 @@ class TestEvent : public Expression {
   const Context& context_;  ///< The evaluation context.
 
  private:
-  double DoSample() noexcept override { return false; }
+  double DoSample() noexcept override { return this->value(); }
 };
 
 /// Upon event-tree walk, tests whether an initiating event has occurred.
-- 
2.43.0


From 9e3da0b166d7675851509a877e923c33ea6ffb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 22/79] fix: analyse fault trees outside of the last event-tree
 context

---
 src/risk_analysis.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 114f29c..406e6ab 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -109,6 +109,8 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) noexcept {
       LOG(INFO) << "Finished event tree analysis: " << initiating_event.name();
     }
   }
+  // No event-tree walk is in progress for the analysis of fault trees.
+  *model_->context() = {};
 
   for (const mef::FaultTree& ft : model_->fault_trees()) {
     for (const mef::Gate* target : ft.top_events()) {
-- 
2.43.0


From 9aaccf6e97a7d63b13a3ebde94bb60c654c57258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 23/79] fix: reject collected expressions that are not
 probabilities

---
 src/initializer.cc | 17 +++++++++++++++--
 src/initializer.h  |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/initializer.cc b/src/initializer.cc
index 34bff56..b1c2c93 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -877,8 +877,10 @@ Instruction* Initializer::GetInstruction(const xml::Element& xml_element) {
   }
 
   if (node_name == "collect-expression") {
-    return register_instruction(std::make_unique<CollectExpression>(
-        GetExpression(*xml_element.child(), "")));
+    Expression* expression = GetExpression(*xml_element.child(), "");
+    collected_expressions_.emplace_back(expression, xml_element);
+    return register_instruction(
+        std::make_unique<CollectExpression>(expression));
   }
 
   if (node_name == "collect-formula") {
@@ -1812,6 +1814,17 @@ void Initializer::ValidateExpressions() {
     }
   }
 
+  // Check the probabilities collected by event trees.
+  for (const auto& [expression, xml_element] : collected_expressions_) {
+    try {
+      EnsureProbability(expression, "collected expression");
+    } catch (ValidityError& err) {
+      err << boost::errinfo_file_name(xml_element.filename())
+          << boost::errinfo_at_line(xml_element.line());
+      throw;
+    }
+  }
+
   // Validate CCF groups.
   for (const CcfGroup& group : model_->ccf_groups())
     group.Validate();
diff --git a/src/initializer.h b/src/initializer.h
index bf32c52..2d003a5 100644
--- a/src/initializer.h
+++ b/src/initializer.h
@@ -517,6 +517,8 @@ class Initializer : private boost::noncopyable {
 
   /// Container of defined expressions for later validation due to cycles.
   std::vector<std::pair<Expression*, xml::Element>> expressions_;
+  /// Collected expressions of event trees must be probabilities.
+  std::vector<std::pair<Expression*, xml::Element>> collected_expressions_;
   /// Container for event tree links to check for cycles.
   std::vector<Link*> links_;
 
-- 
2.43.0


From 374c343c94f707ff45a9e2f104aaee792e9c6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 24/79] fix: limit the sum of a sequence's collected
 expressions to one

---
 src/event_tree_analysis.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index 5f43014..49afc8b 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -166,6 +166,10 @@ void EventTreeAnalysis::Analyze() noexcept {
       } else if (arg_expressions.size() > 1) {
         expressions_.push_back(
             std::make_unique<mef::Add>(std::move(arg_expressions)));
+        // The sum of the paths may exceed one, e.g., due to rounding.
+        expressions_.push_back(std::make_unique<mef::Min>(
+            std::vector<mef::Expression*>{&mef::ConstantExpression::kOne,
+                                          expressions_.back().get()}));
         event->expression(expressions_.back().get());
       }
       gate->formula(std::make_unique<mef::Formula>(
-- 
2.43.0


From b09a71cb66e0d83b9ca49c437d8696b49c0b0237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 25/79] fix: restore house events to the state before the phase

Instructions that set a house event twice left the first new state behind
because the records were replayed in the order of the changes.
---
 src/risk_analysis.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 406e6ab..c5f2bed 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -58,8 +58,9 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) noexcept {
         model_->mission_time().value(init_time);
         Analysis::settings().mission_time(init_time);
 
-        for (const std::pair<mef::HouseEvent*, bool>& entry : house_events)
-          entry.first->state(entry.second);
+        // The earliest record of an event holds its original state.
+        for (auto it = house_events.rbegin(); it != house_events.rend(); ++it)
+          it->first->state(it->second);
       });
 
   if (context) {
-- 
2.43.0


From 1a5e237f6d0d4b0679aec85410ec34eee9ea12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 26/79] fix: draw every quantity anew in the first trial of an
 analysis

Samples that an earlier analysis left in shared parameters were reused by the
first trial of the next one, because a reset stops at unsampled expressions.
---
 src/uncertainty_analysis.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 27b542a..1179883 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -73,15 +73,15 @@ UncertaintyAnalysis::GatherDeviateExpressions(const Pdag* graph) noexcept {
 void UncertaintyAnalysis::SampleExpressions(
     const std::vector<std::pair<int, mef::Expression&>>& deviate_expressions,
     Pdag::IndexMap<double>* p_vars) noexcept {
-  // Reset distributions.
-  for (const auto& expression : deviate_expressions)
-    expression.second.Reset();
-
   // Sample all expressions with distributions.
   for (const auto& expression : deviate_expressions) {
     double prob = expression.second.Sample();
     (*p_vars)[expression.first] = prob > 1 ? 1 : prob < 0 ? 0 : prob;
   }
+
+  // Reset distributions for the next trial or the next analysis.
+  for (const auto& expression : deviate_expressions)
+    expression.second.Reset();
 }
 
 void UncertaintyAnalysis::CalculateStatistics(
-- 
2.43.0


From 4c74e592e184af30d8e7d408900ebe8dc136191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 27/79] fix: count the largest samples in the last bin of the
 histogram

The samples at the upper bound were left in the overflow bin,
so that the reported bins did not add up to one.
---
 src/uncertainty_analysis.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 1179883..ebfc213 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -109,6 +109,9 @@ void UncertaintyAnalysis::CalculateStatistics(
   for (int i = 1; i < hist.size(); i++) {
     distribution_.push_back(hist[i]);
   }
+  // The overflow bin holds the samples at the upper bound of the last bin.
+  std::prev(distribution_.end(), 2)->second += distribution_.back().second;
+  distribution_.back().second = 0;
   mean_ = boost::accumulators::mean(acc);
   sigma_ = std::sqrt(num_trials * variance(acc) / (num_trials - 1));
   error_factor_ = std::exp(1.96 * sigma_);
-- 
2.43.0


From d667cf66182855b2c8692a4ab2f7d8868d61d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 28/79] fix: report no deviation for a single trial

The estimate divided zero by zero and put NaN values into the report.
---
 src/uncertainty_analysis.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index ebfc213..a7ad032 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -113,7 +113,8 @@ void UncertaintyAnalysis::CalculateStatistics(
   std::prev(distribution_.end(), 2)->second += distribution_.back().second;
   distribution_.back().second = 0;
   mean_ = boost::accumulators::mean(acc);
-  sigma_ = std::sqrt(num_trials * variance(acc) / (num_trials - 1));
+  if (num_trials > 1)  // A single sample has no spread to estimate.
+    sigma_ = std::sqrt(num_trials * variance(acc) / (num_trials - 1));
   error_factor_ = std::exp(1.96 * sigma_);
   confidence_interval_.first = mean_ - sigma_ * 1.96 / std::sqrt(num_trials);
   confidence_interval_.second = mean_ + sigma_ * 1.96 / std::sqrt(num_trials);
-- 
2.43.0


From a089aa80ab747b977f26840243bbd2c5d059d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 29/79] fix: take the quantiles from the ordered samples

The estimator needs more samples than twice the quantiles. With fewer trials
it reported unordered values, and its last quantile missed the maximum.
---
 src/uncertainty_analysis.cc | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index a7ad032..f4b8f2a 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -21,10 +21,13 @@
 #include "uncertainty_analysis.h"
 
 #include <cmath>
+#include <cstdint>
+
+#include <algorithm>
+#include <iterator>
 
 #include <boost/accumulators/accumulators.hpp>
 #include <boost/accumulators/statistics/density.hpp>
-#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
 #include <boost/accumulators/statistics/mean.hpp>
 #include <boost/accumulators/statistics/stats.hpp>
 #include <boost/accumulators/statistics/variance.hpp>
@@ -90,18 +93,12 @@ void UncertaintyAnalysis::CalculateStatistics(
   using namespace boost::accumulators;  // NOLINT
   using histogram_type =
       iterator_range<std::vector<std::pair<double, double>>::iterator>;
-  quantiles_.clear();
   int num_quantiles = Analysis::settings().num_quantiles();
-  double delta = 1.0 / num_quantiles;
-  for (int i = 0; i < num_quantiles; ++i) {
-    quantiles_.push_back(delta * (i + 1));
-  }
+  quantiles_.resize(num_quantiles);
   int num_trials = Analysis::settings().num_trials();
-  accumulator_set<double, stats<tag::mean, tag::variance, tag::density,
-                                tag::extended_p_square_quantile>>
-      acc(tag::density::num_bins = Analysis::settings().num_bins(),
-          tag::density::cache_size = num_trials,
-          extended_p_square_probabilities = quantiles_);
+  accumulator_set<double, stats<tag::mean, tag::variance, tag::density>> acc(
+      tag::density::num_bins = Analysis::settings().num_bins(),
+      tag::density::cache_size = num_trials);
   for (double sample : samples) {
     acc(sample);
   }
@@ -119,8 +116,12 @@ void UncertaintyAnalysis::CalculateStatistics(
   confidence_interval_.first = mean_ - sigma_ * 1.96 / std::sqrt(num_trials);
   confidence_interval_.second = mean_ + sigma_ * 1.96 / std::sqrt(num_trials);
 
+  std::vector<double> ordered = samples;
+  std::sort(ordered.begin(), ordered.end());
   for (int i = 0; i < num_quantiles; ++i) {
-    quantiles_[i] = quantile(acc, quantile_probability = quantiles_[i]);
+    // The smallest sample that is not exceeded by the fraction of the samples.
+    std::int64_t rank = static_cast<std::int64_t>(num_trials) * (i + 1);
+    quantiles_[i] = ordered[(rank + num_quantiles - 1) / num_quantiles - 1];
   }
 }
 
-- 
2.43.0


From bb64de463ce144ba3b7ba0de53ce5ad7c48354ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 30/79] fix: report event probabilities at the mission time of
 the analysis

Products and importance factors were printed with the probabilities that the
events have after the analyses, which differ from those of a phase.
---
 gui/importancetablemodel.cpp |  2 +-
 src/fault_tree_analysis.cc   | 15 ++++++++++-----
 src/fault_tree_analysis.h    | 17 ++++++++++++-----
 src/importance_analysis.cc   |  1 +
 src/importance_analysis.h    |  1 +
 src/reporter.cc              |  4 ++--
 6 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/gui/importancetablemodel.cpp b/gui/importancetablemodel.cpp
index 79a0c47..fb73980 100644
--- a/gui/importancetablemodel.cpp
+++ b/gui/importancetablemodel.cpp
@@ -92,7 +92,7 @@ QVariant ImportanceTableModel::data(const QModelIndex &index, int role) const
     case 1:
         return record.factors.occurrence;
     case 2:
-        return record.event.p();
+        return record.factors.p;
     case 3:
         return record.factors.mif;
     case 4:
diff --git a/src/fault_tree_analysis.cc b/src/fault_tree_analysis.cc
index 3af8499..efbc96b 100644
--- a/src/fault_tree_analysis.cc
+++ b/src/fault_tree_analysis.cc
@@ -85,7 +85,10 @@ void Print(const ProductContainer& products) {
 
 ProductContainer::ProductContainer(const Zbdd& products,
                                    const Pdag& graph) noexcept
-    : products_(products), graph_(graph), size_(0) {
+    : products_(products),
+      graph_(graph),
+      p_vars_(graph.basic_events().size()),
+      size_(0) {
   Pdag::IndexMap<bool> filter(graph_.basic_events().size());
   for (const std::vector<int>& product : products_) {
     int order_index = product.empty() ? 0 : product.size() - 1;
@@ -99,16 +102,18 @@ ProductContainer::ProductContainer(const Zbdd& products,
       if (filter[i])
         continue;
       filter[i] = true;
-      product_events_.insert(graph_.basic_events()[i]);
+      const mef::BasicEvent* event = graph_.basic_events()[i];
+      product_events_.insert(event);
+      if (event->HasExpression())
+        p_vars_[i] = event->p();
     }
   }
 }
 
 double Product::p() const {
   double p = 1;
-  for (const Literal& literal : *this) {
-    p *= literal.complement ? 1 - literal.event.p() : literal.event.p();
-  }
+  for (int index : data_)
+    p *= index < 0 ? 1 - p_vars_[-index] : p_vars_[index];
   return p;
 }
 
diff --git a/src/fault_tree_analysis.h b/src/fault_tree_analysis.h
index a561ef5..d3ae522 100644
--- a/src/fault_tree_analysis.h
+++ b/src/fault_tree_analysis.h
@@ -68,8 +68,10 @@ class Product {
   ///
   /// @param[in] data  The underlying set.
   /// @param[in] graph  The graph with indices to events map.
-  Product(const std::vector<int>& data, const Pdag& graph) noexcept
-      : data_(data), graph_(graph) {}
+  /// @param[in] p_vars  The event probabilities at the time of the analysis.
+  Product(const std::vector<int>& data, const Pdag& graph,
+          const Pdag::IndexMap<double>& p_vars) noexcept
+      : data_(data), graph_(graph), p_vars_(p_vars) {}
 
   /// @returns true for unity product with no literals.
   bool empty() const { return data_.empty(); }
@@ -102,6 +104,7 @@ class Product {
  private:
   const std::vector<int>& data_;  ///< The collection of event indices.
   const Pdag& graph_;  ///< The host graph.
+  const Pdag::IndexMap<double>& p_vars_;  ///< The event probabilities.
 };
 
 /// A container of analysis result products with Literals.
@@ -113,9 +116,10 @@ class ProductContainer {
     ///
     /// @returns The wrapped product of Literals.
     Product operator()(const std::vector<int>& product) const {
-      return Product(product, graph);
+      return Product(product, graph, p_vars);
     }
     const Pdag& graph;  ///< The host graph.
+    const Pdag::IndexMap<double>& p_vars;  ///< The event probabilities.
   };
 
  public:
@@ -134,11 +138,11 @@ class ProductContainer {
   /// @{
   auto begin() const {
     return boost::make_transform_iterator(products_.begin(),
-                                          ProductExtractor{graph_});
+                                          ProductExtractor{graph_, p_vars_});
   }
   auto end() const {
     return boost::make_transform_iterator(products_.end(),
-                                          ProductExtractor{graph_});
+                                          ProductExtractor{graph_, p_vars_});
   }
   /// @}
 
@@ -154,6 +158,9 @@ class ProductContainer {
  private:
   const Zbdd& products_;  ///< Container of analysis results.
   const Pdag& graph_;  ///< The analysis graph.
+  /// The probabilities of the events in the products.
+  /// The later changes of the mission time do not affect the analysis results.
+  Pdag::IndexMap<double> p_vars_;
   int size_;  ///< The number of products.
   std::vector<int> distribution_;  ///< Product counts by order.
   /// The set of events in the resultant products.
diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 4225438..cb03e27 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -47,6 +47,7 @@ void ImportanceAnalysis::Analyze() noexcept {
     double p_var = event.p();
     ImportanceFactors imp{};
     imp.occurrence = occurrences[i];
+    imp.p = p_var;
     imp.mif = this->CalculateMif(i);
     if (p_total != 0) {
       imp.cif = p_var * imp.mif / p_total;
diff --git a/src/importance_analysis.h b/src/importance_analysis.h
index 86e9df2..2083778 100644
--- a/src/importance_analysis.h
+++ b/src/importance_analysis.h
@@ -41,6 +41,7 @@ struct ImportanceFactors {
   double dif;  ///< Fussel-Vesely diagnosis importance factor.
   double raw;  ///< Risk achievement worth factor.
   double rrw;  ///< Risk reduction worth factor.
+  double p;  ///< The probability of the event at the time of the analysis.
 };
 
 /// Mapping of an event and its importance.
diff --git a/src/reporter.cc b/src/reporter.cc
index e442b8d..eb7cc0b 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -479,9 +479,9 @@ void Reporter::ReportResults(
   for (const core::ImportanceRecord& entry : importance_analysis.importance()) {
     const core::ImportanceFactors& factors = entry.factors;
     const mef::BasicEvent& event = entry.event;
-    auto add_data = [&event, &factors](xml::StreamElement* element) {
+    auto add_data = [&factors](xml::StreamElement* element) {
       element->SetAttribute("occurrence", factors.occurrence)
-          .SetAttribute("probability", event.p())
+          .SetAttribute("probability", factors.p)
           .SetAttribute("MIF", factors.mif)
           .SetAttribute("CIF", factors.cif)
           .SetAttribute("DIF", factors.dif)
-- 
2.43.0


From b84728c49893f159ac515699296732384b884ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 31/79] fix: count a constant curve on the boundary of two SIL
 in one

The bands are half open, but a constant probability equal to a boundary was
counted in the bands on both of its sides.
---
 src/probability_analysis.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index ecd3708..15e719e 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -102,10 +102,13 @@ void PartitionY(const Points& points, T* y_fractions) {
       std::swap(p_1, p_0);
     }
     auto fraction = [&k, &p_1, &p_0, &t_1, &t_0](double b_0, double b_1) {
+      if (k == 0)  // The bucket ranges are half open: (b_0, b_1].
+        return (b_0 < p_0 || p_0 == 0 && b_0 == 0) && p_0 <= b_1 ? t_1 - t_0
+                                                                  : 0.0;
       if (p_0 <= b_0 && b_1 <= p_1)  // Sub-range.
         return (b_1 - b_0) / k;
       if (b_0 <= p_0 && p_1 <= b_1)  // Super-range.
-        return t_1 - t_0;  // Covers the case when k == 0.
+        return t_1 - t_0;
       // The cases of partially overlapping intervals.
       if (p_0 <= b_0 && b_0 <= p_1)  // b_1 is outside (>) of the range.
         return (p_1 - b_0) / k;
-- 
2.43.0


From 402ab60e008572ec9540ab0fb588a4afd71157ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 32/79] fix: fill the PFH histogram of a zero mission time

The curve of a single point left the fractions of the hourly failures empty.
---
 src/probability_analysis.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index 15e719e..2c8b2ea 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -145,6 +145,7 @@ void ProbabilityAnalysis::ComputeSil() noexcept {
                        });
     assert(it != sil_->pfd_fractions.end());
     it->second = 1;
+    sil_->pfh_fractions.front().second = 1;  // No hours to fail.
   } else {
     sil_->pfd_avg = core::AverageY(p_time_);
     core::PartitionY(p_time_, &sil_->pfd_fractions);
-- 
2.43.0


From 35ec33323c44552643e01b9ce9dbd00eb5616dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 33/79] fix: sample expression leaves without deviations as
 their value

The leaf in question is the test-event; this replaces the change to its
header.
---
 src/expression.cc           | 4 +++-
 src/expression/test_event.h | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/expression.cc b/src/expression.cc
index 4d1690d..d831240 100644
--- a/src/expression.cc
+++ b/src/expression.cc
@@ -34,7 +34,9 @@ Expression::Expression(std::vector<Expression*> args)
 double Expression::Sample() noexcept {
   if (!sampled_) {
     sampled_ = true;
-    sampled_value_ = this->DoSample();
+    // A leaf without deviations, e.g., a test-event, has only its value.
+    sampled_value_ = args_.empty() && !this->IsDeviate() ? this->value()
+                                                         : this->DoSample();
   }
   return sampled_value_;
 }
diff --git a/src/expression/test_event.h b/src/expression/test_event.h
index a26654b..168ed6e 100644
--- a/src/expression/test_event.h
+++ b/src/expression/test_event.h
@@ -47,7 +47,7 @@ class TestEvent : public Expression {
   const Context& context_;  ///< The evaluation context.
 
  private:
-  double DoSample() noexcept override { return this->value(); }
+  double DoSample() noexcept override { return false; }
 };
 
 /// Upon event-tree walk, tests whether an initiating event has occurred.
-- 
2.43.0


From ee69450e1c736c4a8d7afe5916ecfa0616a9d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 34/79] Revert "fix: sample expression leaves without
 deviations as their value"

Tests define leaves with samples apart from their values.
---
 src/expression.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/expression.cc b/src/expression.cc
index d831240..4d1690d 100644
--- a/src/expression.cc
+++ b/src/expression.cc
@@ -34,9 +34,7 @@ Expression::Expression(std::vector<Expression*> args)
 double Expression::Sample() noexcept {
   if (!sampled_) {
     sampled_ = true;
-    // A leaf without deviations, e.g., a test-event, has only its value.
-    sampled_value_ = args_.empty() && !this->IsDeviate() ? this->value()
-                                                         : this->DoSample();
+    sampled_value_ = this->DoSample();
   }
   return sampled_value_;
 }
-- 
2.43.0


From 58d2d7f8b5c0d78f7fd0a24211240e53023d0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 35/79] fix: drop prime implicants before the approximation
 upon algorithm change

The approximation setter throws while prime implicants are requested,
so Settings::algorithm (noexcept) with ZBDD or MOCUS terminated the program,
for example upon --zbdd with prime-implicants in the project file.
---
 src/settings.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index afd50ac..e863483 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -35,10 +35,10 @@ Settings& Settings::algorithm(Algorithm value) noexcept {
       approximation(Approximation::kNone);
       break;
     default:
+      if (prime_implicants_)  // Must be dropped before the approximation.
+        prime_implicants(false);
       if (approximation_ == Approximation::kNone)
         approximation(Approximation::kRareEvent);
-      if (prime_implicants_)
-        prime_implicants(false);
   }
   return *this;
 }
-- 
2.43.0


From 6756c200207be46b23cb1b6d4dff2112ebfe8a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 36/79] fix: reject NaN for the cut-off, mission time, and time
 step

---
 src/settings.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index e863483..18454e3 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -95,7 +95,7 @@ Settings& Settings::limit_order(int order) {
 }
 
 Settings& Settings::cut_off(double prob) {
-  if (prob < 0 || prob > 1)
+  if (!(prob >= 0 && prob <= 1))  // NaN is out of range.
     SCRAM_THROW(SettingsError(
         "The cut-off probability cannot be negative or more than 1."))
         << errinfo_value(std::to_string(prob));
@@ -141,7 +141,7 @@ Settings& Settings::seed(int s) {
 }
 
 Settings& Settings::mission_time(double time) {
-  if (time < 0)
+  if (!(time >= 0))  // NaN is not a time.
     SCRAM_THROW(SettingsError("The mission time cannot be negative."))
         << errinfo_value(std::to_string(time));
 
@@ -150,7 +150,7 @@ Settings& Settings::mission_time(double time) {
 }
 
 Settings& Settings::time_step(double time) {
-  if (time < 0)
+  if (!(time >= 0))  // NaN is not a time.
     SCRAM_THROW(SettingsError("The time step cannot be negative."))
         << errinfo_value(std::to_string(time));
   if (!time && safety_integrity_levels_)
-- 
2.43.0


From 52409fd010e32fd79051a43ef5ff050530b27383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 37/79] fix: keep the project file's analysis flags without
 command-line switches

The absence of --probability and such switched off
the analyses requested in the project file.
---
 src/scram.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/scram.cc b/src/scram.cc
index 523d778..7cfaf5b 100644
--- a/src/scram.cc
+++ b/src/scram.cc
@@ -189,6 +189,11 @@ int ParseArguments(int argc, char* argv[], po::variables_map* vm) {
 /// only if provided by "vm" arguments.
 #define SET(tag, type, member) \
   if (vm.count(tag)) settings->member(vm[tag].as<type>())
+
+/// Helper macro for ConstructSettings
+/// to request the analysis or feature only if the switch is given.
+#define SET_FLAG(tag, member) \
+  if (vm.count(tag)) settings->member(true)
 // clang-format on
 
 /// Updates analysis settings from command-line arguments.
@@ -208,7 +213,7 @@ void ConstructSettings(const po::variables_map& vm,
   } else if (vm.count("mocus")) {
     settings->algorithm(scram::core::Algorithm::kMocus);
   }
-  settings->prime_implicants(vm.count("prime-implicants"));
+  SET_FLAG("prime-implicants", prime_implicants);
   // Determine if the probability approximation is requested.
   if (vm.count("rare-event")) {
     assert(!vm.count("mcub"));
@@ -217,12 +222,12 @@ void ConstructSettings(const po::variables_map& vm,
     settings->approximation(scram::core::Approximation::kMcub);
   }
   SET("time-step", double, time_step);
-  settings->safety_integrity_levels(vm.count("sil"));
+  SET_FLAG("sil", safety_integrity_levels);
 
-  settings->probability_analysis(vm.count("probability"));
-  settings->importance_analysis(vm.count("importance"));
-  settings->uncertainty_analysis(vm.count("uncertainty"));
-  settings->ccf_analysis(vm.count("ccf"));
+  SET_FLAG("probability", probability_analysis);
+  SET_FLAG("importance", importance_analysis);
+  SET_FLAG("uncertainty", uncertainty_analysis);
+  SET_FLAG("ccf", ccf_analysis);
   SET("seed", int, seed);
   SET("limit-order", int, limit_order);
   SET("cut-off", double, cut_off);
@@ -235,6 +240,7 @@ void ConstructSettings(const po::variables_map& vm,
   settings->print = vm.count("print");
 #endif
 }
+#undef SET_FLAG
 #undef SET
 
 /// Main body of command-line entrance to run the program.
-- 
2.43.0


From f93703b948d08be862811bd089b3adacdc780a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:25 +0000
Subject: [PATCH 38/79] fix: keep substitutions in the BDD for exact
 probability of ZBDD and MOCUS

The graph for the probability analysis was built without the model,
so the total probability ignored its substitutions.
---
 src/fault_tree_analysis.h   | 3 +++
 src/probability_analysis.cc | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fault_tree_analysis.h b/src/fault_tree_analysis.h
index d3ae522..77a44ad 100644
--- a/src/fault_tree_analysis.h
+++ b/src/fault_tree_analysis.h
@@ -222,6 +222,9 @@ class FaultTreeAnalysis : public Analysis {
   /// @returns The top gate that is passed to the analysis.
   const mef::Gate& top_event() const { return top_event_; }
 
+  /// @returns The model with substitutions if any.
+  const mef::Model* model() const { return model_; }
+
   /// Analyzes the fault tree and performs computations.
   /// This function must be called
   /// only after initializing the fault tree
diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index 2c8b2ea..d911cb7 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -252,7 +252,7 @@ void ProbabilityAnalyzer<Bdd>::CreateBdd(
   CLOCK(total_time);
 
   CLOCK(ft_creation);
-  Pdag graph(fta.top_event(), Analysis::settings().ccf_analysis());
+  Pdag graph(fta.top_event(), Analysis::settings().ccf_analysis(), fta.model());
   LOG(DEBUG2) << "PDAG is created in " << DUR(ft_creation);
 
   CLOCK(prep_time);  // Overall preprocessing time.
-- 
2.43.0


From 2eb4fe948458112681b0082d92d3f8b3edd0e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 39/79] fix: treat version numbers beyond int as invalid
 instead of overflowing

A project requiring the version 4294967296.0.0 was accepted.
---
 src/ext/version.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ext/version.cc b/src/ext/version.cc
index bcb3a31..35961a8 100644
--- a/src/ext/version.cc
+++ b/src/ext/version.cc
@@ -20,6 +20,8 @@
 
 #include "src/ext/version.h"
 
+#include <limits>
+
 namespace ext {
 
 std::optional<std::array<int, 3>> extract_version(std::string_view version,
@@ -43,8 +45,10 @@ std::optional<std::array<int, 3>> extract_version(std::string_view version,
       return {};
 
     } else {
-      numbers[i] *= 10;
-      numbers[i] += c - '0';
+      int digit = c - '0';
+      if (numbers[i] > (std::numeric_limits<int>::max() - digit) / 10)
+        return {};  // The number is too large.
+      numbers[i] = numbers[i] * 10 + digit;
       expect_separator = true;
     }
   }
-- 
2.43.0


From 52d23b4cf812d7c27f6adccadf08c17987b74ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:01 +0000
Subject: [PATCH 40/79] fix: report failures to flush and to close the output

The stream checked the error state before the buffer was flushed,
and the result of fclose was dropped,
so a full disk left a truncated report and the exit status 0.
---
 src/reporter.cc      | 5 +++++
 src/serialization.cc | 6 ++++++
 src/xml_stream.h     | 9 ++++++---
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/reporter.cc b/src/reporter.cc
index eb7cc0b..3c8ccab 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -20,6 +20,8 @@
 
 #include "reporter.h"
 
+#include <cerrno>
+#include <cstdio>
 #include <ctime>
 
 #include <memory>
@@ -111,6 +113,9 @@ void Reporter::Report(const core::RiskAnalysis& risk_an,
           << boost::errinfo_errno(errno) << boost::errinfo_file_open_mode("w");
     }
     Report(risk_an, fp.get(), indent);
+    if (std::fclose(fp.release())) {
+      SCRAM_THROW(IOError("FILE error on close")) << boost::errinfo_errno(errno);
+    }
   } catch (IOError& err) {
     err << boost::errinfo_file_name(file);
     throw;
diff --git a/src/serialization.cc b/src/serialization.cc
index 1992506..64d2f29 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -19,6 +19,9 @@
 
 #include "serialization.h"
 
+#include <cerrno>
+#include <cstdio>
+
 #include <memory>
 
 #include <boost/exception/errinfo_errno.hpp>
@@ -45,6 +48,9 @@ void Serialize(const Model& model, const std::string& file) {
           << boost::errinfo_errno(errno) << boost::errinfo_file_open_mode("w");
     }
     Serialize(model, fp.get());
+    if (std::fclose(fp.release())) {
+      SCRAM_THROW(IOError("FILE error on close")) << boost::errinfo_errno(errno);
+    }
   } catch (IOError& err) {
     err << boost::errinfo_file_name(file);
     throw;
diff --git a/src/xml_stream.h b/src/xml_stream.h
index f41ed6b..358be1b 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include <cassert>
+#include <cerrno>
 #include <cstdio>
 
 #include <algorithm>
@@ -428,9 +429,11 @@ class Stream {
   ///
   /// @post The exception is thrown only if no other exception is on flight.
   ~Stream() noexcept(false) {
-    int err = std::ferror(out_.file());
-    if (err && (std::uncaught_exceptions() == uncaught_exceptions_))
-      SCRAM_THROW(IOError("FILE error on write")) << boost::errinfo_errno(err);
+    // The buffered output may fail only when it gets flushed.
+    bool failure = std::fflush(out_.file()) || std::ferror(out_.file());
+    if (failure && (std::uncaught_exceptions() == uncaught_exceptions_))
+      SCRAM_THROW(IOError("FILE error on write"))
+          << boost::errinfo_errno(errno);
   }
 
   /// Creates a root element for the document.
-- 
2.43.0


From 2082c0e3d97ce2974fb3c24bdf0071c6bfab8eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 41/79] fix: serialize Boolean constants in formulas as
 constants

The arguments were written as references to events
that do not exist upon reading the document back.
---
 src/serialization.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serialization.cc b/src/serialization.cc
index 64d2f29..4c552bc 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -85,6 +85,13 @@ void SerializeElement(const Element& element, xml::StreamElement* xml_element) {
 void Serialize(const Formula& formula, xml::StreamElement* parent) {
   auto stream_event = [](const Formula::ArgEvent& event,
                          xml::StreamElement* xml) {
+    if (event == Formula::ArgEvent(&HouseEvent::kTrue) ||
+        event == Formula::ArgEvent(&HouseEvent::kFalse)) {
+      xml->AddChild("constant")
+          .SetAttribute("value",
+                        event == Formula::ArgEvent(&HouseEvent::kTrue));
+      return;
+    }
     xml->AddChild("event").SetAttribute(
         "name", ext::as<const mef::Event*>(event)->name());
   };
-- 
2.43.0


From caebe7b22c9cc8adf955b651538233a6f0f46c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 42/79] fix: serialize iff, imply, and cardinality formulas

The serializer had no case for these connectives.
---
 src/serialization.cc | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index 4c552bc..720c99a 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -109,31 +109,12 @@ void Serialize(const Formula& formula, xml::StreamElement* parent) {
     assert(formula.args().front().complement == false);
     stream_event(formula.args().front().event, parent);
   } else {
-    xml::StreamElement type_element = [&formula, &parent] {
-      switch (formula.connective()) {
-        case kNot:
-          assert(formula.args().front().complement == false);
-          return parent->AddChild("not");
-        case kAnd:
-          return parent->AddChild("and");
-        case kOr:
-          return parent->AddChild("or");
-        case kNand:
-          return parent->AddChild("nand");
-        case kNor:
-          return parent->AddChild("nor");
-        case kXor:
-          return parent->AddChild("xor");
-        case kAtleast:
-          return [&formula, &parent] {
-            xml::StreamElement atleast = parent->AddChild("atleast");
-            atleast.SetAttribute("min", *formula.min_number());
-            return atleast;
-          }();  // Wrap NRVO into RVO for GCC.
-        default:
-          assert(false && "Unexpected formula");
-      }
-    }();
+    xml::StreamElement type_element =
+        parent->AddChild(kConnectiveToString[formula.connective()]);
+    if (formula.min_number())
+      type_element.SetAttribute("min", *formula.min_number());
+    if (formula.max_number())
+      type_element.SetAttribute("max", *formula.max_number());
     for (const Formula::Arg& arg : formula.args())
       stream_arg(arg, &type_element);
   }
-- 
2.43.0


From add7747a7eb985a32ce943cfea89b5c6cc083b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 43/79] fix: serialize numbers without loss of precision

The values were written with six significant digits.
---
 src/serialization.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index 720c99a..00dd1b5 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -21,8 +21,10 @@
 
 #include <cerrno>
 #include <cstdio>
+#include <cstdlib>
 
 #include <memory>
+#include <string>
 
 #include <boost/exception/errinfo_errno.hpp>
 #include <boost/exception/errinfo_file_name.hpp>
@@ -136,12 +138,24 @@ void Serialize(const FaultTree& fault_tree, xml::StreamElement* parent) {
     Serialize(gate, &ft_element);
 }
 
+/// @returns The shortest decimal text that reads back as the same number.
+std::string ToString(double value) {
+  char text[32];
+  for (int precision : {6, 15, 17}) {
+    std::snprintf(text, sizeof(text), "%.*g", precision, value);
+    if (std::strtod(text, nullptr) == value)
+      break;
+  }
+  return text;
+}
+
 void Serialize(const Expression& expression, xml::StreamElement* parent) {
   if (const auto* constant =
           dynamic_cast<const ConstantExpression*>(&expression)) {
     /// @todo Track the original value type of the constant expression.
     parent->AddChild("float").SetAttribute(
-        "value", const_cast<ConstantExpression*>(constant)->value());
+        "value",
+        ToString(const_cast<ConstantExpression*>(constant)->value()));
   } else if (const auto* exponential =
                  dynamic_cast<const Exponential*>(&expression)) {
     xml::StreamElement xml = parent->AddChild("exponential");
-- 
2.43.0


From 9ac2f1ee04ed281b8b9329a45d957156671807de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 44/79] fix: refuse to serialize models with constructs that
 would be lost

Alignments, substitutions, and extern libraries were silently dropped.
---
 src/serialization.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serialization.cc b/src/serialization.cc
index 00dd1b5..2a49862 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -200,6 +200,10 @@ void Serialize(const Model& model, std::FILE* out) {
   assert(model.event_trees().empty());
   assert(model.sequences().empty());
   assert(model.rules().empty());
+  assert(model.alignments().empty());
+  assert(model.substitutions().empty());
+  assert(model.libraries().empty());
+  assert(model.extern_functions().empty());
 
   for (const FaultTree& fault_tree : model.fault_trees())
     Serialize(fault_tree, &root);
-- 
2.43.0


From 00fc0cdd0a02b84087566609aaf1ed19989732f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 45/79] fix: write the minimum int to XML streams without
 overflow

---
 src/xml_stream.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index 358be1b..53d8fae 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -119,11 +119,12 @@ class FileStream {
   void write(const char* value) { std::fputs(value, file_); }
   void write(const char value) { std::fputc(value, file_); }
   void write(int value) {
+    std::size_t magnitude = value;
     if (value < 0) {
       std::fputc('-', file_);
-      value = -value;
+      magnitude = -magnitude;  // Well-defined even for the minimum int.
     }
-    write(static_cast<std::size_t>(value));
+    write(magnitude);
   }
   void write(std::size_t value) {
     char temp[20];
-- 
2.43.0


From 38d83627cbf1f8f1c21edb0576f40f2089cb1fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 46/79] fix: trim all white space around XML values

Numbers on a line of their own (for example, in project files)
were rejected although they are valid by the schema.
---
 src/xml.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/xml.h b/src/xml.h
index 9f3b85c..de75f01 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -126,7 +126,7 @@ inline const xmlChar* to_utf8(const char* c_string) noexcept {
   return reinterpret_cast<const xmlChar*>(c_string);
 }
 
-/// Removes leading and trailing space characters from XML value string.
+/// Removes leading and trailing white space from XML value string.
 ///
 /// @param[in] text  The text in XML attribute or text nodes.
 ///
@@ -134,11 +134,12 @@ inline const xmlChar* to_utf8(const char* c_string) noexcept {
 ///
 /// @pre The string is normalized by the XML parser.
 inline std::string_view trim(const std::string_view& text) noexcept {
-  auto pos_first = text.find_first_not_of(' ');
+  const char* const spaces = " \t\n\r";
+  auto pos_first = text.find_first_not_of(spaces);
   if (pos_first == std::string_view::npos)
     return {};
 
-  auto pos_last = text.find_last_not_of(' ');
+  auto pos_last = text.find_last_not_of(spaces);
   auto len = pos_last - pos_first + 1;
 
   return std::string_view(text.data() + pos_first, len);
-- 
2.43.0


From a54b1b01c1770b4c88b81ebc2a41f3be5934e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 47/79] fix: do not abort upon an empty version attribute in
 project files

---
 src/xml.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xml.h b/src/xml.h
index de75f01..a4270c6 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -291,7 +291,9 @@ class Element {
     if (!property)
       return {};
     const xmlNode* text_node = property->children;
-    assert(text_node && text_node->type == XML_TEXT_NODE);
+    if (!text_node)  // Possible only before the validation.
+      return {};
+    assert(text_node->type == XML_TEXT_NODE);
     assert(text_node->content);
     return detail::trim(detail::from_utf8(text_node->content));
   }
-- 
2.43.0


From 68f1608e568d9bf5147a1f0e81970fbb16529e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 48/79] fix: read XML text with comments and CDATA sections as
 a whole

Only the text before the first comment was read,
and CDATA sections or DTD entities aborted the program.
---
 src/xml.cc | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 src/xml.h  |  4 +++-
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/xml.cc b/src/xml.cc
index de9b947..967dcad 100644
--- a/src/xml.cc
+++ b/src/xml.cc
@@ -24,6 +24,52 @@
 
 namespace scram::xml {
 
+namespace {
+
+/// Ensures that the node is not an unresolved reference to a DTD entity.
+void CheckEntity(const xmlNode* node, const xmlNode* parent) {
+  if (node->type == XML_ENTITY_REF_NODE)
+    SCRAM_THROW(ParseError("References to DTD entities are not supported."))
+        << boost::errinfo_file_name(detail::from_utf8(parent->doc->URL))
+        << boost::errinfo_at_line(XML_GET_LINE(parent));
+}
+
+/// Removes comments and processing instructions from the contents of an element
+/// so that every text is in a single node.
+///
+/// @param[in,out] element  The node with contents.
+///
+/// @throws ParseError  There are references to DTD entities.
+void Normalize(xmlNode* element) {
+  for (const xmlAttr* attr = element->properties; attr; attr = attr->next) {
+    for (const xmlNode* node = attr->children; node; node = node->next)
+      CheckEntity(node, element);
+  }
+  for (xmlNode* node = element->children; node;) {
+    xmlNode* next = node->next;
+    CheckEntity(node, element);
+    switch (node->type) {
+      case XML_COMMENT_NODE:
+      case XML_PI_NODE:
+        xmlUnlinkNode(node);
+        xmlFreeNode(node);
+        break;
+      case XML_TEXT_NODE:
+        if (node->prev && node->prev->type == XML_TEXT_NODE)
+          xmlTextMerge(node->prev, node);  // Frees the second node.
+        break;
+      case XML_ELEMENT_NODE:
+        Normalize(node);
+        break;
+      default:
+        break;
+    }
+    node = next;
+  }
+}
+
+}  // namespace
+
 Document::Document(const std::string& file_path, Validator* validator)
     : doc_(nullptr, &xmlFreeDoc) {
   xmlResetLastError();
@@ -40,6 +86,7 @@ Document::Document(const std::string& file_path, Validator* validator)
   assert(doc_ && "Internal XML library failure.");
   if (xmlXIncludeProcessFlags(get(), kParserOptions) < 0 || xmlGetLastError())
     SCRAM_THROW(detail::GetError<XIncludeError>());
+  Normalize(xmlDocGetRootElement(get()));
   if (validator)
     validator->validate(*this);
 }
diff --git a/src/xml.h b/src/xml.h
index a4270c6..ca08c4f 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -396,7 +396,8 @@ class Element {
 /// The parser options passed to the library parser.
 const int kParserOptions = XML_PARSE_XINCLUDE | XML_PARSE_NOBASEFIX |
                            XML_PARSE_NONET | XML_PARSE_NOXINCNODE |
-                           XML_PARSE_COMPACT | XML_PARSE_HUGE;
+                           XML_PARSE_NOCDATA | XML_PARSE_COMPACT |
+                           XML_PARSE_HUGE;
 
 class Validator;  // Forward declaration for validation upon DOM constructions.
 
@@ -414,6 +415,7 @@ class Document {
   /// @throws IOError  The file is not available.
   /// @throws ParseError  There are XML parsing failures.
   /// @throws XIncludeError  XInclude resolution has failed.
+  /// @throws ParseError  There are references to DTD entities.
   /// @throws ValidityError  The XML file is not valid.
   explicit Document(const std::string& file_path,
                     Validator* validator = nullptr);
-- 
2.43.0


From bdda7a495315697c5277e35fde5ac59f8e215673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 49/79] fix: escape CDATA end and white space in XML streams

The text with ]]> made the output malformed,
and tabs with new lines in attribute values were lost upon reading.
---
 src/xml_stream.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index 53d8fae..de8515a 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -361,7 +361,11 @@ class StreamElement {
             return false;
           case '&':
           case '<':
+          case '>':
           case '"':
+          case '\t':
+          case '\n':
+          case '\r':
             return true;
         }
       }
@@ -370,7 +374,7 @@ class StreamElement {
     if (!has_special_chars) {  // The most common case.
       out_ << value;
     } else {
-      for (;; ++value) {
+      for (const char* begin = value;; ++value) {
         switch (*value) {
           case '\0':
             return;
@@ -380,9 +384,25 @@ class StreamElement {
           case '<':
             out_ << "&lt;";
             break;
+          case '>':  // Required only upon the CDATA section end.
+            if (value - begin >= 2 && value[-1] == ']' && value[-2] == ']') {
+              out_ << "&gt;";
+            } else {
+              out_ << *value;
+            }
+            break;
           case '"':
             out_ << "&quot;";
             break;
+          case '\t':  // The white space is subject to normalization by readers.
+            out_ << "&#9;";
+            break;
+          case '\n':
+            out_ << "&#10;";
+            break;
+          case '\r':
+            out_ << "&#13;";
+            break;
           default:
             out_ << *value;
         }
-- 
2.43.0


From 3ca7a12085940f7adf8679f8f08ccf577c8c63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 50/79] fix: reject infinite mission time and time step

The analysis over time steps never ended.
---
 src/settings.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index 18454e3..43455ed 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -20,6 +20,8 @@
 
 #include "settings.h"
 
+#include <cmath>
+
 #include <string>
 
 #include <boost/range/algorithm.hpp>
@@ -141,8 +143,8 @@ Settings& Settings::seed(int s) {
 }
 
 Settings& Settings::mission_time(double time) {
-  if (!(time >= 0))  // NaN is not a time.
-    SCRAM_THROW(SettingsError("The mission time cannot be negative."))
+  if (!(time >= 0) || std::isinf(time))  // NaN is not a time.
+    SCRAM_THROW(SettingsError("The mission time must be finite non-negative."))
         << errinfo_value(std::to_string(time));
 
   mission_time_ = time;
@@ -150,8 +152,8 @@ Settings& Settings::mission_time(double time) {
 }
 
 Settings& Settings::time_step(double time) {
-  if (!(time >= 0))  // NaN is not a time.
-    SCRAM_THROW(SettingsError("The time step cannot be negative."))
+  if (!(time >= 0) || std::isinf(time))  // NaN is not a time.
+    SCRAM_THROW(SettingsError("The time step must be finite non-negative."))
         << errinfo_value(std::to_string(time));
   if (!time && safety_integrity_levels_)
     SCRAM_THROW(SettingsError("The time step cannot be disabled for the SIL"))
-- 
2.43.0


From 22c8c452845ef4dca38997c34202d41249278bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 51/79] fix: write infinities and NaN as XML Schema numbers

---
 src/xml_stream.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index de8515a..3ae1de8 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -22,6 +22,7 @@
 
 #include <cassert>
 #include <cerrno>
+#include <cmath>
 #include <cstdio>
 
 #include <algorithm>
@@ -138,7 +139,13 @@ class FileStream {
       std::fputc(*--p, file_);
     } while (p != temp);
   }
-  void write(double value) { std::fprintf(file_, "%g", value); }
+  void write(double value) {
+    if (std::isfinite(value)) {
+      std::fprintf(file_, "%g", value);
+    } else {  // The lexical representations of XML Schema.
+      write(std::isnan(value) ? "NaN" : value > 0 ? "INF" : "-INF");
+    }
+  }
   /// @}
 
  private:
-- 
2.43.0


From 768bda90ce0db721d8e6806e253e3c7fb130f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 52/79] fix: add substitutions to the report schema

The reports of models with substitutions were invalid.
---
 share/report.rng | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/share/report.rng b/share/report.rng
index 7d67566..9489c46 100644
--- a/share/report.rng
+++ b/share/report.rng
@@ -95,6 +95,11 @@
             <data type="nonNegativeInteger"/>
           </element>
         </optional>
+        <optional>
+          <element name="substitutions">
+            <data type="nonNegativeInteger"/>
+          </element>
+        </optional>
       </element>
       <zeroOrMore>
         <element name="warning"> <text/> </element>
-- 
2.43.0


From 031814faf4458af0975e2d7567c7a23ef98d53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:29 +0000
Subject: [PATCH 53/79] fix: leave out empty results from reports

The schema requires at least one result.
---
 src/reporter.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/reporter.cc b/src/reporter.cc
index 3c8ccab..1344c88 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -24,6 +24,7 @@
 #include <cstdio>
 #include <ctime>
 
+#include <algorithm>
 #include <memory>
 #include <utility>
 #include <vector>
@@ -76,7 +77,15 @@ void Reporter::Report(const core::RiskAnalysis& risk_an, std::FILE* out,
   xml::StreamElement report = xml_stream.root("report");
   ReportInformation(risk_an, &report);
 
-  if (risk_an.results().empty() && risk_an.event_tree_results().empty())
+  // Sequences with expressions only are reported with probabilities only.
+  bool no_probabilities = !risk_an.settings().probability_analysis() ||
+                          risk_an.event_tree_results().empty();
+  bool no_products =
+      std::none_of(risk_an.results().begin(), risk_an.results().end(),
+                   [](const core::RiskAnalysis::Result& result) -> bool {
+                     return result.fault_tree_analysis.get();
+                   });
+  if (no_probabilities && no_products)
     return;
   TIMER(DEBUG1, "Reporting analysis results");
   xml::StreamElement results = report.AddChild("results");
-- 
2.43.0


From 990a9f2a77bcf220957ce9719b9d350640a87cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:29 +0000
Subject: [PATCH 54/79] fix: allow confidence limits beyond probabilities in
 the report schema

The limits of the normal approximation are below zero or above one
with few trials.
---
 share/report.rng | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/report.rng b/share/report.rng
index 9489c46..0b469d9 100644
--- a/share/report.rng
+++ b/share/report.rng
@@ -332,8 +332,8 @@
             <param name="maxExclusive">100</param>
           </data>
         </attribute>
-        <attribute name="lower-bound"> <ref name="probability-data"/> </attribute>
-        <attribute name="upper-bound"> <ref name="probability-data"/> </attribute>
+        <attribute name="lower-bound"> <data type="double"/> </attribute>
+        <attribute name="upper-bound"> <data type="double"/> </attribute>
       </element>
       <element name="error-factor">
         <attribute name="percentage">
-- 
2.43.0


From e75327650db3b20d750887fef45b025e08ce8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:24 +0000
Subject: [PATCH 55/79] fix: order the top events of fault trees independently
 of gate addresses

---
 src/fault_tree.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fault_tree.cc b/src/fault_tree.cc
index 90e0614..a014faa 100644
--- a/src/fault_tree.cc
+++ b/src/fault_tree.cc
@@ -20,6 +20,8 @@
 
 #include "fault_tree.h"
 
+#include <algorithm>
+
 #include "error.h"
 
 namespace scram::mef {
@@ -75,6 +77,10 @@ void FaultTree::CollectTopEvents() {
       top_events_.push_back(gate);
     }
   }
+  // The addresses of the gates must not decide the order of their analyses.
+  std::sort(
+      top_events_.begin(), top_events_.end(),
+      [](const Gate* lhs, const Gate* rhs) { return lhs->id() < rhs->id(); });
 }
 
 void FaultTree::MarkNonTopGates(Gate* gate,
-- 
2.43.0


From 40d8c2a92972479563192ed30ba69f506627ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:24 +0000
Subject: [PATCH 56/79] fix: analyze event-tree sequences in the order of their
 discovery

---
 src/event_tree_analysis.cc | 11 ++++++++---
 src/event_tree_analysis.h  |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index 49afc8b..d340b51 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -111,7 +111,8 @@ void EventTreeAnalysis::Analyze() noexcept {
 
   SequenceCollector collector{initiating_event_, *context_};
   CollectSequences(initiating_event_.event_tree()->initial_state(), &collector);
-  for (auto& sequence : collector.sequences) {
+  for (const mef::Sequence* end_state : collector.order) {
+    auto& sequence = *collector.sequences.find(end_state);
     auto gate = std::make_unique<mef::Gate>("__" + sequence.first->name());
     std::vector<mef::FormulaPtr> gate_formulas;
     std::vector<mef::Expression*> arg_expressions;
@@ -226,8 +227,12 @@ void EventTreeAnalysis::CollectSequences(const mef::Branch& initial_state,
       Visitor visitor(this);
       for (const mef::Instruction* instruction : sequence->instructions())
         instruction->Accept(&visitor);
-      if (!visitor.is_linked())
-        result_->sequences[sequence].push_back(std::move(path_collector_));
+      if (!visitor.is_linked()) {
+        std::vector<PathCollector>& paths = result_->sequences[sequence];
+        if (paths.empty())
+          result_->order.push_back(sequence);
+        paths.push_back(std::move(path_collector_));
+      }
     }
 
     void operator()(const mef::Fork* fork) const {
diff --git a/src/event_tree_analysis.h b/src/event_tree_analysis.h
index d1206e9..767e692 100644
--- a/src/event_tree_analysis.h
+++ b/src/event_tree_analysis.h
@@ -83,6 +83,8 @@ class EventTreeAnalysis : public Analysis {
     /// Sequences with collected paths.
     std::unordered_map<const mef::Sequence*, std::vector<PathCollector>>
         sequences;
+    /// The sequences in the order of discovery.
+    std::vector<const mef::Sequence*> order;
   };
 
   /// Walks the branch and collects sequences with expressions if any.
-- 
2.43.0


From 21d8dc9ec8c337e842fdea9c7ae3bafa8e5d09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:12 +0000
Subject: [PATCH 57/79] fix: preprocess gates in an order independent of their
 addresses

---
 src/preprocessor.cc |  4 ++--
 src/preprocessor.h  | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 10c139f..495c8df 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -752,7 +752,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
 
   graph_->Clear<Pdag::kGateMark>();
   // The original gate and its multiple definitions.
-  std::unordered_map<GatePtr, std::vector<GateWeakPtr>> multi_def;
+  std::map<GatePtr, std::vector<GateWeakPtr>, IndexOrder> multi_def;
   {
     GateSet unique_gates;
     DetectMultipleDefinitions(graph_->root(), &multi_def, &unique_gates);
@@ -777,7 +777,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
 
 void Preprocessor::DetectMultipleDefinitions(
     const GatePtr& gate,
-    std::unordered_map<GatePtr, std::vector<GateWeakPtr>>* multi_def,
+    std::map<GatePtr, std::vector<GateWeakPtr>, IndexOrder>* multi_def,
     GateSet* unique_gates) noexcept {
   if (gate->mark())
     return;
diff --git a/src/preprocessor.h b/src/preprocessor.h
index efc3e52..6ecc187 100644
--- a/src/preprocessor.h
+++ b/src/preprocessor.h
@@ -21,6 +21,7 @@
 
 #pragma once
 
+#include <map>
 #include <memory>
 #include <set>
 #include <unordered_map>
@@ -111,6 +112,14 @@ class Preprocessor : private boost::noncopyable {
  protected:
   class GateSet;  ///< Container of unique gates by semantics.
 
+  /// The order of gates that is independent of their addresses.
+  struct IndexOrder {
+    /// @returns true if the first gate comes before the second one.
+    bool operator()(const GatePtr& lhs, const GatePtr& rhs) const {
+      return lhs->index() < rhs->index();
+    }
+  };
+
   /// Runs the default preprocessing
   /// that achieves the graph in a normal form.
   virtual void Run() noexcept = 0;
@@ -324,7 +333,7 @@ class Preprocessor : private boost::noncopyable {
   /// @warning Gate marks must be clear.
   void DetectMultipleDefinitions(
       const GatePtr& gate,
-      std::unordered_map<GatePtr, std::vector<GateWeakPtr>>* multi_def,
+      std::map<GatePtr, std::vector<GateWeakPtr>, IndexOrder>* multi_def,
       GateSet* unique_gates) noexcept;
 
   /// Traverses the PDAG to detect modules.
@@ -475,7 +484,8 @@ class Preprocessor : private boost::noncopyable {
   /// common arguments of gates into new gates.
   struct MergeTable {
     using CommonArgs = std::vector<int>;  ///< Unique, sorted common arguments.
-    using CommonParents = std::set<GatePtr>;  ///< Unique common parent gates.
+    /// Unique common parent gates.
+    using CommonParents = std::set<GatePtr, IndexOrder>;
     using Option = std::pair<CommonArgs, CommonParents>;  ///< One possibility.
     using OptionGroup = std::vector<Option*>;  ///< A set of best options.
     using MergeGroup = std::vector<Option>;  ///< Isolated group for processing.
-- 
2.43.0


From 9546925181e329acf478f9e23f70d4841b50b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 58/79] fix: validate every document against the schema in a
 fresh context

---
 src/xml.cc |  7 +------
 src/xml.h  | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/xml.cc b/src/xml.cc
index 967dcad..73bcca9 100644
--- a/src/xml.cc
+++ b/src/xml.cc
@@ -92,8 +92,7 @@ Document::Document(const std::string& file_path, Validator* validator)
 }
 
 Validator::Validator(const std::string& rng_file)
-    : schema_(nullptr, &xmlRelaxNGFree),
-      valid_ctxt_(nullptr, &xmlRelaxNGFreeValidCtxt) {
+    : schema_(nullptr, &xmlRelaxNGFree) {
   xmlResetLastError();
   std::unique_ptr<xmlRelaxNGParserCtxt, decltype(&xmlRelaxNGFreeParserCtxt)>
       parser_ctxt(xmlRelaxNGNewParserCtxt(rng_file.c_str()),
@@ -104,10 +103,6 @@ Validator::Validator(const std::string& rng_file)
   schema_.reset(xmlRelaxNGParse(parser_ctxt.get()));
   if (!schema_)
     SCRAM_THROW(detail::GetError<ParseError>());
-
-  valid_ctxt_.reset(xmlRelaxNGNewValidCtxt(schema_.get()));
-  if (!valid_ctxt_)
-    SCRAM_THROW(detail::GetError<LogicError>());
 }
 
 }  // namespace scram::xml
diff --git a/src/xml.h b/src/xml.h
index ca08c4f..fdb4997 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -452,20 +452,25 @@ class Validator {
   /// @param[in] doc  The initialized XML DOM document.
   ///
   /// @throws ValidityError  The document failed schema validation.
+  /// @throws LogicError  The XML library functions have failed internally.
   void validate(const Document& doc) {
     xmlResetLastError();
-    int ret = xmlRelaxNGValidateDoc(valid_ctxt_.get(),
+    // The context keeps the state of the validations done with it.
+    std::unique_ptr<xmlRelaxNGValidCtxt, decltype(&xmlRelaxNGFreeValidCtxt)>
+        valid_ctxt(xmlRelaxNGNewValidCtxt(schema_.get()),
+                   &xmlRelaxNGFreeValidCtxt);
+    if (!valid_ctxt)
+      SCRAM_THROW(detail::GetError<LogicError>());
+
+    int ret = xmlRelaxNGValidateDoc(valid_ctxt.get(),
                                     const_cast<xmlDoc*>(doc.get()));
     if (ret != 0)
       SCRAM_THROW(detail::GetError<ValidityError>());
   }
 
  private:
-  /// The schema used by the validation context.
+  /// The schema used by the validation contexts.
   std::unique_ptr<xmlRelaxNG, decltype(&xmlRelaxNGFree)> schema_;
-  /// The validation context.
-  std::unique_ptr<xmlRelaxNGValidCtxt, decltype(&xmlRelaxNGFreeValidCtxt)>
-      valid_ctxt_;
 };
 
 }  // namespace scram::xml
-- 
2.43.0


From 36600cd87a247ccf53de8de6b46d2863c995e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 59/79] fix: reject too large min and max numbers of
 connectives

---
 src/event.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/event.cc b/src/event.cc
index 9658648..6937272 100644
--- a/src/event.cc
+++ b/src/event.cc
@@ -127,10 +127,12 @@ void Formula::Swap(ArgEvent current, ArgEvent other) {
 
 void Formula::ValidateMinMaxNumber(std::optional<int> min_number,
                                    std::optional<int> max_number) {
-  assert(!min_number ||
-         std::numeric_limits<decltype(min_number_)>::max() >= *min_number);
-  assert(!max_number ||
-         std::numeric_limits<decltype(max_number_)>::max() >= *max_number);
+  for (const std::optional<int>& number : {min_number, max_number}) {
+    if (number && *number > std::numeric_limits<decltype(min_number_)>::max())
+      SCRAM_THROW(
+          ValidityError("The connective min/max number is too large."))
+          << errinfo_value(std::to_string(*number));
+  }
 
   if (min_number) {
     if (*min_number < 0)
-- 
2.43.0


From a3c1dbfd3bc40ccd2df8c39e15603f7ee752e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 60/79] fix: do not throw from gamma quantile estimates out of
 the range of doubles

---
 src/expression/random_deviate.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index 6c2caae..e96f08c 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -132,9 +132,15 @@ void GammaDeviate::Validate() const {
 }
 
 Interval GammaDeviate::interval() noexcept {
+  namespace policies = boost::math::policies;
+  using policies::ignore_error;
+  using NoThrow = policies::policy<policies::domain_error<ignore_error>,
+                                   policies::pole_error<ignore_error>,
+                                   policies::overflow_error<ignore_error>,
+                                   policies::evaluation_error<ignore_error>>;
   double high_estimate =
-      theta_.value() * boost::math::gamma_p_inv(k_.value(), 0.99);
-  return Interval::left_open(0, std::max(high_estimate, this->value()));
+      theta_.value() * boost::math::gamma_p_inv(k_.value(), 0.99, NoThrow());
+  return Interval::left_open(0, std::max(this->value(), high_estimate));
 }
 
 double GammaDeviate::DoSample() noexcept {
-- 
2.43.0


From 05265847d5292cc4f308d3bc6a870470a3ea448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 61/79] fix: keep beta deviates of extreme shapes from sampling
 NaN

---
 src/expression/random_deviate.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index e96f08c..9e1b9fb 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -164,8 +164,10 @@ void BetaDeviate::Validate() const {
 }
 
 double BetaDeviate::DoSample() noexcept {
-  return boost::random::beta_distribution(alpha_.value(),
-                                          beta_.value())(RandomDeviate::rng());
+  double sample = boost::random::beta_distribution(
+      alpha_.value(), beta_.value())(RandomDeviate::rng());
+  // The gamma variates of the extreme shapes overflow or underflow.
+  return std::isnan(sample) ? this->value() : sample;
 }
 
 Histogram::Histogram(std::vector<Expression*> boundaries,
-- 
2.43.0


From 97038bd238764ed0d2c2aa2f75598e2ac7749740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:26 +0000
Subject: [PATCH 62/79] fix: reject elements without the required text

---
 src/xml.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xml.h b/src/xml.h
index fdb4997..faeb2ee 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -326,12 +326,16 @@ class Element {
 
   /// @returns The XML element's text.
   ///
-  /// @pre The Element has text.
+  /// @throws ValidityError  The Element does not have text.
   std::string_view text() const {
     const xmlNode* text_node = element_->children;
     while (text_node && text_node->type != XML_TEXT_NODE)
       text_node = text_node->next;
-    assert(text_node && "Element does not have text.");
+    if (!text_node)
+      SCRAM_THROW(ValidityError("The element does not have text."))
+          << errinfo_element(std::string(name()))
+          << boost::errinfo_at_line(line())
+          << boost::errinfo_file_name(filename());
     assert(text_node->content && "Missing text in Element.");
     return detail::trim(detail::from_utf8(text_node->content));
   }
-- 
2.43.0


From 3cdba8dd924c9e165dba09af4202b786e0149cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:26 +0000
Subject: [PATCH 63/79] fix: Save and load exponential expressions of the
 system mission time in the editor

The editor makes every exponential expression with the system mission
time; saving it ended in an assertion failure, and the schema of the
editor did not accept it.
---
 share/gui.rng        | 7 ++++++-
 src/serialization.cc | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/share/gui.rng b/share/gui.rng
index 23f44b1..2522f84 100644
--- a/share/gui.rng
+++ b/share/gui.rng
@@ -381,7 +381,12 @@
     <define name="exponential">
       <element name="exponential">
         <ref name="expression"/>
-        <ref name="expression"/>
+        <choice>
+          <ref name="expression"/>
+          <element name="system-mission-time">
+            <empty/>
+          </element>
+        </choice>
       </element>
     </define>
 
diff --git a/src/serialization.cc b/src/serialization.cc
index 2a49862..1306e57 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -37,6 +37,7 @@
 #include "expression/exponential.h"
 #include "ext/variant.h"
 #include "fault_tree.h"
+#include "parameter.h"
 #include "xml_stream.h"
 
 namespace scram::mef {
@@ -162,6 +163,8 @@ void Serialize(const Expression& expression, xml::StreamElement* parent) {
     assert(exponential->args().size() == 2);
     for (const Expression* arg : exponential->args())
       Serialize(*arg, &xml);
+  } else if (dynamic_cast<const MissionTime*>(&expression)) {
+    parent->AddChild("system-mission-time");
   } else {
     assert(false && "Unsupported expression");
   }
-- 
2.43.0


From 2e93ea342502240d0df4b3c74ef795c21a093fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:27 +0000
Subject: [PATCH 64/79] fix: Count the periods of tests that do not fit into an
 integer

The conversion of the ratio of the times to int is undefined if it is
out of range, and the result was a probability of zero or one.
---
 src/expression/exponential.cc | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index a0da6f5..8200b31 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -23,6 +23,7 @@
 #include <cmath>
 
 #include <algorithm>
+#include <tuple>
 
 #include "src/error.h"
 
@@ -58,6 +59,22 @@ double p_exp(double p_mu, double p_lambda, double mu, double lambda,
                       : (lambda * p_mu - mu * p_lambda) / (lambda - mu);
 }
 
+/// @param[in] time  The time since the first test.
+/// @param[in] tau  The time between tests.
+///
+/// @returns The number of full periods between tests;
+///          it is not necessarily representable with an integer.
+double NumPeriods(double time, double tau) { return std::floor(time / tau); }
+
+/// @copydetails NumPeriods
+///
+/// @param[in] num_periods  The number of full periods between tests.
+///
+/// @returns The time passed after the last test.
+double TimeAfterTest(double time, double tau, double num_periods) {
+  return std::min(std::max(time - num_periods * tau, 0.0), tau);
+}
+
 }  // namespace
 
 Exponential::Exponential(Expression* lambda, Expression* t)
@@ -167,7 +184,7 @@ double PeriodicTest::InstantRepair::Compute(double lambda, double tau,
   if (time <= theta)  // No test has been performed.
     return p_exp(lambda, time);
   double delta = time - theta;
-  double time_after_test = delta - static_cast<int>(delta / tau) * tau;
+  double time_after_test = TimeAfterTest(delta, tau, NumPeriods(delta, tau));
   return p_exp(lambda, time_after_test ? time_after_test : tau);
 }
 
@@ -198,12 +215,12 @@ double PeriodicTest::InstantTest::Compute(double lambda, double mu, double tau,
   };
 
   double delta = time - theta;
-  int num_periods = delta / tau;
+  double num_periods = NumPeriods(delta, tau);
   double fraction = carry(p_exp(lambda, tau), p_exp(mu, tau), tau);
   double compound = std::pow(fraction, num_periods);  // Geometric progression.
   prob = prob * compound + p_exp(lambda, tau) * (compound - 1) / (fraction - 1);
 
-  double time_after_test = delta - num_periods * tau;
+  double time_after_test = TimeAfterTest(delta, tau, num_periods);
   return p_period(p_exp(lambda, time_after_test), p_exp(mu, time_after_test),
                   time_after_test);
 }
@@ -261,7 +278,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
   };
 
   double delta = time - theta;
-  int num_periods = delta / tau;
+  double num_periods = NumPeriods(delta, tau);
   double delta_period = tau - test_duration;
 
   double p_lambda_test = p_exp(lambda_test, test_duration);
@@ -271,12 +288,15 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
   double p_lambda = p_exp(lambda, delta_period);
   double p_mu = p_exp(mu, delta_period);
 
-  for (int i = 0; i < num_periods; ++i) {
+  for (double i = 0; i < num_periods; ++i) {
+    auto state = std::make_tuple(p_fail, p_repair, p_available);
     p_test(p_lambda_test, p_mu_at_test, p_lambda_at_test, test_duration);
     p_period(p_lambda, p_mu, delta_period);
+    if (state == std::tie(p_fail, p_repair, p_available))
+      break;  // All the remaining periods are the same.
   }
 
-  double time_after_test = delta - num_periods * tau;
+  double time_after_test = TimeAfterTest(delta, tau, num_periods);
   if (time_after_test <= test_duration) {
     p_test(p_exp(lambda_test, time_after_test), p_exp(mu, time_after_test),
            p_exp(lambda, time_after_test), time_after_test, available_at_test);
-- 
2.43.0


From 1fb79e295e90817ecaef8d609bf814d2990e1bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:27 +0000
Subject: [PATCH 65/79] fix: Sum the periods of a periodic test with the ratio
 of one

A failure that is too rare for a floating-point number within one period
made the probability not a number.
---
 src/expression/exponential.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index 8200b31..8ba37d8 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -218,7 +218,8 @@ double PeriodicTest::InstantTest::Compute(double lambda, double mu, double tau,
   double num_periods = NumPeriods(delta, tau);
   double fraction = carry(p_exp(lambda, tau), p_exp(mu, tau), tau);
   double compound = std::pow(fraction, num_periods);  // Geometric progression.
-  prob = prob * compound + p_exp(lambda, tau) * (compound - 1) / (fraction - 1);
+  double sum = fraction == 1 ? num_periods : (compound - 1) / (fraction - 1);
+  prob = prob * compound + p_exp(lambda, tau) * sum;
 
   double time_after_test = TimeAfterTest(delta, tau, num_periods);
   return p_period(p_exp(lambda, time_after_test), p_exp(mu, time_after_test),
-- 
2.43.0


From 29e6d3cd60253111c482e32a5f572e3f75784f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:25 +0000
Subject: [PATCH 66/79] fix: Let the fault tree generator use a single common
 gate

---
 scripts/fault_tree_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 08538db..5d9fecb 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -595,7 +595,7 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
 
                 for random_gate in candidate_gates(common_gate):
                     num_tries += 1
-                    if num_tries >= max_tries:
+                    if num_tries > max_tries:
                         break
                     if random_gate in gate.g_arguments or random_gate is gate:
                         continue
-- 
2.43.0


From 14071cbc74cedf932e7278f265c6787744ef01a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:25 +0000
Subject: [PATCH 67/79] fix: Sample at least two arguments for gates in the
 fault tree generator

---
 scripts/fault_tree_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 5d9fecb..3b2fef4 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -298,6 +298,9 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         if random.random() < (self.__max_args - max_args):
             max_args += 1
 
+        # Other gate types may take all the arguments of the average.
+        max_args = max(max_args, 2)
+
         if gate.operator == "atleast":
             if max_args < 3:
                 max_args = 3
-- 
2.43.0


From faa2ba115c58dd4150fe326a4d4aa18f3431cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:25 +0000
Subject: [PATCH 68/79] fix: Keep the fault tree generator from exceeding the
 number of basic events

---
 scripts/fault_tree_generator.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 3b2fef4..d726a25 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -535,10 +535,14 @@ def correct_for_exhaustion(gates_queue, common_gate, fault_tree):
         gates_queue.append(new_gate)
 
 
-def choose_basic_event(s_common, common_basic, fault_tree):
+def choose_basic_event(gate, s_common, common_basic, fault_tree):
     """Creates a new basic event or uses a common one for gate arguments.
 
+    Any other basic event is reused
+    if no more basic events are needed and there are no common ones to use.
+
     Args:
+        gate: The parent gate for the basic event.
         s_common: Sampled factor to choose common basic events.
         common_basic: A list of common basic events to choose from.
         fault_tree: The fault tree container of all events and constructs.
@@ -546,8 +550,11 @@ def choose_basic_event(s_common, common_basic, fault_tree):
     Returns:
         Basic event argument for a gate.
     """
-    if s_common >= fault_tree.factors.common_b or not common_basic:
-        return fault_tree.construct_basic_event()
+    if len(fault_tree.basic_events) < fault_tree.factors.num_basic:
+        if s_common >= fault_tree.factors.common_b or not common_basic:
+            return fault_tree.construct_basic_event()
+    elif not set(common_basic) - gate.b_arguments:
+        return random.choice(fault_tree.basic_events)
 
     orphans = [x for x in common_basic if not x.parents]
     if orphans:
@@ -608,13 +615,19 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
                             gates_queue.append(random_gate)
                         gate.add_argument(random_gate)
                         break
+            elif (len(fault_tree.basic_events) == fault_tree.factors.num_basic
+                  and len(gate.b_arguments) < len(fault_tree.basic_events)):
+                # No more gates are needed.
+                gate.add_argument(
+                    choose_basic_event(gate, s_common, common_basic,
+                                       fault_tree))
             else:
                 new_gate = fault_tree.construct_gate()
                 gate.add_argument(new_gate)
                 gates_queue.append(new_gate)
         else:
             gate.add_argument(
-                choose_basic_event(s_common, common_basic, fault_tree))
+                choose_basic_event(gate, s_common, common_basic, fault_tree))
 
     correct_for_exhaustion(gates_queue, common_gate, fault_tree)
 
@@ -675,6 +688,7 @@ def generate_fault_tree(ft_name, root_name, factors):
     num_gate = factors.get_num_gate()
     num_common_basic = factors.get_num_common_basic(num_gate)
     num_common_gate = factors.get_num_common_gate(num_gate)
+    num_common_basic = min(num_common_basic, factors.num_basic)
     common_basic = [
         fault_tree.construct_basic_event() for _ in range(num_common_basic)
     ]
-- 
2.43.0


From b53ca293d95ab2be8f47d750160237a2473c1e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:25 +0000
Subject: [PATCH 69/79] fix: Use all common nodes in the fault tree generator

---
 scripts/fault_tree_generator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index d726a25..4bca8eb 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -509,21 +509,24 @@ def candidate_gates(common_gate):
         yield i
 
 
-def correct_for_exhaustion(gates_queue, common_gate, fault_tree):
+def correct_for_exhaustion(gates_queue, common_basic, common_gate, fault_tree):
     """Corrects the generation for queue exhaustion.
 
     Corner case when not enough new basic events initialized,
     but there are no more intermediate gates to use
     due to a big ratio or just random accident.
+    The same holds for common nodes that are not used yet.
 
     Args:
         gates_queue: A deque of gates to be initialized.
+        common_basic: A list of common basic events.
         common_gate: A list of common gates.
         fault_tree: The fault tree container of all events and constructs.
     """
     if gates_queue:
         return
-    if len(fault_tree.basic_events) < fault_tree.factors.num_basic:
+    if (len(fault_tree.basic_events) < fault_tree.factors.num_basic or
+            any(x.is_orphan() for x in common_basic + common_gate)):
         # Initialize one more gate
         # by randomly choosing places in the fault tree.
         random_gate = random.choice(fault_tree.gates)
@@ -629,7 +632,7 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
             gate.add_argument(
                 choose_basic_event(gate, s_common, common_basic, fault_tree))
 
-    correct_for_exhaustion(gates_queue, common_gate, fault_tree)
+    correct_for_exhaustion(gates_queue, common_basic, common_gate, fault_tree)
 
 
 def distribute_house_events(fault_tree):
-- 
2.43.0


From 3eca51414973427087631fa4d3d4cae92f3fe3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:26 +0000
Subject: [PATCH 70/79] fix: Summarize generated fault trees with the top gate
 only

---
 scripts/fault_tree_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 4bca8eb..d192a9f 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -795,7 +795,8 @@ def calculate_complexity_factors(fault_tree):
             num_common_g = len([x for x in gate.g_arguments if x.is_common()])
             common_g += num_common_g / num_g_arguments
     common_b /= len([x for x in fault_tree.gates if x.b_arguments])
-    common_g /= len([x for x in fault_tree.gates if x.g_arguments])
+    # There are no gate arguments if the top gate is the only one.
+    common_g /= len([x for x in fault_tree.gates if x.g_arguments]) or 1
     frac_b /= len(fault_tree.gates)
     return frac_b, common_b, common_g
 
-- 
2.43.0


From 328d339a4fa42291f5a5b16ddf71410c1ed35b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:26 +0000
Subject: [PATCH 71/79] fix: Report the unsatisfiable number of gates in the
 fault tree generator

---
 scripts/fault_tree_generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index d192a9f..0c11e7f 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -386,12 +386,16 @@ class Factors:  # pylint: disable=too-many-instance-attributes
             common = round(min_common + 0.05, 1)
         elif common > 2 * min_common:  # Really hope it does not happen
             common = 2 * min_common
-        assert common < 1  # Very brittle configuration here
+        if not min_common < common < 1:  # Very brittle configuration here
+            raise FactorError("Cannot achieve the # of gates "
+                              "with the avg. # of args and basic events")
 
         self.common_g = common
         self.common_b = common
         parents = 1 / (1 - min_common / common)
-        assert parents > 2  # This is brittle as well
+        if parents < 2:  # This is brittle as well
+            raise FactorError("Cannot achieve the # of gates "
+                              "with the avg. # of parents")
         self.parents_g = parents
         self.parents_b = parents
 
-- 
2.43.0


From 51de13b8c01d69f89c9b84cf056162bd34e9032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:26 +0000
Subject: [PATCH 72/79] fix: Report too many common gates in the fault tree
 generator

---
 scripts/fault_tree_generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 0c11e7f..b7c8dda 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -212,11 +212,16 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         """Calculates any derived factors from the setup.
 
         This function must be called after all public factors are initialized.
+
+        Raises:
+            FactorError: No basic events fit besides the common gates.
         """
         self.__max_args = Factors.__calculate_max_args(self.num_args,
                                                        self.__norm_weights)
         g_factor = 1 - self.common_g + self.common_g / self.parents_g
         self.__ratio = self.num_args * g_factor - 1
+        if self.__ratio <= 0:
+            raise FactorError("Too many common gates for the avg. # of args.")
         self.__percent_basic = self.__ratio / (1 + self.__ratio)
         self.__percent_gate = 1 / (1 + self.__ratio)
 
-- 
2.43.0


From 3a6afbbc51888da7630109fe4e708b5d63ff2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:26 +0000
Subject: [PATCH 73/79] fix: Distribute house events in fault trees without
 suitable gates

---
 scripts/fault_tree_generator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index b7c8dda..7bff83c 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -650,12 +650,14 @@ def distribute_house_events(fault_tree):
     Args:
         fault_tree: The fault tree container of all events and constructs.
     """
+    # The top gate is the last resort.
+    target_gates = [
+        x for x in fault_tree.gates
+        if x is not fault_tree.top_gate and x.operator not in ("xor", "not")
+    ] or [fault_tree.top_gate]
     while len(fault_tree.house_events) < fault_tree.factors.num_house:
-        target_gate = random.choice(fault_tree.gates)
-        if (target_gate is not fault_tree.top_gate and
-                target_gate.operator != "xor" and
-                target_gate.operator != "not"):
-            target_gate.add_argument(fault_tree.construct_house_event())
+        target_gate = random.choice(target_gates)
+        target_gate.add_argument(fault_tree.construct_house_event())
 
 
 def generate_ccf_groups(fault_tree):
-- 
2.43.0


From 140012b5ce494f12d20e68815debf5e646f30767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:50 +0000
Subject: [PATCH 74/79] fix: Print products of equal size in an order
 independent of event addresses

---
 src/fault_tree_analysis.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fault_tree_analysis.cc b/src/fault_tree_analysis.cc
index efbc96b..35e3e5e 100644
--- a/src/fault_tree_analysis.cc
+++ b/src/fault_tree_analysis.cc
@@ -65,9 +65,15 @@ void Print(const ProductContainer& products) {
     to_print.push_back(std::move(ids));
   }
   boost::sort(to_print, [](const ProductSet& lhs, const ProductSet& rhs) {
-    if (lhs.size() == rhs.size())
-      return lhs < rhs;
-    return lhs.size() < rhs.size();
+    if (lhs.size() != rhs.size())
+      return lhs.size() < rhs.size();
+    return std::lexicographical_compare(
+        lhs.begin(), lhs.end(), rhs.begin(), rhs.end(),
+        [](const LiteralPtr& one, const LiteralPtr& two) {
+          if (one.second != two.second)
+            return one.second->id() < two.second->id();
+          return one.first < two.first;
+        });
   });
   assert(!to_print.front().empty() && "Failure of the analysis with Unity!");
 
-- 
2.43.0


From 811a4920387ce0159e864d13262435dcd797ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:04 +0000
Subject: [PATCH 75/79] fix: Keep the min number of at-least formulas made in
 the editor

---
 gui/mainwindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index de5286b..de3f208 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -1134,7 +1134,7 @@ std::unique_ptr<mef::Formula> MainWindow::extract(const EventDialog &dialog)
     mef::Connective connective = dialog.connective();
     auto minNumber = [&connective, &dialog]() -> std::optional<int> {
         if (connective == mef::kAtleast)
-            dialog.minNumber();
+            return dialog.minNumber();
         return {};
     }();
     return std::make_unique<mef::Formula>(connective, std::move(arg_set),
-- 
2.43.0


From 248789b81c5ca8c2c057319387acc847779cbe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:04 +0000
Subject: [PATCH 76/79] fix: Show the min number of the gate in the event
 dialog

---
 gui/eventdialog.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index 0897563..36c5a77 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -309,12 +309,13 @@ void EventDialog::setupData(const model::Gate &element)
     }
 
     connectiveBox->setCurrentIndex(element.type());
-    if (element.minNumber())
-        minNumberBox->setValue(*element.minNumber());
     for (const mef::Formula::Arg &arg : element.args())
         argsList->addItem(QString::fromStdString(
             ext::as<const mef::Event *>(arg.event)->id()));
     emit formulaArgsChanged(); ///< @todo Bogus signal order conflicts.
+    if (element.minNumber()) // Its range is known only with the arguments.
+        minNumberBox->setValue(*element.minNumber());
+    validate();
 }
 
 std::unique_ptr<mef::Expression> EventDialog::expression() const
-- 
2.43.0


From 99754f022113c1758660b17cdce45db70ba04167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:04 +0000
Subject: [PATCH 77/79] fix: Show the exact probability and rate in the event
 dialog

---
 gui/eventdialog.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index 36c5a77..8b53758 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -21,6 +21,7 @@
 
 #include <QCompleter>
 #include <QListView>
+#include <QLocale>
 #include <QObject>
 #include <QPushButton>
 #include <QShortcut>
@@ -269,6 +270,12 @@ void EventDialog::setupData(const model::HouseEvent &element)
     stateBox->setCurrentIndex(element.state());
 }
 
+/// @returns The shortest text that reads back as exactly the same value.
+static QString toText(double value)
+{
+    return QString::number(value, 'g', QLocale::FloatingPointShortest);
+}
+
 void EventDialog::setupData(const model::BasicEvent &element)
 {
     setupData(element, element.data());
@@ -279,14 +286,14 @@ void EventDialog::setupData(const model::BasicEvent &element)
         if (auto *constExpr = dynamic_cast<mef::ConstantExpression *>(
                 &basicEvent.expression())) {
             expressionType->setCurrentIndex(0);
-            constantValue->setText(QString::number(constExpr->value()));
+            constantValue->setText(toText(constExpr->value()));
         } else {
             auto *exponentialExpr =
                 dynamic_cast<mef::Exponential *>(&basicEvent.expression());
             GUI_ASSERT(exponentialExpr, );
             expressionType->setCurrentIndex(1);
             exponentialRate->setText(
-                QString::number(exponentialExpr->args().front()->value()));
+                toText(exponentialExpr->args().front()->value()));
         }
     } else {
         expressionBox->setChecked(false);
-- 
2.43.0


From 12ced02ecee2b4816e687c170a520ca9cfdcce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:04 +0000
Subject: [PATCH 78/79] fix: Keep the settings that have no widgets in the
 settings dialog

---
 gui/settingsdialog.cpp | 6 +++---
 gui/settingsdialog.h   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gui/settingsdialog.cpp b/gui/settingsdialog.cpp
index 0a13163..7251382 100644
--- a/gui/settingsdialog.cpp
+++ b/gui/settingsdialog.cpp
@@ -28,7 +28,7 @@ namespace scram::gui {
 
 SettingsDialog::SettingsDialog(const core::Settings &initSettings,
                                QWidget *parent)
-    : QDialog(parent), ui(new Ui::SettingsDialog)
+    : QDialog(parent), ui(new Ui::SettingsDialog), m_settings(initSettings)
 {
     ui->setupUi(this);
     setupState(initSettings);
@@ -39,7 +39,7 @@ SettingsDialog::~SettingsDialog() = default;
 
 core::Settings SettingsDialog::settings() const
 {
-    core::Settings result;
+    core::Settings result = m_settings; // Some have no widgets.
     try {
         if (ui->bdd->isChecked()) {
             result.algorithm(core::Algorithm::kBdd);
@@ -51,8 +51,8 @@ core::Settings SettingsDialog::settings() const
         }
 
         result.prime_implicants(ui->primeImplicants->isChecked());
-        result.probability_analysis(ui->probability->isChecked());
         result.importance_analysis(ui->importance->isChecked());
+        result.probability_analysis(ui->probability->isChecked());
 
         if (ui->approximationsBox->isChecked() == false) {
             result.approximation(core::Approximation::kNone);
diff --git a/gui/settingsdialog.h b/gui/settingsdialog.h
index 1ceb2fd..dd8d2d1 100644
--- a/gui/settingsdialog.h
+++ b/gui/settingsdialog.h
@@ -55,6 +55,7 @@ private:
     void setupConnections();
 
     std::unique_ptr<Ui::SettingsDialog> ui; ///< The dialog UI.
+    const core::Settings m_settings; ///< The settings before the changes.
 };
 
 } // namespace scram::gui
-- 
2.43.0


From 76bfc00c55155eaeb09763fbf9d736644c6fb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:04 +0000
Subject: [PATCH 79/79] fix: Do not clamp the product order and the mission
 time in the settings dialog

---
 gui/settingsdialog.cpp | 4 +++-
 gui/settingsdialog.h   | 1 +
 gui/settingsdialog.ui  | 6 +++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/gui/settingsdialog.cpp b/gui/settingsdialog.cpp
index 7251382..e9a8c76 100644
--- a/gui/settingsdialog.cpp
+++ b/gui/settingsdialog.cpp
@@ -64,7 +64,8 @@ core::Settings SettingsDialog::settings() const
         }
 
         result.limit_order(ui->productOrder->value());
-        result.mission_time(ui->missionTime->value());
+        if (ui->missionTime->value() != m_missionTime)
+            result.mission_time(ui->missionTime->value());
     } catch (const Error &err) {
         GUI_ASSERT(false && err.what(), result);
     }
@@ -77,6 +78,7 @@ void SettingsDialog::setupState(const core::Settings &initSettings)
     ui->probability->setChecked(initSettings.probability_analysis());
     ui->importance->setChecked(initSettings.importance_analysis());
     ui->missionTime->setValue(initSettings.mission_time());
+    m_missionTime = ui->missionTime->value();
     ui->productOrder->setValue(initSettings.limit_order());
 
     switch (initSettings.algorithm()) {
diff --git a/gui/settingsdialog.h b/gui/settingsdialog.h
index dd8d2d1..d5e8a88 100644
--- a/gui/settingsdialog.h
+++ b/gui/settingsdialog.h
@@ -56,6 +56,7 @@ private:
 
     std::unique_ptr<Ui::SettingsDialog> ui; ///< The dialog UI.
     const core::Settings m_settings; ///< The settings before the changes.
+    double m_missionTime; ///< The initial mission time as shown (rounded).
 };
 
 } // namespace scram::gui
diff --git a/gui/settingsdialog.ui b/gui/settingsdialog.ui
index 5b2d499..9413651 100644
--- a/gui/settingsdialog.ui
+++ b/gui/settingsdialog.ui
@@ -166,7 +166,11 @@
        </widget>
       </item>
       <item row="1" column="1">
-       <widget class="QSpinBox" name="productOrder"/>
+       <widget class="QSpinBox" name="productOrder">
+        <property name="maximum">
+         <number>2147483647</number>
+        </property>
+       </widget>
       </item>
      </layout>
     </widget>
-- 
2.43.0

