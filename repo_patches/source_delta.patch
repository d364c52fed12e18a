From 3b942c21f6e8285345766f8ba11b6bf29f6a11f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 01/21] fix: use the current complementarity in the
 predictor-corrector step

The input mu is already scaled by sigma (or is initial_mu), so it is not the
s^T * z / M term that equations (19.21) and (19.22) start from. The reported
mu_affine was too small, and usually clamped to zero.
---
 source/qp.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 58efe5e..556668c 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -177,10 +177,11 @@ IPIterationOutputs QPInteriorPointSolver::Iterate(const double mu_input,
     delta_affine_ = delta_;
 
     // Compute complementarity had we applied this update we just solved.
-    outputs.mu_affine = ComputePredictorCorrectorMuAffine(outputs.mu, outputs.alpha_probe);
+    const double mu_current = ComputeMu();
+    outputs.mu_affine = ComputePredictorCorrectorMuAffine(mu_current, outputs.alpha_probe);
 
-    const double sigma = std::pow(outputs.mu_affine / outputs.mu, 3);  // equation (19.22)
-    outputs.mu = sigma * mu_input;
+    const double sigma = std::pow(outputs.mu_affine / mu_current, 3);  // equation (19.22)
+    outputs.mu = sigma * mu_current;
 
     // Solve again (alpha will be computed again below), input sigma is ignored.
     // This time, delta_affine_ will be incorporated to add the diag(dz)*ds term.
@@ -515,7 +516,7 @@ double QPInteriorPointSolver::ComputeMu() const {
   return s.dot(z) / static_cast<double>(dims_.M);
 }
 
-// We don't re-evaluate the s^T * z / M term, because it is already stored in mu.
+// We don't re-evaluate the s^T * z / M term, because it is passed as `mu`.
 double QPInteriorPointSolver::ComputePredictorCorrectorMuAffine(
     const double mu, const AlphaValues& alpha_probe) const {
   const auto s = ConstSBlock(dims_, variables_);
-- 
2.43.0


From 662b933249bac556bd37367612b98c221b298b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 02/21] fix: support redundant equality constraints in
 QPNullSpaceSolver

When A_eq does not have full row rank (or has more rows than columns) the
particular solution was computed from blocks whose dimensions do not match,
which reads out of bounds. Only the leading [rank, rank] block is invertible.
---
 source/qp.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 556668c..8c9db8f 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -698,13 +698,13 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   const auto Q1 = Q_.leftCols(rank);
   const auto Q2 = Q_.rightCols(Q_.cols() - rank);
 
-  // The non-zero rows of R:
-  const auto R_upper = R.topRows(num_equality_constraints).template triangularView<Eigen::Upper>();
+  // The invertible part of R. If rows of A_eq are redundant, this has only `rank` rows and columns.
+  const auto R_upper = R.topLeftCorner(rank, rank).template triangularView<Eigen::Upper>();
 
   // Compute u = Q1 * (R1^T)^-1 * (P^-1) * b_eq
   // `u` is a particular solution to the equality constrained system: A_eq * x + b = 0
   permuted_rhs_.noalias() = P.transpose() * -p.b_eq;
-  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_);
+  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_.head(rank));
   F_ASSERT_EQ(num_params, u_.rows());
 
   // Compute the reduced hessian by projecting `G` into null(A_eq)
-- 
2.43.0


From 6ffe1936457780bb1ddf22bdb3e95bf7a5f2eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 03/21] fix: reject negative variable indices in inequality
 constraints

---
 include/mini_opt/qp.hpp | 1 +
 source/qp.cc            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mini_opt/qp.hpp b/include/mini_opt/qp.hpp
index 6f3e06c..7b799aa 100644
--- a/include/mini_opt/qp.hpp
+++ b/include/mini_opt/qp.hpp
@@ -60,6 +60,7 @@ struct LinearInequalityConstraint {
 
   // Version of shift that takes vector.
   LinearInequalityConstraint ShiftTo(const Eigen::VectorXd& x) const {
+    F_ASSERT_GE(variable, 0);
     F_ASSERT_LT(variable, x.rows());
     return ShiftTo(x[variable]);
   }
diff --git a/source/qp.cc b/source/qp.cc
index 8c9db8f..d689b71 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -68,6 +68,7 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
 
   // check indices up front
   for (const LinearInequalityConstraint& c : p_->constraints) {
+    F_ASSERT_GE(c.variable, 0, "Constraint index is out of bounds");
     F_ASSERT_LT(c.variable, static_cast<int>(dims_.N), "Constraint index is out of bounds");
   }
 }
-- 
2.43.0


From d9f111c791f972aafef45241d2720f43dbf907ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 04/21] fix: reject variables of the wrong size in
 QPInteriorPointSolver::Solve

---
 source/qp.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/qp.cc b/source/qp.cc
index d689b71..922ebc9 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -102,6 +102,8 @@ QPInteriorPointSolverOutputs QPInteriorPointSolver::Solve(
     const QPInteriorPointSolver::Params& params) {
   F_ASSERT(p_, "Must have a valid problem");
   CheckParams(params);
+  F_ASSERT_EQ(variables_.rows(), dims_.N + dims_.M * 2 + dims_.K,
+              "Variables were set to a vector of the wrong size");
 
   // compute initial guess
   ComputeInitialGuess(params);
-- 
2.43.0


From 4b0221f0ba86625730be8e9ae6d8ebfa90885c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 05/21] fix: check the dimensions of the problem in
 QPNullSpaceSolver::Solve

---
 source/qp.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/qp.cc b/source/qp.cc
index 922ebc9..bbed199 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -683,6 +683,9 @@ void QPInteriorPointSolver::BuildFullSystem(Eigen::MatrixXd* const H,
 QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   F_ASSERT_GT(p.A_eq.rows(), 0, "Problem must have at least one equality constraint");
   F_ASSERT_EQ(p.A_eq.rows(), p.b_eq.rows());
+  F_ASSERT_EQ(p.G.rows(), p.G.cols(), "G must be square");
+  F_ASSERT_EQ(p.G.rows(), p.c.rows(), "Dims of G and c must match");
+  F_ASSERT_EQ(p.A_eq.cols(), p.G.rows());
 
   const int num_equality_constraints = static_cast<int>(p.A_eq.rows());
   const int num_params = static_cast<int>(p.A_eq.cols());
-- 
2.43.0


From a692a25aeb0910d2393b7db8c317bc02fce08574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 06/21] fix: reject an initial guess of the wrong dimension

---
 source/nonlinear.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index a72e6cc..a6d9545 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -77,6 +77,7 @@ NLSSolverOutputs ConstrainedNonlinearLeastSquares::Solve(const Params& params,
   MINI_OPT_FUNCTION_TRACE();
   F_ASSERT(p_ != nullptr, "Must have a valid problem");
   CheckParams(params);
+  F_ASSERT_EQ(variables.rows(), p_->dimension, "Initial guess is the wrong dimension");
   variables_ = variables;
   state_ = OptimizerState::NOMINAL;
 
-- 
2.43.0


From cbf656bef52279327d8b678035ac66fe3683a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 07/21] fix: lock the trace collector while writing out its
 events

---
 source/tracing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tracing.cc b/source/tracing.cc
index 5015fb7..5061752 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -107,6 +107,7 @@ void trace_collector::submit_event(trace_event event) {
 trace_collector_impl& trace_collector::impl() noexcept { return *impl_; }
 
 std::string trace_collector::get_trace_json() {
+  std::lock_guard guard{impl_->mutex};
   return fmt::format(json_object_template, fmt::join(impl_->events, ",\n    "));
 }
 
-- 
2.43.0


From 165d0ac31ac635d7c80583437008d64f4d4dd7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 08/21] fix: throw when a field is missing from serialized
 solver outputs

operator[] of a const json object is undefined behavior for a missing key.
---
 source/serialization.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index ba84351..5b6b416 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -99,14 +99,14 @@ template <>
 struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
-        j["iteration"].get<int>(), j["optimizer_state"].get<OptimizerState>(),
-        j["lambda"].get<double>(), j["errors_initial"].get<Errors>(),
-        j["qp_outputs"]
+        j.at("iteration").get<int>(), j.at("optimizer_state").get<OptimizerState>(),
+        j.at("lambda").get<double>(), j.at("errors_initial").get<Errors>(),
+        j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
-        j["qp_eigenvalues"].get<std::optional<QPEigenvalues>>(),
-        j["directional_derivatives"].get<DirectionalDerivatives>(), j["penalty"].get<double>(),
-        j["step_result"].get<StepSizeSelectionResult>(),
-        j["line_search_steps"].get<std::vector<LineSearchStep>>());
+        j.at("qp_eigenvalues").get<std::optional<QPEigenvalues>>(),
+        j.at("directional_derivatives").get<DirectionalDerivatives>(), j.at("penalty").get<double>(),
+        j.at("step_result").get<StepSizeSelectionResult>(),
+        j.at("line_search_steps").get<std::vector<LineSearchStep>>());
   }
 
   static void to_json(json& j, const NLSIteration& iter) {
@@ -124,8 +124,8 @@ struct adl_serializer<NLSIteration> {
 };
 
 NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& j) {
-  return NLSSolverOutputs(j["termination_state"].get<NLSTerminationState>(),
-                          j["iterations"].get<std::vector<NLSIteration>>());
+  return NLSSolverOutputs(j.at("termination_state").get<NLSTerminationState>(),
+                          j.at("iterations").get<std::vector<NLSIteration>>());
 }
 
 void adl_serializer<NLSSolverOutputs, void>::to_json(json& j, const NLSSolverOutputs& outputs) {
-- 
2.43.0


From faa267d4abf011f5fd75fd4989487793fda1fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 09/21] fix: read NaN and infinite values back from serialized
 solver outputs

nlohmann writes these as null, which threw a type error when parsing the text
again. This affects the output of every interior point solve, since alpha_probe
and mu_affine are NaN unless the predictor-corrector strategy is used.
---
 source/serialization.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index 5b6b416..a087673 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -20,6 +20,24 @@ static void to_json(json& j, const std::optional<T>& x) {
   }
 }
 
+// JSON cannot represent NaN or infinity, these are written as `null`. Read `null` back as NaN.
+static double get_double(const json& j) {
+  return j.is_null() ? std::numeric_limits<double>::quiet_NaN() : j.get<double>();
+}
+
+template <typename T>
+static void get_field(const json& j, T& x) {
+  if constexpr (std::is_same_v<T, double>) {
+    x = get_double(j);
+  } else {
+    j.get_to(x);
+  }
+}
+
+// Use `get_field` to read the members in NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE.
+#undef NLOHMANN_JSON_FROM
+#define NLOHMANN_JSON_FROM(v1) get_field(nlohmann_json_j.at(#v1), nlohmann_json_t.v1);
+
 template <typename T>
 static void from_json(const json& j, std::optional<T>& x) {
   if (j.is_null()) {
@@ -100,11 +118,11 @@ struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
         j.at("iteration").get<int>(), j.at("optimizer_state").get<OptimizerState>(),
-        j.at("lambda").get<double>(), j.at("errors_initial").get<Errors>(),
+        get_double(j.at("lambda")), j.at("errors_initial").get<Errors>(),
         j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
         j.at("qp_eigenvalues").get<std::optional<QPEigenvalues>>(),
-        j.at("directional_derivatives").get<DirectionalDerivatives>(), j.at("penalty").get<double>(),
+        j.at("directional_derivatives").get<DirectionalDerivatives>(), get_double(j.at("penalty")),
         j.at("step_result").get<StepSizeSelectionResult>(),
         j.at("line_search_steps").get<std::vector<LineSearchStep>>());
   }
-- 
2.43.0


From ab517fa1eb252f29f16d75e34a8638083c5bd07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 10/21] fix: do not read an incomplete
 QPInteriorPointSolverOutputs as a null-space result

---
 source/serialization.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index a087673..b6f7986 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -101,7 +101,7 @@ static void to_json(
 
 static void from_json(
     const json& j, std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>& var) {
-  if (j.contains("termination_state") && j.contains("iterations")) {
+  if (j.is_object()) {
     var = j.get<QPInteriorPointSolverOutputs>();
   } else {
     var = j.get<QPNullSpaceTerminationState>();
-- 
2.43.0


From 3c1bf6c0192d38d3e9ba596df60926ae0fcdadc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 11/21] fix: escape event names in the trace JSON

---
 source/tracing.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 5061752..f6579e4 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -25,6 +25,23 @@
 
 #include "mini_opt/assertions.hpp"
 
+// Escape a string so that it can be placed inside a JSON string literal.
+static std::string escape_json(const std::string_view str) {
+  std::string result;
+  result.reserve(str.size());
+  for (const char c : str) {
+    if (c == '"' || c == '\\') {
+      result += '\\';
+      result += c;
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      fmt::format_to(std::back_inserter(result), "\\u{:04x}", static_cast<int>(c));
+    } else {
+      result += c;
+    }
+  }
+  return result;
+}
+
 // Format mini_opt::trace_event to JSON.
 template <>
 struct fmt::formatter<mini_opt::trace_event> {
@@ -35,7 +52,7 @@ struct fmt::formatter<mini_opt::trace_event> {
     constexpr std::string_view phase = "X";  //  Complete event.
     constexpr std::string_view fmt_template =
         R"json({{ "name": "{name}", "cat": "", "ph": "{ph}", "ts": {ts}, "pid": {pid}, "tid": {tid}, "dur": {dur} }})json";
-    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", event.name),
+    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", escape_json(event.name)),
                           fmt::arg("ph", phase), fmt::arg("ts", event.ts),
                           fmt::arg("pid", event.pid), fmt::arg("tid", event.tid),
                           fmt::arg("dur", event.dur_ns / 1000));
-- 
2.43.0


From 0cee4c6684df076fd0cc57b551c0dba814b90e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 12/21] fix: recognize redundant equality constraints despite
 rounding in QPNullSpaceSolver

---
 source/qp.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/qp.cc b/source/qp.cc
index bbed199..500dc3d 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -691,7 +691,12 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   const int num_params = static_cast<int>(p.A_eq.cols());
 
   // Compute [Q R] factorization of A_eq^T
-  const auto QR = p.A_eq.transpose().colPivHouseholderQr();
+  auto QR = p.A_eq.transpose().colPivHouseholderQr();
+
+  // Eigen's default threshold is close to the rounding error of the factorization, such that some
+  // redundant rows are mistaken for independent ones. Leave some margin when determining the rank.
+  QR.setThreshold(10 * std::numeric_limits<double>::epsilon() *
+                  static_cast<double>(std::max(num_equality_constraints, num_params)));
 
   Q_ = QR.matrixQ();
   const auto& R = QR.matrixR();
-- 
2.43.0


From 9819a0ed20cd8f0b00289a1e42f8bec95aec0cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 13/21] fix: keep the previous problem when
 QPInteriorPointSolver::Setup rejects one

---
 source/qp.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 500dc3d..ad78916 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -20,19 +20,28 @@ QPInteriorPointSolver::QPInteriorPointSolver(const QP* const problem) { Setup(pr
 void QPInteriorPointSolver::Setup(const QP* const problem) {
   F_ASSERT(problem != nullptr, "Must pass a non-null problem");
 
-  p_ = problem;
-  F_ASSERT_EQ(p_->G.rows(), p_->G.cols(), "G must be square");
-  F_ASSERT_EQ(p_->G.rows(), p_->c.rows(), "Dims of G and c must match");
-  F_ASSERT_EQ(p_->A_eq.rows(), p_->b_eq.rows(), "Rows of A_e and b_e must match");
+  // Check everything before modifying the solver, so that a rejected problem leaves it as it was.
+  F_ASSERT_EQ(problem->G.rows(), problem->G.cols(), "G must be square");
+  F_ASSERT_EQ(problem->G.rows(), problem->c.rows(), "Dims of G and c must match");
+  F_ASSERT_EQ(problem->A_eq.rows(), problem->b_eq.rows(), "Rows of A_e and b_e must match");
 
   // If equality constraints were specified, we must be able to multiply A*x
-  if (p_->A_eq.size() > 0) {
-    F_ASSERT_EQ(p_->A_eq.cols(), p_->G.rows());
+  if (problem->A_eq.size() > 0) {
+    F_ASSERT_EQ(problem->A_eq.cols(), problem->G.rows());
   } else {
-    F_ASSERT_EQ(p_->A_eq.rows(), 0);
-    F_ASSERT_EQ(p_->b_eq.rows(), 0);
+    F_ASSERT_EQ(problem->A_eq.rows(), 0);
+    F_ASSERT_EQ(problem->b_eq.rows(), 0);
+  }
+
+  // check indices up front
+  for (const LinearInequalityConstraint& c : problem->constraints) {
+    F_ASSERT_GE(c.variable, 0, "Constraint index is out of bounds");
+    F_ASSERT_LT(c.variable, static_cast<int>(problem->G.rows()),
+                "Constraint index is out of bounds");
   }
 
+  p_ = problem;
+
   // Order is [slacks (s), equality multipliers(y), inequality multipliers (lambda)]
   dims_.N = static_cast<int>(p_->G.rows());
   dims_.M = static_cast<int>(p_->constraints.size());
@@ -65,12 +74,6 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
   H_.setConstant(nan);
   H_inv_.setConstant(nan);
 #endif
-
-  // check indices up front
-  for (const LinearInequalityConstraint& c : p_->constraints) {
-    F_ASSERT_GE(c.variable, 0, "Constraint index is out of bounds");
-    F_ASSERT_LT(c.variable, static_cast<int>(dims_.N), "Constraint index is out of bounds");
-  }
 }
 
 // Assert params are in valid range.
-- 
2.43.0


From d2d68bb855590953b2222ec205fae7840da94554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 14/21] fix: reject an initial equality penalty of zero with
 the other parameters

---
 source/nonlinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index a6d9545..20d1fec 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -57,7 +57,7 @@ static void CheckParams(const ConstrainedNonlinearLeastSquares::Params& params)
   F_ASSERT_GE(params.absolute_first_derivative_tol, 0);
   F_ASSERT_GT(params.armijo_search_tau, 0);
   F_ASSERT_LT(params.armijo_search_tau, 1);
-  F_ASSERT_GE(params.equality_penalty_initial, 0);
+  F_ASSERT_GT(params.equality_penalty_initial, 0);
   F_ASSERT_GE(params.equality_penalty_scale_factor, 1.0);
   F_ASSERT_GE(params.equality_penalty_rho, 0);
   F_ASSERT_LT(params.equality_penalty_rho, 1);
-- 
2.43.0


From 2e1fcba9ae5578a3dc2fe8a27df89fdb6f846e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 15/21] fix: record scopes that end normally while an exception
 unwinds the stack

---
 include/mini_opt/tracing.hpp | 7 ++++++-
 source/tracing.cc            | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mini_opt/tracing.hpp b/include/mini_opt/tracing.hpp
index d308f17..ead5cfb 100644
--- a/include/mini_opt/tracing.hpp
+++ b/include/mini_opt/tracing.hpp
@@ -2,6 +2,7 @@
 // I copy-pasta'd this from the wrenfold project.
 #pragma once
 #include <chrono>
+#include <exception>
 #include <memory>
 #include <string_view>
 
@@ -68,7 +69,9 @@ class scoped_trace {
  public:
   // Note we do not own `name`. It is assumed to be a global string literal.
   explicit scoped_trace(const std::string_view name) noexcept
-      : name_(name), start_(std::chrono::high_resolution_clock::now()) {}
+      : name_(name),
+        exceptions_(std::uncaught_exceptions()),
+        start_(std::chrono::high_resolution_clock::now()) {}
   ~scoped_trace();
 
   // non-copyable and non-moveable
@@ -79,6 +82,8 @@ class scoped_trace {
 
  private:
   std::string_view name_;
+  // Exceptions in flight when the scope was entered (it may be part of stack unwinding).
+  int exceptions_;
   std::chrono::high_resolution_clock::time_point start_;
 };
 
diff --git a/source/tracing.cc b/source/tracing.cc
index f6579e4..3e34061 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -135,7 +135,7 @@ static auto cast_time(const T& dur) {
 
 scoped_trace::~scoped_trace() {
   const auto end = std::chrono::high_resolution_clock::now();
-  if (std::uncaught_exceptions() > 0) {
+  if (std::uncaught_exceptions() > exceptions_) {
     return;
   }
   if (trace_collector* const collector = trace_collector::get_instance(); collector != nullptr) {
-- 
2.43.0


From af0c7895f64643bfae8bb2990f79cbadef4200af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:26 +0000
Subject: [PATCH 16/21] fix: sum the derivatives of a variable that a residual
 lists more than once

---
 include/mini_opt/residual.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/mini_opt/residual.hpp b/include/mini_opt/residual.hpp
index 91a099a..507507a 100644
--- a/include/mini_opt/residual.hpp
+++ b/include/mini_opt/residual.hpp
@@ -213,7 +213,10 @@ double Residual::Model<ResidualDim, ParamsDim, F>::UpdateHessian(const Eigen::Ve
       // each param is a single column, so we can just do dot product
       const double JtT = J.col(row_local).dot(J.col(col_local));
       // swap so we only update the lower triangular part
-      if (col_global <= row_global) {
+      if (col_global == row_global && col_local != row_local) {
+        // a variable that is listed twice: this product appears on both sides of the diagonal
+        H->operator()(row_global, row_global) += 2 * JtT;
+      } else if (col_global <= row_global) {
         H->operator()(row_global, col_global) += JtT;
       } else {
         H->operator()(col_global, row_global) += JtT;
@@ -242,10 +245,13 @@ void Residual::Model<ResidualDim, ParamsDim, F>::UpdateJacobian(
   }
   b_out.noalias() = func_(relevant_params, &J);
 
-  for (int col_local = 0; col_local < static_cast<int>(index_.size()); ++col_local) {
-    const int col_global = index_[col_local];
+  for (const int col_global : index_) {
     F_ASSERT_LT(col_global, J_out.cols(), "Index exceeds the size of the Jacobian");
-    J_out.col(col_global).noalias() = J.col(col_local);
+    J_out.col(col_global).setZero();
+  }
+  // Sum, because a variable may be listed more than once.
+  for (int col_local = 0; col_local < static_cast<int>(index_.size()); ++col_local) {
+    J_out.col(index_[col_local]) += J.col(col_local);
   }
 }
 
-- 
2.43.0


From 5da243a88129ea0877bfef0f0e20517e1dd76123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:40 +0000
Subject: [PATCH 17/21] fix: reject unknown enum values in serialized solver
 outputs

---
 source/serialization.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index b6f7986..71a0e36 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -5,6 +5,8 @@
 
 #include <nlohmann/json.hpp>
 
+#include "mini_opt/assertions.hpp"
+
 using json = nlohmann::json;
 
 namespace mini_opt {
@@ -25,10 +27,20 @@ static double get_double(const json& j) {
   return j.is_null() ? std::numeric_limits<double>::quiet_NaN() : j.get<double>();
 }
 
+// NLOHMANN_JSON_SERIALIZE_ENUM reads values it does not know as the first enumerator, reject those.
+template <typename T>
+static T get_enum(const json& j) {
+  const T x = j.get<T>();
+  F_ASSERT(json(x) == j, "Not a valid enum value: {}", j.dump());
+  return x;
+}
+
 template <typename T>
 static void get_field(const json& j, T& x) {
   if constexpr (std::is_same_v<T, double>) {
     x = get_double(j);
+  } else if constexpr (std::is_enum_v<T>) {
+    x = get_enum<T>(j);
   } else {
     j.get_to(x);
   }
@@ -104,7 +116,7 @@ static void from_json(
   if (j.is_object()) {
     var = j.get<QPInteriorPointSolverOutputs>();
   } else {
-    var = j.get<QPNullSpaceTerminationState>();
+    var = get_enum<QPNullSpaceTerminationState>(j);
   }
 }
 }  // namespace mini_opt
@@ -117,13 +129,13 @@ template <>
 struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
-        j.at("iteration").get<int>(), j.at("optimizer_state").get<OptimizerState>(),
+        j.at("iteration").get<int>(), get_enum<OptimizerState>(j.at("optimizer_state")),
         get_double(j.at("lambda")), j.at("errors_initial").get<Errors>(),
         j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
         j.at("qp_eigenvalues").get<std::optional<QPEigenvalues>>(),
         j.at("directional_derivatives").get<DirectionalDerivatives>(), get_double(j.at("penalty")),
-        j.at("step_result").get<StepSizeSelectionResult>(),
+        get_enum<StepSizeSelectionResult>(j.at("step_result")),
         j.at("line_search_steps").get<std::vector<LineSearchStep>>());
   }
 
@@ -142,7 +154,7 @@ struct adl_serializer<NLSIteration> {
 };
 
 NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& j) {
-  return NLSSolverOutputs(j.at("termination_state").get<NLSTerminationState>(),
+  return NLSSolverOutputs(get_enum<NLSTerminationState>(j.at("termination_state")),
                           j.at("iterations").get<std::vector<NLSIteration>>());
 }
 
-- 
2.43.0


From 26cccbcf1208179d0b888cb57f6ec7cc935e23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:54 +0000
Subject: [PATCH 18/21] fix: reject booleans and fractions in place of numbers
 in serialized solver outputs

---
 source/serialization.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index 71a0e36..5bf6dda 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -24,7 +24,12 @@ static void to_json(json& j, const std::optional<T>& x) {
 
 // JSON cannot represent NaN or infinity, these are written as `null`. Read `null` back as NaN.
 static double get_double(const json& j) {
-  return j.is_null() ? std::numeric_limits<double>::quiet_NaN() : j.get<double>();
+  if (j.is_null()) {
+    return std::numeric_limits<double>::quiet_NaN();
+  }
+  // The library converts booleans as well.
+  F_ASSERT(j.is_number(), "Not a number: {}", j.dump());
+  return j.get<double>();
 }
 
 // NLOHMANN_JSON_SERIALIZE_ENUM reads values it does not know as the first enumerator, reject those.
@@ -128,6 +133,7 @@ using namespace mini_opt;
 template <>
 struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
+    F_ASSERT(j.at("iteration").is_number_integer(), "Not an integer: {}", j.at("iteration").dump());
     return NLSIteration(
         j.at("iteration").get<int>(), get_enum<OptimizerState>(j.at("optimizer_state")),
         get_double(j.at("lambda")), j.at("errors_initial").get<Errors>(),
-- 
2.43.0


From 5db2499dcf1527032d2c1c0e9dc0fa2933e55e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:38 +0000
Subject: [PATCH 19/21] fix: keep the trace collector alive for scopes that end
 during program exit

---
 source/tracing.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 3e34061..052067a 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -92,8 +92,9 @@ struct trace_collector_impl {
 };
 
 trace_collector* trace_collector::get_instance() {
-  static trace_collector global_collector{};
-  return &global_collector;
+  // Never destroyed: scopes may end while (or after) static objects are destroyed.
+  static trace_collector* const global_collector = new trace_collector{};
+  return global_collector;
 }
 
 inline constexpr std::string_view json_object_template = R"json(
-- 
2.43.0


From a303db4006ea391093fa839ce4f86a1946abbbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:16 +0000
Subject: [PATCH 20/21] fix: drop a trace event when memory runs out instead of
 terminating

---
 source/tracing.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 052067a..14505d2 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -5,6 +5,7 @@
 
 #include <deque>
 #include <mutex>
+#include <new>
 
 #include <fmt/core.h>
 #include <fmt/ranges.h>
@@ -134,7 +135,7 @@ static auto cast_time(const T& dur) {
   return std::chrono::duration_cast<U>(dur).count();
 }
 
-scoped_trace::~scoped_trace() {
+scoped_trace::~scoped_trace() try {
   const auto end = std::chrono::high_resolution_clock::now();
   if (std::uncaught_exceptions() > exceptions_) {
     return;
@@ -148,6 +149,9 @@ scoped_trace::~scoped_trace() {
     const thread_local pid_and_tid ids{};
     collector->submit_event(trace_event{name_, start_micros, ids.pid, ids.tid, duration_nanos});
   }
+} catch (const std::bad_alloc&) {
+  // Out of memory, drop the event. Without this return the exception would be thrown again.
+  return;
 }
 
 }  // namespace mini_opt
-- 
2.43.0


From 24799e1b8e0682fb96b884228e4b1c38a98c0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:41 +0000
Subject: [PATCH 21/21] fix: let the error buffer grow when residuals are added
 to the problem after construction

---
 source/nonlinear.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index 20d1fec..043049d 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -280,13 +280,20 @@ bool ConstrainedNonlinearLeastSquares::QPWasIndefinite(
 Errors ConstrainedNonlinearLeastSquares::EvaluateNonlinearErrors(const Eigen::VectorXd& vars) {
   MINI_OPT_FUNCTION_TRACE();
   Errors output_errors{};
+  // Residuals may have been added to the problem since the buffer was allocated.
+  const auto get_buffer = [this](const Residual& residual) {
+    if (error_buffer_.rows() < residual.Dimension()) {
+      error_buffer_.resize(residual.Dimension());
+    }
+    return error_buffer_.head(residual.Dimension());
+  };
   for (const Residual& cost : p_->costs) {
-    const auto err_out = error_buffer_.head(cost.Dimension());
+    const auto err_out = get_buffer(cost);
     cost.ErrorVector(vars, err_out);
     output_errors.f += 0.5 * err_out.squaredNorm();
   }
   for (const Residual& eq : p_->equality_constraints) {
-    const auto err_out = error_buffer_.head(eq.Dimension());
+    const auto err_out = get_buffer(eq);
     eq.ErrorVector(vars, err_out);
     output_errors.equality += err_out.lpNorm<1>();
   }
-- 
2.43.0

