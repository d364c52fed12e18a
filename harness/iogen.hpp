// Random solver outputs, for the checks of serialization and reporting.
#pragma once
#include <cmath>
#include <limits>

#include "nlsgen.hpp"

namespace io {

using namespace mini_opt;

// A double: simple values, full precision ones, extremes, and (if allowed) NaN and infinities.
inline double Real(pbt::Source& s, bool non_finite) {
  switch (s.draw(non_finite ? 11 : 9)) {
    case 0: return s.integer(0, 9);
    case 1: return s.real(-10, 10);
    case 2: return s.unit();
    case 3: return s.nonzero(0, 1) * std::pow(10.0, s.integer(-30, 30));
    case 4: return std::ldexp(s.nonzero(0.5, 1), s.integer(-1070, 1024));
    case 5: {
      static const std::vector<double> v = {-0.0, 0.1, 1e15, 1e16, 1e17, 123456789012345680.0, 5e-324, 2.2250738585072014e-308,
                                            1.7976931348623157e308, -1.7976931348623157e308, 4503599627370497.5, 1e23, 9007199254740993.0};
      return s.pick(v);
    }
    case 6: return -s.integer(1, 9);
    case 7: return s.integer(0, 1000000) / 1000.0;
    case 8: return std::nextafter(s.integer(1, 9), 100.0);
    case 9: return 1.0 / s.integer(3, 99);
    case 10: return std::numeric_limits<double>::quiet_NaN();
    default: return s.boolean() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
  }
}

inline QPInteriorPointIteration QPIteration(pbt::Source& s, bool nf) {
  QPInteriorPointIteration it;
  auto kkt = [&] { return KKTError{Real(s, nf), Real(s, nf), Real(s, nf), Real(s, nf)}; };
  it.kkt_initial = kkt();
  it.kkt_final = kkt();
  it.ip_outputs.mu = Real(s, nf);
  it.ip_outputs.alpha = {Real(s, nf), Real(s, nf)};
  if (s.boolean()) {
    it.ip_outputs.alpha_probe = {Real(s, nf), Real(s, nf)};
    it.ip_outputs.mu_affine = Real(s, nf);
  }
  return it;
}

inline NLSIteration Iteration(pbt::Source& s, int index, bool nf) {
  std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs> qp;
  if (s.boolean()) {
    std::vector<QPInteriorPointIteration> its;
    const int n = s.integer(0, 3);
    for (int i = 0; i < n; ++i) its.push_back(QPIteration(s, nf));
    std::optional<QPLagrangeMultipliers> m;
    if (s.boolean()) {
      m.emplace();
      m->min = Real(s, nf);
      m->l_infinity = Real(s, nf);
    }
    qp = QPInteriorPointSolverOutputs(s.boolean() ? QPInteriorPointTerminationState::MAX_ITERATIONS : QPInteriorPointTerminationState::SATISFIED_KKT_TOL,
                                      std::move(its), m);
  } else {
    qp = s.boolean() ? QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE : QPNullSpaceTerminationState::SUCCESS;
  }
  std::optional<QPEigenvalues> eig;
  if (s.boolean()) {
    eig.emplace();
    eig->min = Real(s, nf);
    eig->max = Real(s, nf);
    eig->abs_min = Real(s, nf);
  }
  const OptimizerState state = s.boolean() ? OptimizerState::ATTEMPTING_RESTORE_LM : OptimizerState::NOMINAL;
  const double lambda = Real(s, nf);
  const Errors e{Real(s, nf), Real(s, nf)};
  DirectionalDerivatives d;
  d.d_f = Real(s, nf);
  d.d_equality = Real(s, nf);
  const double penalty = Real(s, nf);
  const auto step = static_cast<StepSizeSelectionResult>(s.draw(5));
  std::vector<LineSearchStep> steps;
  const int n = s.integer(0, 3);
  for (int i = 0; i < n; ++i) {
    LineSearchStep st;
    st.alpha = Real(s, nf);
    st.errors = {Real(s, nf), Real(s, nf)};
    steps.push_back(st);
  }
  return NLSIteration(index, state, lambda, e, std::move(qp), eig, d, penalty, step, std::move(steps));
}

inline NLSSolverOutputs Outputs(pbt::Source& s, bool nf) {
  std::vector<NLSIteration> its;
  const int n = s.integer(0, 3);
  const bool odd_index = s.chance(1, 8);
  for (int i = 0; i < n; ++i) its.push_back(Iteration(s, odd_index ? s.integer(0, 100) * 1000003 : i, nf));
  return NLSSolverOutputs(static_cast<NLSTerminationState>(s.draw(6)), std::move(its));
}

// Independent tables of the names.
inline const char* Text(OptimizerState v) { return v == OptimizerState::NOMINAL ? "NOMINAL" : "ATTEMPTING_RESTORE_LM"; }
inline const char* Text(QPNullSpaceTerminationState v) { return v == QPNullSpaceTerminationState::SUCCESS ? "SUCCESS" : "NOT_POSITIVE_DEFINITE"; }
inline const char* Text(QPInteriorPointTerminationState v) {
  return v == QPInteriorPointTerminationState::MAX_ITERATIONS ? "MAX_ITERATIONS" : "SATISFIED_KKT_TOL";
}
inline const char* Text(StepSizeSelectionResult v) {
  if (v == StepSizeSelectionResult::SUCCESS) return "SUCCESS";
  if (v == StepSizeSelectionResult::MAX_ITERATIONS) return "MAX_ITERATIONS";
  if (v == StepSizeSelectionResult::FIRST_ORDER_SATISFIED) return "FIRST_ORDER_SATISFIED";
  if (v == StepSizeSelectionResult::POSITIVE_DERIVATIVE) return "POSITIVE_DERIVATIVE";
  if (v == StepSizeSelectionResult::FAILURE_NON_FINITE_COST) return "FAILURE_NON_FINITE_COST";
  return "FAILURE_INVALID_ALPHA";
}
inline const char* Text(NLSTerminationState v) {
  if (v == NLSTerminationState::MAX_ITERATIONS) return "MAX_ITERATIONS";
  if (v == NLSTerminationState::SATISFIED_ABSOLUTE_TOL) return "SATISFIED_ABSOLUTE_TOL";
  if (v == NLSTerminationState::SATISFIED_RELATIVE_TOL) return "SATISFIED_RELATIVE_TOL";
  if (v == NLSTerminationState::SATISFIED_FIRST_ORDER_TOL) return "SATISFIED_FIRST_ORDER_TOL";
  if (v == NLSTerminationState::MAX_LAMBDA) return "MAX_LAMBDA";
  if (v == NLSTerminationState::QP_INDEFINITE) return "QP_INDEFINITE";
  return "USER_CALLBACK";
}

// Results of real runs with everything that can be logged.
inline nls::Random RealRun(pbt::Case& c) {
  nls::Opts o;
  o.nonlinear = c.src.boolean() ? 1.0 : 5.0;
  o.undefined = c.src.chance(1, 4);
  o.p_bounds = 0.4;
  o.p_eq = 0.5;
  return nls::MakeRun(c, o, 8, [&](nls::Spec&, ConstrainedNonlinearLeastSquares::Params& p) { p.log_qp_eigenvalues = c.src.boolean(); });
}

}  // namespace io
