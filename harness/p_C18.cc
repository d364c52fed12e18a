// build: nls plain
// C18: the penalty on the equalities follows its rule, never decreases, and makes the search direction a descent direction of the merit function.
#include <Eigen/SVD>

#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::LMat;
using nls::LVec;
using nls::MatrixXd;
using nls::VectorXd;
using LD = long double;
using Params = ConstrainedNonlinearLeastSquares::Params;

namespace {

void Check(pbt::Case& c, const nls::Random& r) {
  const Params& p = r.p;
  double penalty = p.equality_penalty_initial;
  bool raised = false, slack = false;
  for (const nls::Iteration& it : r.run.its) {
    const NLSIteration& i = *it.info;
    auto say = [&](const std::string& m) { return [&, m] { return m + ": " + nls::Fmt(it); }; };
    if (r.spec.eqs.empty()) {
      c.require(i.penalty == penalty, say("the penalty changed although there are no equalities"));
      const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&i.qp_outputs);
      c.require(ip && !ip->lagrange_multipliers, say("multipliers of equalities were reported although there are none"));
      continue;
    }
    c.require(i.penalty >= penalty, say(pbt::str("the penalty decreased from ", penalty)));
    const nls::Local l = nls::Linearize(r.spec, it.x0);
    const LVec dx = it.dx.cast<LD>();
    LMat G = l.J.transpose() * l.J;
    G.diagonal().array() += static_cast<LD>(i.lambda);
    const LD b1 = l.g.cwiseAbs().sum(), slope = (l.J.transpose() * l.r).dot(dx), q = dx.dot(G * dx);
    const LD slope_scale = (l.J.cwiseAbs().transpose() * l.r.cwiseAbs()).dot(dx.cwiseAbs());
    if (!std::isfinite(nls::D(q + slope_scale)) || !it.dx.allFinite()) return;
    LD want = 0, err = 0;
    const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&i.qp_outputs);
    if (ip) {
      c.require(ip->lagrange_multipliers.has_value(), say("no multipliers were reported"));
      want = static_cast<LD>(ip->lagrange_multipliers->l_infinity);
      err = 1e-12L * want;
    } else {
      const LD denom = (1 - static_cast<LD>(p.equality_penalty_rho)) * std::max(b1, static_cast<LD>(std::numeric_limits<double>::epsilon()));
      want = (slope + std::max(0.0L, q) / 2) / denom;
      err = 1e-12L * (slope_scale + dx.cwiseAbs().dot(G.cwiseAbs() * dx.cwiseAbs())) / denom + 1e-12L * std::abs(want);
    }
    if (!(want < 1e100L)) {
      c.label("diverged multipliers");
      return;
    }
    const LD f = static_cast<LD>(p.equality_penalty_scale_factor);
    const LD now = static_cast<LD>(i.penalty), old = static_cast<LD>(penalty);
    if (i.penalty == penalty) {
      c.require(want <= old + err, say(pbt::str("the penalty should have been raised from ", penalty, " to ", nls::D(want * f))));
    } else {
      c.require(want >= old - err, say(pbt::str("the penalty was raised from ", penalty, " although only ", nls::D(want), " is needed")));
      c.require(std::abs(now - want * f) <= err * f * 2 + 1e-12L * now, say(pbt::str("the penalty was raised from ", penalty, " and should be ", nls::D(want * f))));
      raised = true;
      c.label(ip ? "raised to the multipliers" : "raised by the model");
    }
    penalty = i.penalty;
    // Descent.
    const Eigen::JacobiSVD<MatrixXd> svd(l.A.cast<double>());
    const VectorXd& sv = svd.singularValues();
    const LVec Adx = l.A * dx;
    LD de = 0;
    for (Index j = 0; j < l.g.size(); ++j) de += l.g[j] > 0 ? Adx[j] : l.g[j] < 0 ? -Adx[j] : 0.0L;
    const LD d = slope + now * de, round = 1e-11L * (slope_scale + now * (l.A.cwiseAbs() * dx.cwiseAbs()).sum());
    if (sv.minCoeff() < 1e-5 * sv.maxCoeff()) continue;
    if (!ip) {
      // c'dx - mu |b| <= -dx'G dx / 2 - rho mu |b|
      if (b1 < 1e-9L * (1 + l.A.cwiseAbs().sum())) continue;
      const LD most = -q / 2 - static_cast<LD>(p.equality_penalty_rho) * now * b1;
      c.require(d <= most + round * 1e5L * (b1 < 1e-6L ? 1e3L : 1.0L), say(pbt::str("the slope of the merit function is ", nls::D(d), ", at most ", nls::D(most), " expected")));
      c.require(i.step_result != StepSizeSelectionResult::POSITIVE_DERIVATIVE || d > -round * 1e5L, say("POSITIVE_DERIVATIVE for a descent direction"));
      slack = true;
      c.label("descent (null-space)");
    } else if (ip->termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL) {
      bool inside = true;
      for (const auto& b : r.spec.bounds) inside = inside && b.a * it.x0[b.variable] + b.b >= 0;
      if (!inside) continue;
      const LD m = static_cast<LD>(r.spec.bounds.size());
      const LD most = -q + 1e-6L * m + static_cast<LD>(p.termination_kkt_tolerance) * (1 + dx.norm() + want * static_cast<LD>(l.g.size())) * 10;
      // residuals of the bounds may be up to the tolerance with multipliers of unknown size
      if (p.termination_kkt_tolerance > 1e-8) continue;
      c.require(d <= most + round + static_cast<LD>(p.termination_kkt_tolerance) * 1e3L * (1 + want), say(pbt::str("the slope of the merit function is ", nls::D(d), ", at most ", nls::D(most), " expected")));
      slack = true;
      c.label("descent (interior point)");
    }
  }
  if (raised || slack) c.nontrivial();
}

void Run(pbt::Case& c, const nls::Profile p) { Check(c, nls::ProfileRun(c, p)); }

void Equalities(pbt::Case& c, const bool bounds) {
  nls::Opts o;
  o.p_eq = 2;
  o.p_bounds = bounds ? 2 : -1;
  o.feasible_start = true;
  o.eq_nonlinear = c.src.boolean() ? 0.5 : 2.0;
  Check(c, nls::MakeRun(c, o, 12, [&](nls::Spec&, Params& p) {
    if (c.src.boolean()) p.equality_penalty_initial = c.src.logreal(1e-4, 0.1);
    if (bounds) {
      p.termination_kkt_tolerance = c.src.logreal(1e-11, 1e-8);
      p.max_qp_iterations = 40;
    }
    if (c.src.boolean()) p.relative_exit_tol = 1e-10, p.absolute_first_derivative_tol = 0;
  }));
}
void NoEqualities(pbt::Case& c) {
  nls::Opts o;
  o.equalities = false;
  const nls::Random r = nls::MakeRun(c, o, 8);
  Check(c, r);
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C18";
  p.rule =
      "random nonlinear problems with equalities, with and without bounds, and random penalty parameters; the required penalty and the slope of "
      "the merit function are recomputed from the problem at every iteration. Non-trivial: the penalty was raised or the descent was checked";
  p.assumptions = {"with bounds, descent is only required of directions that the inner solver reports as converged, from feasible points"};
  using P = nls::Profile;
  p.facets = {
      {"equalities", [](Case& c) { Equalities(c, false); }, 120000, 8000000, 0.3},
      {"equalities and bounds", [](Case& c) { Equalities(c, true); }, 60000, 3000000, 0.3},
      {"any", [](Case& c) { Run(c, P::ANY); }, 60000, 4000000, 0.3},
      {"rough", [](Case& c) { Run(c, P::ROUGH); }, 40000, 2000000, 0.3},
      {"deficient", [](Case& c) { Run(c, P::DEFICIENT); }, 60000, 3000000, 0.3},
      {"no equalities", NoEqualities, 20000, 500000, 0.3},
  };
  return p;
}
