// build: nls plain
// C17: bounds are respected: feasible starts stay feasible at every trial point, infeasible ones become feasible.
#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::VectorXd;
using LD = long double;

namespace {

using Params = ConstrainedNonlinearLeastSquares::Params;

double Slack(const LinearInequalityConstraint& b, const VectorXd& x) {
  return nls::D(static_cast<LD>(b.a) * static_cast<LD>(x[b.variable]) + static_cast<LD>(b.b));
}
double Rounding(const LinearInequalityConstraint& b, const VectorXd& x0, const VectorXd& dx) {
  return 1e-14 * (std::abs(b.b) + std::abs(b.a) * (std::abs(x0[b.variable]) + std::abs(dx[b.variable])));
}

void Check(pbt::Case& c, const nls::Random& r) {
  const auto& bounds = r.spec.bounds;
  bool near = false, repaired = false, infeasible = false;
  double floor_v = 0;
  for (const auto& b : bounds) infeasible |= Slack(b, r.run.x0) < 0;
  for (std::size_t k = 0; k < r.run.its.size(); ++k) {
    const nls::Iteration& it = r.run.its[k];
    const auto* qp = std::get_if<QPInteriorPointSolverOutputs>(&it.info->qp_outputs);
    auto say = [&](const std::string& m) { return [&, m] { return m + ": " + nls::Fmt(it); }; };
    c.require(qp != nullptr, say("a problem with bounds needs the interior point solver"));
    double left = 1.0;  // what the inner solver leaves of the violation
    for (const auto& i : qp->iterations) left *= 1.0 - i.ip_outputs.alpha.primal;
    const bool converged = qp->termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
    if (!r.spec.eqs.empty() && !converged) {
      c.label("inner solver did not converge");
      return;
    }
    auto allowed = [&](const LinearInequalityConstraint& b, const double alpha) {
      const double v = std::max(0.0, -Slack(b, it.x0));
      double residual = std::abs(left) * std::max(0.0, 1e-9 - Slack(b, it.x0));
      if (!r.spec.eqs.empty()) residual = r.p.termination_kkt_tolerance;
      return (1 - alpha) * v + alpha * residual * (1 + 1e-9) + Rounding(b, it.x0, it.dx);
    };
    for (std::size_t j = 0; j < bounds.size(); ++j) {
      const auto& b = bounds[j];
      const double v = std::max(0.0, -Slack(b, it.x0));
      for (const auto& t : it.trials) {
        const double s = Slack(b, t.x);
        c.require(s >= -allowed(b, t.alpha), say(pbt::str("trial point alpha=", t.alpha, " violates bound ", j, " by ", -s, ", allowed ", allowed(b, t.alpha))));
        if (std::abs(s) < 1e-3) near = true;
        if (v > 1e-6 && s >= -1e-8) repaired = true;
        if (v > 1e-6 && s < 0) c.label("violation reduced but not removed");
        if (v > 1e-6 && left < 1e-12 && t.alpha == 1.0) c.label("full step from an infeasible point");
      }
      const double s1 = Slack(b, it.x1);
      c.require(s1 >= -std::max(v, allowed(b, 1.0)) - 1e-9 - Rounding(b, it.x0, it.dx), say(pbt::str("the violation of bound ", j, " grew from ", v, " to ", -s1)));
      floor_v = std::max(floor_v, -s1);
    }
  }
  if (!infeasible) {
    double extra = r.spec.eqs.empty() ? 0 : r.p.termination_kkt_tolerance;
    const double n = static_cast<double>(r.run.its.size() + 1);
    for (std::size_t j = 0; j < bounds.size(); ++j)
      c.require(Slack(bounds[j], r.run.x) >= -n * (1.01e-9 + extra) - 1e-12 * (1 + std::abs(bounds[j].b)), [&] {
        return pbt::str("started inside all bounds but ended with bound ", j, " violated by ", -Slack(bounds[j], r.run.x), " at ", gen::Fmt(r.run.x.transpose()));
      });
  }
  if (infeasible) c.label("infeasible start");
  if (repaired) c.label("violation removed");
  if (near) c.label("close to a bound");
  if (near || repaired) c.nontrivial();
}

nls::Opts Base(pbt::Case& c) {
  nls::Opts o;
  o.p_bounds = 2;
  o.equalities = false;
  o.nonlinear = c.src.chance(1, 3) ? 4.0 : c.src.chance(1, 4) ? 0.0 : 1.0;
  return o;
}

void Feasible(pbt::Case& c) {
  nls::Opts o = Base(c);
  o.feasible_start = true;
  o.undefined = c.src.chance(1, 8);
  Check(c, nls::MakeRun(c, o, 12));
}
void Infeasible(pbt::Case& c) {
  nls::Opts o = Base(c);
  Check(c, nls::MakeRun(c, o, 12, [&](nls::Spec& s, Params& p) {
    // move at least one variable out of its bound
    const auto& b = s.bounds[static_cast<std::size_t>(c.src.integer(0, static_cast<int>(s.bounds.size()) - 1))];
    s.x0[b.variable] = -(b.b + c.src.logreal(1e-6, 10.0)) / b.a;
    if (c.src.boolean()) p.max_qp_iterations = 10 + c.src.integer(0, 30);
  }));
}
void WithEqualities(pbt::Case& c) {
  nls::Opts o = Base(c);
  o.equalities = true;
  o.p_eq = 2;
  o.feasible_start = c.src.boolean();
  Check(c, nls::MakeRun(c, o, 8, [&](nls::Spec&, Params& p) {
    p.termination_kkt_tolerance = c.src.logreal(1e-10, 1e-6);
    p.max_qp_iterations = 40;
  }));
}
// A cost that pulls hard against the bounds, with few inner iterations.
void Pulled(pbt::Case& c) {
  nls::Opts o = Base(c);
  o.feasible_start = true;
  Check(c, nls::MakeRun(c, o, 6, [&](nls::Spec& s, Params& p) {
    for (auto& t : s.costs)
      if (t.idx.size() == 1 && t.f.k.isZero(0) && c.src.boolean()) t.f.a *= c.src.logreal(1.0, 1e4);
    p.max_qp_iterations = c.src.integer(1, 8);
  }));
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C17";
  p.rule =
      "random nonlinear problems with bounds, started inside, on and outside of them, with few and many inner iterations; every trial point "
      "is checked against every bound. Non-trivial: a trial came within 1e-3 of a bound or removed a violation";
  p.assumptions = {"with equalities, only iterations whose inner problem was solved to tolerance are judged"};
  p.facets = {
      {"feasible", Feasible, 100000, 6000000, 0.3},
      {"infeasible", Infeasible, 80000, 5000000, 0.3},
      {"pulled", Pulled, 80000, 4000000, 0.3},
      {"with equalities", WithEqualities, 40000, 2000000, 0.3},
  };
  return p;
}
