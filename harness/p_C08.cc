// build: qp plain qp.cc structs.cc
// C08: different routes to the minimizer of a QP agree: the two solvers, the two initial guesses, the barrier
// strategies, equivalent ways of writing the same problem.
#include "ref.hpp"

using namespace mini_opt;
using Params = QPInteriorPointSolver::Params;
using ref::Index;
using ref::VectorXd;

namespace {

// Interior point and null-space solvers on the same equality constrained problem.
void NullSpaceVsInteriorPoint(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 8;
  o.n_large = 30;
  o.inequalities = false;
  o.dirty_upper = c.src.boolean();
  gen::QPCase q = gen::MakeQP(c.src, o);
  if (q.K() == 0) {
    q.qp.A_eq = gen::FullRowRank(c.src, 1, q.N());
    q.qp.b_eq = gen::Vec(c.src, 1, -5, 5);
  }
  Params p = gen::QPParams(c.src, 5);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  const ref::Model m(q.qp);
  const ref::EqMin e = ref::EqualityMin(m);
  if (!e.ok || e.cond > 1e9) c.discard("ill-conditioned");
  QPNullSpaceSolver ns{};
  c.require(ns.Solve(q.qp) == QPNullSpaceTerminationState::SUCCESS, "null-space solver failed on a positive definite problem");
  QPInteriorPointSolver ip(&q.qp);
  const auto out = ip.Solve(p);
  const VectorXd a = ns.variables(), b = ip.x_block();
  const double tol = 1e-13 * e.cond * (1 + e.x.norm() + e.y.norm()) * (1 + m.G.norm());
  c.require((a - b).norm() <= tol && (a - e.x).norm() <= tol, [&] {
    return pbt::str("null-space solver ", gen::Fmt(a.transpose()), ", interior point solver ", gen::Fmt(b.transpose()), ", reference ",
                    gen::Fmt(e.x.transpose()));
  });
  c.require(out.iterations.size() == 1 || !(p.termination_kkt_tol > 1e3 * tol), [&] {
    return pbt::str("the interior point solver needed ", out.iterations.size(), " iterations for a problem without inequalities");
  });
  c.nontrivial();
  c.label(q.K() == q.N() ? "fully determined" : "with freedom");
}

Params Tight(pbt::Source& s) {
  Params p{};
  p.initial_mu = s.boolean() ? 1.0 : s.logreal(0.1, 10.0);
  p.sigma = s.boolean() ? 0.1 : s.mag(0.05, 0.5);
  p.termination_kkt_tol = 1e-9;
  p.termination_complementarity_tol = 1e-11;
  p.max_iterations = 200;
  p.barrier_strategy = s.pick(std::vector<BarrierStrategy>{BarrierStrategy::COMPLEMENTARITY, BarrierStrategy::FIXED_DECREASE,
                                                           BarrierStrategy::PREDICTOR_CORRECTOR});
  p.initial_guess_method = s.boolean() ? InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED : InitialGuessMethod::NAIVE;
  p.initialize_mu_with_complementarity = s.chance(1, 4);
  return p;
}

struct Sol {
  VectorXd x;
  bool ok{false};
};
Sol Solve(const QP& qp, const Params& p) {
  Sol s;
  QPInteriorPointSolver solver(&qp);
  QPInteriorPointSolverOutputs out;
  try {
    out = solver.Solve(p);
  } catch (const FailedFactorization&) {
    return s;
  } catch (const assert::default_error&) {
    return s;
  }
  s.x = solver.x_block();
  s.ok = out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
  return s;
}

// Accepted results of the same strictly convex problem can only differ by what the tolerances allow.
void Require(pbt::Case& c, const gen::QPCase& q, const VectorXd& a, const VectorXd& b, const char* what, const double factor = 1.0) {
  // Each is within d of the minimizer: g_min d^2 <= M comp_tol + kkt_tol (d + |dz| + |dy|)
  const double d = std::sqrt((static_cast<double>(q.M()) * 1e-11 + 1e-9 * (a.norm() + b.norm() + 10)) / q.g_min_eig) * factor;
  c.worst("difference / allowed", (a - b).norm() / d);
  c.require((a - b).norm() <= d, [&] {
    return pbt::str(what, ": ", gen::Fmt(a.transpose()), " and ", gen::Fmt(b.transpose()), " differ by ", (a - b).norm(), " (allowed ", d, ")");
  });
}

gen::QPCase Problem(pbt::Case& c, const bool equalities) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 16;
  o.equalities = equalities;
  o.need_inequality = true;
  o.known_optimum = c.src.boolean();
  o.slack_lo = 0.25;
  o.wide_range = false;
  return gen::MakeQP(c.src, o);
}

// The same problem with different strategies, initial guesses and barrier values.
void Strategies(pbt::Case& c) {
  const gen::QPCase q = Problem(c, c.src.boolean());
  const Params p1 = Tight(c.src), p2 = Tight(c.src);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p1), gen::Describe(os, p2); });
  const Sol a = Solve(q.qp, p1), b = Solve(q.qp, p2);
  if (!a.ok || !b.ok) c.discard("not converged");
  Require(c, q, a.x, b.x, "two configurations");
  if (q.has_optimum) Require(c, q, a.x, q.x, "solver and known optimum");
  c.nontrivial();
  c.label(p1.barrier_strategy != p2.barrier_strategy ? "different strategies" : "same strategy");
}

// Multiplying the objective or the equations by a factor of any size does not change the minimizer.
void NullSpaceScaled(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 16;
  o.inequalities = false;
  gen::QPCase q = gen::MakeQP(c.src, o);
  if (q.K() == 0) {
    q.qp.A_eq = gen::FullRowRank(c.src, 1, q.N());
    q.qp.b_eq = gen::Vec(c.src, 1, -5, 5);
  }
  const ref::Model m(q.qp);
  const ref::EqMin e = ref::EqualityMin(m);
  if (!e.ok || e.cond > 1e7) c.discard("ill-conditioned");
  auto factor = [&] { return (c.src.boolean() ? 1.0 : -1.0) * std::pow(10.0, c.src.boolean() ? -c.src.integer(0, 60) : c.src.integer(0, 60)); };
  QP r = q.qp;
  const double t = std::abs(factor()), s = factor();
  r.G *= t;
  r.c *= t;
  r.A_eq *= s;
  r.b_eq *= s;
  c.describe([&](auto& os) { gen::Describe(os, q.qp), os << "objective times " << t << ", equations times " << s << "\n"; });
  QPNullSpaceSolver ns{};
  c.require(ns.Solve(r) == QPNullSpaceTerminationState::SUCCESS, "null-space solver failed on a positive definite problem");
  const double tol = 1e-12 * e.cond * (1 + e.x.norm() + e.y.norm()) * (1 + m.G.norm());
  c.require((ns.variables() - e.x).norm() <= tol, [&] { return pbt::str("scaled problem: ", gen::Fmt(ns.variables().transpose()), ", reference ", gen::Fmt(e.x.transpose())); });
  c.nontrivial();
}

// An equivalent formulation: x = scale * u + shift, elementwise.
struct Formulation {
  gen::QPCase r;
  VectorXd scale, shift;
  const char* what;
};

Formulation Rewrite(pbt::Source& s, const gen::QPCase& q, const int kind) {
  Formulation f{q, VectorXd::Ones(q.N()), VectorXd::Zero(q.N()), ""};
  QP& r = f.r.qp;
  if (kind == 0) {
    f.what = "constraints rescaled";
    for (auto& k : r.constraints) {
      const double t = s.logreal(0.25, 4.0);
      k = LinearInequalityConstraint(k.variable, k.a * t, k.b * t);
    }
  } else if (kind == 1) {
    f.what = "a redundant bound added";
    const int copies = s.integer(1, 3);
    for (int n = 0; n < copies; ++n) {
      auto& v = r.constraints;
      const std::size_t i = s.draw(v.size() - 1);
      auto k = v[i];
      const int same = s.integer(0, 2);  // the same again, a looser one, the same written differently
      if (same == 1) k.b += s.mag(0.0, 3.0) * std::abs(k.a);
      if (same == 2) k = LinearInequalityConstraint(k.variable, k.a * 2, k.b * 2);
      const std::size_t at = s.boolean() ? i + 1 : s.draw(v.size());
      v.insert(v.begin() + static_cast<long>(at), k);
    }
  } else if (kind == 2) {
    f.what = "objective scaled";
    const double t = s.logreal(0.25, 4.0);
    r.G *= t;
    r.c *= t;
  } else if (kind == 3) {
    f.what = "equality rows scaled";
    for (Index i = 0; i < r.A_eq.rows(); ++i) {
      const double t = s.nonzero(0.5, 2.0);
      r.A_eq.row(i) *= t;
      r.b_eq[i] *= t;
    }
  } else if (kind == 4) {
    f.what = "origin moved";
    f.shift = gen::Vec(s, q.N(), -2, 2);
    r.c += r.G * f.shift;
    if (q.K() > 0) r.b_eq += r.A_eq * f.shift;
    for (auto& k : r.constraints) k = k.ShiftTo(f.shift);
  } else {
    f.what = "one variable rescaled";
    const int v = s.integer(0, q.N() - 1);
    const double t = s.nonzero(0.5, 2.0);
    f.scale[v] = t;
    r.G.row(v) *= t;
    r.G.col(v) *= t;
    r.c[v] *= t;
    if (q.K() > 0) r.A_eq.col(v) *= t;
    for (auto& k : r.constraints)
      if (k.variable == v) k = LinearInequalityConstraint(v, k.a * t, k.b);
  }
  return f;
}

// Equivalent formulations.
void Reformulate(pbt::Case& c) {
  const gen::QPCase q = Problem(c, c.src.boolean());
  const Params p = Tight(c.src);
  const Formulation f = Rewrite(c.src, q, c.src.integer(0, 5));
  c.describe([&](auto& os) { gen::Describe(os, q.qp), os << f.what << "\n", gen::Describe(os, f.r.qp), gen::Describe(os, p); });
  const Sol a = Solve(q.qp, p), b = Solve(f.r.qp, p);
  if (!a.ok || !b.ok) c.discard("not converged");
  Require(c, q, a.x, (f.scale.array() * b.x.array()).matrix() + f.shift, f.what, 2.0);
  c.nontrivial();
  c.label(f.what);
}

// How often a problem is solved does not depend on how it is written. Measured on 500000 pairs with only
// inequalities and a simple strategy: one in 10^5 is solved in only one of the two formulations.
void ReformulateRate(pbt::Case& c) {
  constexpr int n = 20;
  const int kind = c.src.integer(0, 5);
  int different = 0;
  const char* what = "";
  std::ostringstream first;
  for (int i = 0; i < n; ++i) {
    gen::QPOpts o;
    o.n_usual = 6;
    o.n_large = 6;
    o.equalities = false;
    o.need_inequality = true;
    o.known_optimum = c.src.boolean();
    o.slack_lo = 0.25;
    o.wide_range = false;
    const gen::QPCase q = gen::MakeQP(c.src, o);
    Params p = Tight(c.src);
    if (p.barrier_strategy == BarrierStrategy::PREDICTOR_CORRECTOR) p.barrier_strategy = BarrierStrategy::COMPLEMENTARITY;
    const Formulation f = Rewrite(c.src, q, kind);
    what = f.what;
    if (Solve(q.qp, p).ok == Solve(f.r.qp, p).ok) continue;
    if (++different == 1) gen::Describe(first, q.qp), gen::Describe(first, f.r.qp), gen::Describe(first, p);
  }
  c.describe([&](auto& os) { os << what << ", " << n << " problems, the first one solved in only one of the two formulations:\n" << first.str(); });
  c.require(different <= 2, [&] { return pbt::str(what, ": ", different, " of ", n, " problems are solved in only one of the two formulations"); });
  c.nontrivial();
  c.label(what);
}

// Bounds that do not bind do not matter: the interior point result is the equality constrained minimizer.
void InactiveBounds(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 16;
  o.inequalities = false;
  gen::QPCase q = gen::MakeQP(c.src, o);
  const ref::EqMin e = ref::EqualityMin(ref::Model(q.qp));
  if (!e.ok || e.cond > 1e7) c.discard("ill-conditioned");
  const int m = c.src.integer(1, 6);
  for (int i = 0; i < m; ++i) {
    const int v = c.src.integer(0, q.N() - 1);
    const double a = c.src.nonzero(0.2, 4.0);
    q.qp.constraints.emplace_back(v, a, c.src.mag(0.3, 10.0) - a * e.x[v]);
  }
  const Params p = Tight(c.src);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  const Sol a = Solve(q.qp, p);
  if (!a.ok) c.discard("not converged");
  Require(c, q, a.x, e.x, "with and without bounds that do not bind");
  if (q.K() > 0) {
    QP eq = q.qp;
    eq.constraints.clear();
    QPNullSpaceSolver ns{};
    c.require(ns.Solve(eq) == QPNullSpaceTerminationState::SUCCESS, "null-space solver failed");
    Require(c, q, a.x, ns.variables(), "interior point and null-space solver");
  }
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C08";
  p.rule =
      "random strictly convex QPs solved along two routes: null-space vs interior point, two strategies / guesses / barrier values, two "
      "equivalent formulations (rescaled constraints, objective, rows or variables, moved origin, redundant bounds), with and without bounds "
      "that do not bind. Non-trivial: both routes returned a result that was compared";
  p.assumptions = {"runs that hit the iteration limit are compared with nothing (their rate is bounded, see C02)"};
  p.facets = {
      {"null_space", NullSpaceVsInteriorPoint, 120000, 8000000, 0.3},
      {"null_space_scaled", NullSpaceScaled, 120000, 8000000, 0.3},
      {"strategies", Strategies, 120000, 6000000, 0.15},
      {"reformulate_rate", ReformulateRate, 6000, 120000, 0},
      {"reformulate", Reformulate, 120000, 6000000, 0.15},
      {"inactive", InactiveBounds, 120000, 6000000, 0.3},
  };
  return p;
}
