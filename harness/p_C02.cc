// build: qp plain qp.cc structs.cc
// C02: well-posed convex QPs are solved to their minimizer.
#include "ref.hpp"

using namespace mini_opt;
using Params = QPInteriorPointSolver::Params;
using ref::Index;

namespace {

Params Generous(pbt::Source& s) {
  Params p{};
  p.initial_mu = s.chance(1, 2) ? 1.0 : s.logreal(0.1, 10.0);
  p.sigma = s.chance(1, 2) ? 0.1 : s.mag(0.05, 0.5);
  p.termination_kkt_tol = 1e-7;
  p.termination_complementarity_tol = 1e-6;
  p.max_iterations = 600;
  p.barrier_strategy = s.boolean() ? BarrierStrategy::COMPLEMENTARITY : BarrierStrategy::FIXED_DECREASE;
  p.initial_guess_method = s.boolean() ? InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED : InitialGuessMethod::NAIVE;
  return p;
}

// Distance to a known minimizer that the tolerances allow.
void CheckOptimum(pbt::Case& c, const gen::QPCase& q, const ref::State& st, const Params& p) {
  const ref::Model m(q.qp);
  const double ndx = (st.x - q.x).norm();
  const double comp = p.termination_complementarity_tol * static_cast<double>(m.M);
  const double rhs = p.termination_kkt_tol * (ndx + (m.M ? (st.z - q.z).norm() : 0) + (m.K ? (st.y - q.y).norm() : 0)) + comp;
  c.require(q.g_min_eig * ndx * ndx <= rhs * (1 + 1e-6) + 1e-11 * (1 + q.x.squaredNorm()) * m.G.norm(), [&] {
    return pbt::str("solution is ", ndx, " from the minimizer ", gen::Fmt(q.x.transpose()), ": ", ref::Fmt(st));
  });
  for (Index i = 0; i < m.M; ++i) {
    const double v = m.Ai.row(i).dot(st.x) + m.bi[i];
    c.require(v >= -1.1e-7 - 1e-12 * (std::abs(m.bi[i]) + 1), [&] { return pbt::str("constraint ", i, " violated by ", -v); });
  }
}

// Without a merit function single problems diverge (about one in 10^7). Such a failure is isolated when most
// problems close to it (another linear term, a common start of the barrier) are solved.
bool Isolated(const gen::QPCase& q, const Params& p) {
  int ok = 0;
  const int n = 15;
  uint32_t r = 12345;
  auto uniform = [&] { return (static_cast<double>((r = r * 1664525u + 1013904223u) >> 8) / (1 << 24)) * 2 - 1; };
  for (int i = 0; i < n; ++i) {
    QP near = q.qp;
    for (Index k = 0; k < near.c.size(); ++k) near.c[k] += 0.1 * (1 + std::abs(near.c[k])) * uniform();
    Params pn = p;
    pn.sigma = std::max(pn.sigma, 0.1);  // a barrier that falls faster than the problem is solved diverges more often
    pn.initial_mu = std::max(pn.initial_mu, 1.0) * std::exp(0.5 * uniform());
    try {
      QPInteriorPointSolver solver(&near);
      ok += solver.Solve(pn).termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
    } catch (const FailedFactorization&) {
    } catch (const assert::default_error&) {
    }
  }
  return ok >= 10;
}

void NoEqualities(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 12;
  o.equalities = false;
  o.need_inequality = true;
  o.known_optimum = c.src.chance(2, 3);
  o.slack_lo = 0.25;
  o.wide_range = false;
  gen::QPCase q = gen::MakeQP(c.src, o);
  const Params p = Generous(c.src);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  QPInteriorPointSolver solver(&q.qp);
  QPInteriorPointSolverOutputs out{};
  std::string threw;
  try {
    out = solver.Solve(p);
  } catch (const FailedFactorization& e) {
    threw = e.what();
  } catch (const assert::default_error& e) {
    threw = e.what();
  }
  const ref::State st = ref::Get(solver);
  if ((!threw.empty() || out.termination_state != QPInteriorPointTerminationState::SATISFIED_KKT_TOL) && Isolated(q, p)) c.discard("isolated failure");
  c.worst("iterations", static_cast<double>(out.iterations.size()));
  c.require(threw.empty(), [&] { return "the solver threw: " + threw; });
  c.require(out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL,
            [&] { return pbt::str("not solved in ", out.iterations.size(), " iterations; ended at ", ref::Fmt(st)); });
  if (q.has_optimum) CheckOptimum(c, q, st, p);
  // Independent optimality certificate: feasible, dual feasible, complementary, stationary.
  const ref::Model m(q.qp);
  const ref::Residuals r = ref::KKT(m, st, 0.0);
  c.require(r.dual.norm() <= 1.01e-7 + 1e-13 * r.dual_scale && r.ineq.norm() <= 1.01e-7 + 1e-13 * r.ineq_scale && st.mu() <= 1.01e-6 &&
                (st.z.array() >= 0).all() && (st.s.array() >= 0).all(),
            [&] { return "the result is not optimal: " + ref::Fmt(st); });
  if (out.iterations.size() > 2) c.nontrivial();
  c.label(q.M() > q.N() ? "more constraints than variables" : "few constraints");
}

// Without inequalities the problem is linear algebra: one Newton step from any start.
void OnlyEqualities(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 8;
  o.n_large = 40;
  o.inequalities = false;
  const gen::QPCase q = gen::MakeQP(c.src, o);
  Params p = gen::QPParams(c.src, 6);
  const bool user = c.src.chance(1, 3);
  ref::VectorXd start;
  if (user) {
    p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
    start = gen::Vec(c.src, q.N() + q.K(), -50, 50);
  }
  c.describe([&](auto& os) {
    gen::Describe(os, q.qp), gen::Describe(os, p);
    if (user) os << "start " << gen::Fmt(start.transpose()) << "\n";
  });
  const ref::Model m(q.qp);
  const ref::EqMin e = ref::EqualityMin(m);
  if (!e.ok || e.cond > 1e9) c.discard("ill-conditioned");
  ref::VectorXd sol(e.x.size() + e.y.size());
  sol << e.x, e.y;
  const double err = 1e-13 * e.cond * (1 + sol.norm() + (user ? start.norm() : 0.0)) * (1 + m.G.norm());
  QPInteriorPointSolver solver(&q.qp);
  if (user) solver.SetVariables(start);
  p.max_iterations = 1;
  const auto out = solver.Solve(p);
  const ref::State st = ref::Get(solver);
  c.require(out.iterations.size() == 1, "one iteration requested");
  c.require((st.x - e.x).norm() <= err && (st.y - e.y).norm() <= err, [&] {
    return pbt::str("one Newton step should solve an equality constrained QP: got ", ref::Fmt(st), " expected x=", gen::Fmt(e.x.transpose()),
                    " y=", gen::Fmt(e.y.transpose()));
  });
  c.require(out.iterations[0].ip_outputs.alpha.primal == 1.0 && out.iterations[0].ip_outputs.alpha.dual == 1.0,
            "the step was shortened although there are no inequalities");
  c.nontrivial();
  c.label(q.K() == 0 ? "unconstrained" : q.K() == q.N() ? "fully determined" : "equalities");
}

// Rates over batches, for the configurations where single problems may legitimately fail to converge.
struct RateOpts {
  bool equalities;
  BarrierStrategy strategy;
  InitialGuessMethod guess;
  double min_rate;
};
void Rate(pbt::Case& c, const RateOpts& r) {
  int ok = 0;
  const int n = 200;
  std::string first;
  for (int i = 0; i < n; ++i) {
    gen::QPOpts o;
    o.n_usual = 8;
    o.n_large = r.equalities ? 16 : 36;
    o.need_inequality = true;
    o.equalities = r.equalities;
    o.known_optimum = !r.equalities && c.src.boolean();
    gen::QPCase q;
    do {
      q = gen::MakeQP(c.src, o);
    } while (r.equalities && (q.K() == q.N() && q.N() > 1));
    Params p = Generous(c.src);
    p.barrier_strategy = r.strategy;
    p.initial_guess_method = r.guess;
    QPInteriorPointSolver solver(&q.qp);
    bool good = false;
    try {
      const auto out = solver.Solve(p);
      good = out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
    } catch (const FailedFactorization&) {
    } catch (const assert::default_error&) {
    }
    ok += good;
    if (!good && first.empty() && c.verbose) {
      std::ostringstream os;
      gen::Describe(os, q.qp);
      gen::Describe(os, p);
      first = os.str();
    }
  }
  c.describe([&](auto& os) { os << ok << " of " << n << " well-posed problems solved; first failure:\n" << first << "\n"; });
  c.worst("failed of 200", n - ok);
  c.require(ok >= r.min_rate * n, [&] { return pbt::str("only ", ok, " of ", n, " well-posed problems were solved"); });
  c.nontrivial();
}

// The same kind of problem in other units: objective, multipliers and barrier scaled together.
void Units(pbt::Case& c) {
  int ok = 0, hard = 0;
  const int n = 40;
  const int l = c.src.integer(-20, 20);
  const double length = std::ldexp(1.0, l);
  // one tolerance serves the residuals in units of the gradient and of the variables: they must not differ too much
  const double unit = std::ldexp(1.0, 2 * l + c.src.integer(-10, 10));
  std::string first;
  for (int i = 0; i < n; ++i) {
    gen::QPOpts o;
    o.n_usual = 5;
    o.n_large = 10;
    o.equalities = false;
    o.need_inequality = true;
    o.known_optimum = true;
    o.slack_lo = 0.25;
    o.wide_range = false;
    gen::QPCase q = gen::MakeQP(c.src, o);
    Params p = Generous(c.src);
    // f' = unit * f, x' = length * x
    q.qp.G *= unit / (length * length);
    q.qp.c *= unit / length;
    for (auto& k : q.qp.constraints) k.b *= length;
    p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
    p.initial_mu *= unit;
    p.termination_kkt_tol *= std::min(unit / length, length);
    p.termination_complementarity_tol *= unit;
    QPInteriorPointSolver solver(&q.qp);
    const ref::Model m(q.qp);
    ref::VectorXd v = ref::VectorXd::Zero(m.N + 2 * m.M);
    for (Index k = 0; k < m.M; ++k) {
      v[m.N + k] = std::max(0.1 * length, m.bi[k]);
      v[m.N + m.M + k] = unit / v[m.N + k];
    }
    solver.SetVariables(v);
    bool good = false;
    try {
      const auto out = solver.Solve(p);
      const ref::State st = ref::Get(solver);
      good = out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
      if (good) {
        // distance to the minimizer in the original units
        const double d = (st.x / length - q.x).norm();
        const double e = 1e-7 * (1 + d + (q.M() ? (st.z * (length / unit) - q.z).norm() : 0.0)) + 1e-6 * m.M;
        c.require(q.g_min_eig * d * d <= 2 * e * (1 + d) + 1e-9 * (1 + q.x.squaredNorm()) * q.qp.G.norm() / unit * length * length,
                  [&] { return pbt::str("solution is ", d, " from the minimizer ", gen::Fmt(q.x.transpose()), " at unit ", unit, " length ", length); });
      }
    } catch (const FailedFactorization&) {
    } catch (const assert::default_error&) {
    }
    ok += good;
    hard += m.M > 2;
    if (!good && first.empty() && c.verbose) {
      std::ostringstream os;
      gen::Describe(os, q.qp);
      gen::Describe(os, p);
      first = os.str();
    }
  }
  c.describe([&](auto& os) { os << "unit " << unit << " length " << length << ": " << ok << " of " << n << " solved; first failure:\n" << first << "\n"; });
  c.worst("failed of 40", n - ok);
  c.require(ok >= n - 1, [&] { return pbt::str("only ", ok, " of ", n, " problems were solved at unit ", unit, " length ", length); });
  if (unit != 1.0 || length != 1.0) c.nontrivial();
  c.label(unit > 1e6 ? "large unit" : unit < 1e-6 ? "small unit" : "medium unit");
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C02";
  p.rule =
      "strictly convex QPs with a strictly feasible point (up to 36 variables, 75 bounds), minimizer known in advance for two thirds; "
      "linear problems compared with an independent dense solve; batches of 200 problems for configurations with equalities and for "
      "the predictor-corrector. Non-trivial: more than two iterations, every linear problem, every batch";
  p.assumptions = {
      "every problem without equalities must be solved by the two simple barrier strategies unless 10 of 15 problems close to it are; elsewhere a rate "
      "is required because the solver has no merit function and documents that it can fail"};
  using S = BarrierStrategy;
  using I = InitialGuessMethod;
  p.facets = {
      {"no_equalities", NoEqualities, 400000, 12000000, 0.01},
      {"only_equalities", OnlyEqualities, 250000, 12000000, 0.2},
      {"units", Units, 8000, 200000, 0.5},
      {"rate_bounds", [](Case& c) { Rate(c, {false, S::COMPLEMENTARITY, I::NAIVE, 0.97}); }, 500, 20000, 0},
      {"rate_bounds_fixed", [](Case& c) { Rate(c, {false, S::FIXED_DECREASE, I::SOLVE_EQUALITY_CONSTRAINED, 0.97}); }, 500, 20000, 0},
      {"rate_equalities", [](Case& c) { Rate(c, {true, S::COMPLEMENTARITY, I::SOLVE_EQUALITY_CONSTRAINED, 0.93}); }, 500, 20000, 0},
      {"rate_equalities_naive", [](Case& c) { Rate(c, {true, S::COMPLEMENTARITY, I::NAIVE, 0.93}); }, 500, 20000, 0},
      {"rate_equalities_fixed", [](Case& c) { Rate(c, {true, S::FIXED_DECREASE, I::SOLVE_EQUALITY_CONSTRAINED, 0.93}); }, 500, 20000, 0},
      {"rate_predictor", [](Case& c) { Rate(c, {false, S::PREDICTOR_CORRECTOR, I::NAIVE, 0.93}); }, 500, 20000, 0},
      {"rate_predictor_equalities", [](Case& c) { Rate(c, {true, S::PREDICTOR_CORRECTOR, I::SOLVE_EQUALITY_CONSTRAINED, 0.93}); }, 500, 20000, 0},
  };
  return p;
}
