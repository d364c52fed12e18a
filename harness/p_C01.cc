// build: qp plain qp.cc structs.cc
// C01: the interior point solver claims convergence exactly when its final point is a KKT point within the
// requested tolerances, and otherwise runs to the iteration limit.
#include "ref.hpp"

using namespace mini_opt;
using Params = QPInteriorPointSolver::Params;
using ref::Index;

namespace {

struct Metric {
  double kkt{0}, comp{0}, kkt_err{0};
};
// Independent evaluation of the stopping criterion at a state: the largest KKT residual norm at barrier mu,
// the mean complementarity, and a bound for the rounding error of the former.
Metric Measure(const ref::Model& m, const ref::State& st, const double mu) {
  const ref::Residuals r = ref::KKT(m, st, mu);
  Metric o;
  o.kkt = std::max(std::max(r.dual.norm(), r.comp.norm()), std::max(r.eq.norm(), r.ineq.norm()));
  o.comp = st.mu();
  // r_comp is evaluated from squares, so its absolute error is about sqrt(eps) of its scale at worst.
  o.kkt_err = 1e-14 * (r.dual_scale + r.eq_scale + r.ineq_scale) + 4e-8 * r.comp_scale;
  return o;
}

void CheckRun(pbt::Case& c, const QP& qp, const Params& p, const ref::History& h, bool* satisfied) {
  const ref::Model m(qp);
  const int n = static_cast<int>(h.out.iterations.size());
  c.require(n >= 1 && n <= p.max_iterations, [&] { return pbt::str("logged ", n, " iterations, limit ", p.max_iterations); });
  *satisfied = h.out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
  c.require(*satisfied || n == p.max_iterations,
            [&] { return pbt::str("reports MAX_ITERATIONS after ", n, " of ", p.max_iterations, " iterations"); });
  // The barrier in force during each iteration, by the schedule of the parameters.
  for (int k = 0; k < n; ++k) {
    const ref::State& st = h.states[static_cast<std::size_t>(k)];
    const bool last = k + 1 == n;
    if (!st.finite()) {
      c.require(!(last && *satisfied), "claims convergence at a non-finite point");
      continue;
    }
    const auto& it = h.out.iterations[static_cast<std::size_t>(k)];
    // In every strategy the residuals are measured with the barrier the iteration started with; for the
    // predictor-corrector that is the schedule's value, not the one it reports.
    const double mu_lo = p.barrier_strategy == BarrierStrategy::PREDICTOR_CORRECTOR ? -1.0 : it.ip_outputs.mu;
    const ref::Residuals r0 = ref::KKT(m, st, 0.0);
    const double non_comp = std::max(r0.dual.norm(), std::max(r0.eq.norm(), r0.ineq.norm()));
    const double err = 1e-14 * (r0.dual_scale + r0.eq_scale + r0.ineq_scale);
    const double comp_mean = st.mu();
    if (last && *satisfied) {
      c.require(non_comp < p.termination_kkt_tol + err, [&] {
        return pbt::str("claims convergence to ", p.termination_kkt_tol, " but the residual of the optimality conditions is ", non_comp,
                        " (dual ", r0.dual.norm(), ", equality ", r0.eq.norm(), ", inequality ", r0.ineq.norm(), ") at ", ref::Fmt(st));
      });
      c.require(comp_mean < p.termination_complementarity_tol * (1 + 1e-9) || m.M == 0, [&] {
        return pbt::str("claims convergence but the mean complementarity s*z/M is ", comp_mean, " >= ", p.termination_complementarity_tol);
      });
      c.require((st.s.array() > 0).all() && (st.z.array() >= 0).all(),
                [&] { return "claims convergence at a point with a non-positive slack or multiplier: " + ref::Fmt(st); });

    }
    if (m.M > 0 && mu_lo >= 0) {
      const Metric me = Measure(m, st, mu_lo);
      if (last && *satisfied) {
        c.require(me.kkt < p.termination_kkt_tol + me.kkt_err,
                  [&] { return pbt::str("claims convergence, perturbed KKT residual ", me.kkt, " >= ", p.termination_kkt_tol); });
      } else {
        // it must not have continued past a point that met the criterion
        const bool met = me.kkt + me.kkt_err < p.termination_kkt_tol && comp_mean < p.termination_complementarity_tol * (1 - 1e-9);
        c.require(!met, [&] {
          return pbt::str("iteration ", k, " met the stopping criterion (", me.kkt, " < ", p.termination_kkt_tol, ", ", comp_mean, " < ",
                          p.termination_complementarity_tol, ") but the solver did not report it");
        });
      }
    } else if (m.M == 0 && !(last && *satisfied)) {
      const bool met = non_comp + err < p.termination_kkt_tol;
      c.require(!met, [&] { return pbt::str("iteration ", k, " met the stopping criterion (", non_comp, " < ", p.termination_kkt_tol, ") but the solver did not report it"); });
    }
  }
}

void Truthful(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 24;
  o.known_optimum = c.src.chance(1, 3);
  const gen::QPCase q = gen::MakeQP(c.src, o);
  Params p = gen::QPParams(c.src, c.src.chance(1, 3) ? 12 : 45);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  const ref::History h = ref::Run(q.qp, p);
  if (h.threw) {
    c.label("solver refused (factorization)");
    c.discard(ref::Why(h));
  }
  bool sat = false;
  CheckRun(c, q.qp, p, h, &sat);
  c.label(sat ? "converged" : "iteration limit");
  if (q.K() > 0) c.label("equalities");
  if (q.M() > 0) c.label("inequalities");
  if (h.states.size() > 1) c.nontrivial();
  if (sat && q.has_optimum) {
    // Distance to the known optimum: lambda_min |dx|^2 <= dx.r_d + dy.r_pe + dz.r_pi + s.z
    const ref::State& st = h.states.back();
    const ref::Model m(q.qp);
    const ref::Residuals r = ref::KKT(m, st, 0);
    const ref::VectorXd dx = st.x - q.x;
    const double rhs = r.dual.norm() * dx.norm() + (m.K ? (st.y - q.y).norm() * r.eq.norm() : 0.0) +
                       (m.M ? (st.z - q.z).norm() * r.ineq.norm() + st.s.dot(st.z) : 0.0);
    const double scale = 1e-10 * (1 + q.x.squaredNorm()) * (1 + m.G.norm());
    const double big = std::max(m.K ? st.y.cwiseAbs().maxCoeff() : 0.0, m.M ? st.z.cwiseAbs().maxCoeff() : 0.0);
    if (big > 1e140) {  // degenerate: the multipliers leave the range in which the bound can be computed
      c.label("diverged multipliers");
      return;
    }
    c.require(q.g_min_eig * dx.squaredNorm() <= rhs * (1 + 1e-6) + scale, [&] {
      return pbt::str("claims convergence but is ", dx.norm(), " away from the known minimizer ", gen::Fmt(q.x.transpose()),
                      ", more than the residuals allow; at ", ref::Fmt(st));
    });
    c.label("compared with known minimizer");
  }
}

// Problems without a solution must never be reported as solved.
void Infeasible(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 4;
  o.n_large = 10;
  o.need_inequality = true;
  gen::QPCase q = gen::MakeQP(c.src, o);
  const int n = q.N();
  const double gap = c.src.mag(0.5, 5.0);
  const int kind = c.src.integer(0, 2);
  const int var = c.src.integer(0, n - 1);
  if (kind == 0) {
    // x >= t + gap and x <= t
    const double t = c.src.real(-3, 3);
    const double a1 = c.src.mag(0.3, 3), a2 = c.src.mag(0.3, 3);
    q.qp.constraints.emplace_back(var, a1, -a1 * (t + gap));
    q.qp.constraints.emplace_back(var, -a2, a2 * t);
  } else if (kind == 1) {
    // an equality that pins x[var] outside a bound
    const double t = c.src.real(-3, 3);
    q.qp.A_eq = ref::MatrixXd::Zero(1, n);
    q.qp.A_eq(0, var) = 1.0;
    q.qp.b_eq = ref::VectorXd::Constant(1, -t);
    q.qp.constraints.emplace_back(var, 1.0, -(t + gap));
  } else {
    // two contradicting equalities
    const ref::VectorXd a = gen::Vec(c.src, n, -1, 1) + ref::VectorXd::Constant(n, 1.5);
    q.qp.A_eq.resize(2, n);
    q.qp.A_eq.row(0) = a.transpose();
    q.qp.A_eq.row(1) = a.transpose() * (c.src.boolean() ? -1.0 : 1.0);
    q.qp.b_eq = ref::VectorXd(2);
    q.qp.b_eq[0] = 1.0;
    q.qp.b_eq[1] = q.qp.A_eq(1, 0) * q.qp.A_eq(0, 0) > 0 ? 1.0 + gap : -1.0 + gap;
  }
  Params p = gen::QPParams(c.src, 30);
  p.termination_kkt_tol = std::min(p.termination_kkt_tol, 1e-3);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  QPInteriorPointSolver solver(&q.qp);
  QPInteriorPointSolverOutputs out;
  try {
    out = solver.Solve(p);
  } catch (const FailedFactorization&) {
    c.label("refused: factorization");
    return;
  } catch (const assert::default_error&) {
    c.label("refused: assertion");
    return;
  }
  c.nontrivial();
  c.require(out.termination_state == QPInteriorPointTerminationState::MAX_ITERATIONS, [&] {
    return pbt::str("an infeasible problem (gap ", gap, ") is reported as solved at ", ref::Fmt(ref::Get(solver)));
  });
  c.require(static_cast<int>(out.iterations.size()) == p.max_iterations, "MAX_ITERATIONS before the limit");
}

// Unusual starting points and tolerances: the user hands over the variables, sometimes an exact solution.
void UserStart(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 5;
  o.n_large = 16;
  o.known_optimum = c.src.boolean();
  const gen::QPCase q = gen::MakeQP(c.src, o);
  Params p = gen::QPParams(c.src, 12);
  p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
  const int N = q.N(), M = q.M(), K = q.K();
  ref::VectorXd v(N + 2 * M + K);
  if (q.has_optimum && c.src.boolean()) {
    const double mu = c.src.logreal(1e-9, 1e-2);
    v << q.x, q.s, q.y, q.z;
    for (int i = 0; i < M; ++i) {
      v[N + i] = std::max(v[N + i], q.z[i] > 0 ? mu / q.z[i] : mu);
      v[N + M + K + i] = std::max(q.z[i], mu / v[N + i]);
    }
  } else {
    v.head(N) = gen::Vec(c.src, N, -4, 4);
    for (int i = 0; i < M; ++i) v[N + i] = c.src.logreal(1e-6, 1e3);
    for (int i = 0; i < K; ++i) v[N + M + i] = c.src.real(-5, 5);
    for (int i = 0; i < M; ++i) v[N + M + K + i] = c.src.logreal(1e-6, 1e3);
  }
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p), os << "start " << gen::Fmt(v.transpose()) << "\n"; });
  const ref::History h = ref::Run(q.qp, p, v);
  if (h.threw) c.discard(ref::Why(h));
  bool sat = false;
  CheckRun(c, q.qp, p, h, &sat);
  c.label(sat ? "converged" : "iteration limit");
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C01";
  p.rule =
      "random QPs (positive definite G, up to 24 variables, bounds incl. duplicates, equalities up to fully determined), parameters, "
      "strategies and start points; the residuals after every iteration are recomputed from the problem data in extended precision. "
      "Non-trivial: more than one iteration ran (truthful), the solver returned a verdict (infeasible, user_start)";
  p.assumptions = {"runs of the solver are deterministic (checked by C09), so the state after k iterations is what a run limited to k leaves",
                   "a verdict within the rounding error of the residual evaluation is accepted either way"};
  p.facets = {
      {"truthful", Truthful, 120000, 6000000, 0.5},
      {"infeasible", Infeasible, 120000, 6000000, 0.5},
      {"user_start", UserStart, 150000, 6000000, 0.5},
  };
  return p;
}
