// build: qp plain qp.cc structs.cc
// C06: the log of the interior point solver describes the run: residual norms before and after every
// iteration, and the summary of the equality multipliers.
#include "ref.hpp"

using namespace mini_opt;
using Params = QPInteriorPointSolver::Params;
using ref::Index;

namespace {

void CheckErr(pbt::Case& c, const KKTError& e, const ref::Model& m, const ref::State& st, const double mu, const char* when, const std::size_t k,
              const bool comp) {
  const ref::Residuals r = ref::KKT(m, st, mu);
  auto one = [&](const char* name, double got, double want, double tol) {
    // (squares below 1e-300 lose digits); norms that overflow: infinite, or not a number where the solver's own products already overflow
    const bool same = std::isfinite(want) && std::isfinite(tol) ? std::abs(got - want) <= 1e-9 * want + tol + 1e-145 : !(got < 1e140);
    c.require(same, [&] {
      return pbt::str("logged ", name, " residual ", when, " iteration ", k, " is ", got, ", recomputed ", want, " (tolerance ", tol, ") at ", ref::Fmt(st));
    });
  };
  one("dual", e.r_dual, r.dual.norm(), 1e-13 * r.dual_scale);
  one("equality", e.r_primal_eq, r.eq.norm(), 1e-13 * r.eq_scale);
  one("inequality", e.r_primal_ineq, r.ineq.norm(), 1e-13 * r.ineq_scale);
  if (comp) one("complementarity", e.r_comp, r.comp.norm(), 1e-7 * r.comp_scale);
  c.require(e.Max() == std::max(std::max(e.r_dual, e.r_comp), std::max(e.r_primal_eq, e.r_primal_ineq)), "KKTError::Max is not the largest element");
  if (m.K == 0) c.require(e.r_primal_eq == 0, "equality residual without equality constraints");
  if (m.M == 0) c.require(e.r_comp == 0 && e.r_primal_ineq == 0, "inequality residuals without inequality constraints");
}

void CheckMultipliers(pbt::Case& c, const QPInteriorPointSolverOutputs& out, const ref::State& st) {
  c.require(out.lagrange_multipliers.has_value() == (st.y.size() > 0), "multiplier summary present without equalities or absent with them");
  if (!out.lagrange_multipliers) return;
  double mn = st.y[0], mx = std::abs(st.y[0]);
  for (Index i = 0; i < st.y.size(); ++i) {
    mn = std::min(mn, st.y[i]);
    mx = std::max(mx, std::abs(st.y[i]));
  }
  c.require(out.lagrange_multipliers->min == mn && out.lagrange_multipliers->l_infinity == mx, [&] {
    return pbt::str("multiplier summary (", out.lagrange_multipliers->min, ", ", out.lagrange_multipliers->l_infinity, ") for y=", gen::Fmt(st.y.transpose()));
  });
  c.label("multiplier summary");
  if (mn < 0 && mx == -mn) c.label("largest multiplier negative");
}

void Run(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 20;
  o.known_optimum = c.src.chance(1, 4);
  const gen::QPCase q = gen::MakeQP(c.src, o);
  Params p = gen::QPParams(c.src, 20);
  std::optional<ref::VectorXd> user;
  const int N = q.N(), M = q.M(), K = q.K();
  ref::State g;
  if (c.src.boolean()) {
    p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
    g.x = gen::Vec(c.src, N, -4, 4);
    g.s.resize(M);
    g.z.resize(M);
    for (int i = 0; i < M; ++i) g.s[i] = c.src.logreal(1e-3, 1e3);
    g.y = gen::Vec(c.src, K, -5, 5);
    for (int i = 0; i < M; ++i) g.z[i] = c.src.logreal(1e-3, 1e3);
    user = ref::Stack(g);
  }
  c.describe([&](auto& os) {
    gen::Describe(os, q.qp), gen::Describe(os, p);
    if (user) os << "start " << ref::Fmt(g) << "\n";
  });
  const ref::History h = ref::Run(q.qp, p, user);
  if (h.threw) c.discard(ref::Why(h));
  const ref::Model m(q.qp);
  c.require(h.states.size() == h.out.iterations.size(), "log length");
  bool finite = true;
  const bool pc = p.barrier_strategy == BarrierStrategy::PREDICTOR_CORRECTOR && M > 0;
  // The barrier value the residuals are relative to. The predictor corrector strategy logs the one it chose
  // for its step instead, so it is followed here.
  std::optional<double> mu;
  if (!p.initialize_mu_with_complementarity)
    mu = p.initial_mu;
  else if (user && M > 0)
    mu = g.mu();
  for (std::size_t k = 0; k < h.states.size() && finite; ++k) {
    const auto& it = h.out.iterations[k];
    finite = h.states[k].tame();
    if (!finite) break;
    const double at = pc ? mu.value_or(0) : it.ip_outputs.mu;
    const bool comp = !pc || mu.has_value();
    if (k > 0)
      CheckErr(c, it.kkt_initial, m, h.states[k - 1], at, "before", k, comp);
    else if (user)
      CheckErr(c, it.kkt_initial, m, g, at, "before", k, comp);
    CheckErr(c, it.kkt_final, m, h.states[k], at, "after", k, comp);
    if (pc && comp) c.label("complementarity with the predictor corrector strategy");
    if (pc) {
      if (!p.decrease_mu_only_on_small_error || (mu && it.kkt_final.Max() < *mu * (1 - 1e-9)))
        mu = p.sigma * h.states[k].mu();
      else if (!mu || it.kkt_final.Max() < *mu * (1 + 1e-9))
        mu.reset();
    }
    if (k > 0) {
      const auto& pr = h.out.iterations[k - 1].kkt_final;
      c.require(pr.r_dual == it.kkt_initial.r_dual && pr.r_primal_eq == it.kkt_initial.r_primal_eq && pr.r_primal_ineq == it.kkt_initial.r_primal_ineq,
                [&] { return pbt::str("residuals after iteration ", k - 1, " and before iteration ", k, " differ"); });
    }
  }
  if (finite) CheckMultipliers(c, h.out, h.states.back());
  if (h.states.size() > 1 || user) c.nontrivial();
}

// The blocks the solver exposes are consistent views of its variables.
void Blocks(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 24;
  const gen::QPCase q = gen::MakeQP(c.src, o);
  const int N = q.N(), M = q.M(), K = q.K();
  QPInteriorPointSolver solver(&q.qp);
  const QPInteriorPointSolver& cs = solver;
  const ref::VectorXd v = gen::Vec(c.src, N + 2 * M + K, -100, 100);
  c.describe([&](auto& os) { os << "N=" << N << " M=" << M << " K=" << K << " v=" << gen::Fmt(v.transpose()) << "\n"; });
  solver.SetVariables(v);
  c.require(ref::BitEqual(cs.variables(), v), "variables() after SetVariables");
  c.require(ref::BitEqual(ref::VectorXd(cs.x_block()), v.head(N)) && ref::BitEqual(ref::VectorXd(cs.s_block()), v.segment(N, M)) &&
                ref::BitEqual(ref::VectorXd(cs.y_block()), v.segment(N + M, K)) && ref::BitEqual(ref::VectorXd(cs.z_block()), v.tail(M)),
            "const blocks are not the x, s, y, z parts of the variables");
  solver.x_block().setConstant(1.5);
  solver.s_block().setConstant(2.5);
  solver.y_block().setConstant(3.5);
  solver.z_block().setConstant(4.5);
  ref::VectorXd w(v.size());
  w << ref::VectorXd::Constant(N, 1.5), ref::VectorXd::Constant(M, 2.5), ref::VectorXd::Constant(K, 3.5), ref::VectorXd::Constant(M, 4.5);
  c.require(ref::BitEqual(cs.variables(), w), "mutable blocks do not write the x, s, y, z parts of the variables");
  c.require(&cs.problem() == &q.qp, "problem() is not the problem passed in");
  if (M > 0 && K > 0) c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C06";
  p.rule =
      "random QPs, parameters and start points; all residual norms of the log are recomputed in extended precision from the problem data and "
      "the recorded states, the multiplier summary from the final state. Non-trivial: more than one iteration or a user supplied start";
  p.assumptions = {"the barrier used in the complementarity residual of the predictor-corrector is checked by C05"};
  p.facets = {
      {"run", Run, 120000, 6000000, 0.2},
      {"blocks", Blocks, 100000, 1000000, 0.0},
  };
  return p;
}
