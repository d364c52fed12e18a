// build: qp plain qp.cc structs.cc
// C05: initial guesses and the barrier schedule are the ones the parameters describe.
#include "ref.hpp"

using namespace mini_opt;
using Params = QPInteriorPointSolver::Params;
using ref::Index;

namespace {

bool Finite(const ref::History& h) {
  for (const auto& s : h.states)
    if (!s.finite()) return false;
  return true;
}

// The barrier value of every iteration follows from the parameters and the recorded states.
void CheckSchedule(pbt::Case& c, const ref::Model& m, const Params& p, const ref::History& h, const double mu_first) {
  double mu = mu_first;
  bool known = true;
  for (std::size_t k = 0; k < h.states.size(); ++k) {
    const auto& it = h.out.iterations[k];
    if (!h.states[k].tame()) return;
    if (p.barrier_strategy != BarrierStrategy::PREDICTOR_CORRECTOR || m.M == 0) {
      if (known)
        c.require(ref::Near(it.ip_outputs.mu, mu, 1e-9, 1e-300), [&] {
          return pbt::str("barrier value of iteration ", k, " is ", it.ip_outputs.mu, ", the parameters prescribe ", mu);
        });
      if (m.M > 0) mu = it.ip_outputs.mu;
    } else if (known && m.M > 0) {
      // Not logged directly: it shows in the complementarity residual of the log.
      const ref::Residuals r = ref::KKT(m, h.states[k], mu);
      if (!(r.comp.norm() < 1e140)) return;
      c.require(ref::Near(it.kkt_final.r_comp, r.comp.norm(), 1e-6, 1e-7 * r.comp_scale), [&] {
        return pbt::str("complementarity residual of iteration ", k, " is ", it.kkt_final.r_comp, "; with the prescribed barrier ", mu, " it is ",
                        r.comp.norm());
      });
    }
    // Next value.
    const ref::Residuals r = ref::KKT(m, h.states[k], mu);
    const double worst = std::max(std::max(r.dual.norm(), r.comp.norm()), std::max(r.eq.norm(), r.ineq.norm()));
    const double err = 1e-13 * (r.dual_scale + r.eq_scale + r.ineq_scale) + 4e-8 * r.comp_scale;
    bool decrease = true;
    if (p.decrease_mu_only_on_small_error) {
      if (std::abs(worst - mu) <= err) return;  // cannot tell which way the solver decided
      decrease = worst <= mu;
      c.label(decrease ? "small error: decreased" : "large error: kept");
    }
    if (decrease) mu = p.barrier_strategy == BarrierStrategy::FIXED_DECREASE ? mu * p.sigma : p.sigma * h.states[k].mu();
  }
}

void Guess(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 7;
  o.n_large = 24;
  const gen::QPCase q = gen::MakeQP(c.src, o);
  Params p = gen::QPParams(c.src, 1);
  p.max_iterations = 1;
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  const ref::Model m(q.qp);
  bool well = true;
  const ref::State g = ref::InitialGuess(m, q.qp, p.initial_guess_method == InitialGuessMethod::NAIVE, &well);
  if (!well) c.discard("ill-conditioned");
  const ref::History h = ref::Run(q.qp, p);
  if (h.threw) c.discard(ref::Why(h));
  const auto& it = h.out.iterations[0];
  const double mu = p.initialize_mu_with_complementarity ? g.mu() : p.initial_mu;
  if (p.barrier_strategy != BarrierStrategy::PREDICTOR_CORRECTOR || m.M == 0)
    c.require(ref::Near(it.ip_outputs.mu, mu, 1e-9, 0), [&] { return pbt::str("first barrier value ", it.ip_outputs.mu, " expected ", mu); });
  const ref::Residuals r = ref::KKT(m, g, mu);
  // An unconstrained slack that is (nearly) zero is reset to 1e-9 and its multiplier to 1e9; the equality
  // constrained minimizer is known to ~1e-9 relative, so multipliers of small slacks are uncertain.
  double z_err = 0, smin = 1e300;
  const double x_err = p.initial_guess_method == InitialGuessMethod::NAIVE ? 0 : 1e-9 * (1 + g.x.norm());
  for (Index i = 0; i < m.M; ++i) {
    smin = std::min(smin, g.s[i]);
    const double amax = m.Ai.row(i).cwiseAbs().maxCoeff();
    const double s_err = amax * x_err + 1e-15 * (std::abs(m.bi[i]) + amax * g.x.norm());
    if (g.s[i] > 1.0001e-9 || s_err > 1e-13) z_err += amax * s_err / (g.s[i] * g.s[i]);
  }
  auto near = [&](double got, double want, double scale, const char* name) {
    c.require(std::abs(got - want) <= 1e-9 * want + 1e-9 * scale, [&] {
      return pbt::str(name, " residual at the initial guess is ", got, ", but the prescribed guess ", ref::Fmt(g), " has ", want);
    });
  };
  const double xs = (1 + g.x.norm()) * (1 + m.G.norm());
  const bool sharp = z_err < 1e-6 * (1 + r.dual.norm());
  if (sharp) near(it.kkt_initial.r_dual, r.dual.norm(), xs + 1e9 * z_err + (m.K ? g.y.norm() * m.A.norm() : 0.0) + 1e-6 * r.dual_scale, "dual");
  near(it.kkt_initial.r_primal_eq, r.eq.norm(), (1 + g.x.norm()) * (1 + m.A.norm()), "equality");
  near(it.kkt_initial.r_primal_ineq, r.ineq.norm(), (1 + g.x.norm()) * (1 + m.Ai.norm()), "inequality");
  // s*z = 1 for every constraint, so the complementarity residual is sqrt(M) |1 - mu|
  near(it.kkt_initial.r_comp, std::sqrt(static_cast<double>(m.M)) * std::abs(1 - mu), 1000 * std::sqrt(static_cast<double>(m.M)) * (1 + mu), "complementarity");
  // One iteration from there.
  if (p.barrier_strategy != BarrierStrategy::PREDICTOR_CORRECTOR || m.M == 0) {
    const ref::Step d = ref::Newton(m, g, m.M ? mu : 0.0, {});
    if (d.ok && d.cond < 1e7 && (m.M == 0 || smin > 1e-3) && z_err < 1e-6) {
      const ref::State& st = h.states[0];
      const double ap = it.ip_outputs.alpha.primal;
      const ref::VectorXd want = g.x + ap * d.dx;
      const double tol = 1e-5 * (1 + want.cwiseAbs().maxCoeff() + (1 - ap < 1e-3 ? 0.0 : d.dx.cwiseAbs().maxCoeff()));
      c.require((st.x - want).cwiseAbs().maxCoeff() <= tol, [&] {
        return pbt::str("after one iteration x=", gen::Fmt(st.x.transpose()), "; from the prescribed guess ", ref::Fmt(g), " it should be ",
                        gen::Fmt(want.transpose()));
      });
      c.label("first step compared");
    }
  }
  c.label(p.initial_guess_method == InitialGuessMethod::NAIVE ? "naive" : "equality constrained");
  if (m.M > 0) {
    bool clamped = false;
    for (Index i = 0; i < m.M; ++i) clamped = clamped || g.s[i] <= 1.0001e-9;
    c.label(clamped ? "guess clamped to a bound" : "guess inside the bounds");
    if (sharp) c.nontrivial();
  }
}

void Schedule(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 5;
  o.n_large = 14;
  o.need_inequality = c.src.chance(9, 10);
  const gen::QPCase q = gen::MakeQP(c.src, o);
  Params p = gen::QPParams(c.src, 15);
  p.decrease_mu_only_on_small_error = c.src.chance(1, 2);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  const ref::History h = ref::Run(q.qp, p);
  if (h.threw) c.discard(ref::Why(h));
  const ref::Model m(q.qp);
  // s*z = 1 at the built-in guesses
  const double first = p.initialize_mu_with_complementarity ? (m.M > 0 ? 1.0 : 0.0) : p.initial_mu;
  CheckSchedule(c, m, p, h, first);
  if (h.states.size() > 2) c.nontrivial();
  c.label(p.barrier_strategy == BarrierStrategy::COMPLEMENTARITY ? "complementarity"
          : p.barrier_strategy == BarrierStrategy::FIXED_DECREASE ? "fixed decrease"
                                                                  : "predictor-corrector");
}

void UserStart(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 5;
  o.n_large = 12;
  o.need_inequality = true;
  const gen::QPCase q = gen::MakeQP(c.src, o);
  Params p = gen::QPParams(c.src, 8);
  p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
  p.initialize_mu_with_complementarity = c.src.boolean();
  const int N = q.N(), M = q.M(), K = q.K();
  ref::State g;
  g.x = gen::Vec(c.src, N, -4, 4);
  g.s.resize(M);
  g.z.resize(M);
  for (int i = 0; i < M; ++i) g.s[i] = c.src.logreal(1e-3, 1e3);
  g.y = gen::Vec(c.src, K, -5, 5);
  for (int i = 0; i < M; ++i) g.z[i] = c.src.logreal(1e-3, 1e3);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p), os << "start " << ref::Fmt(g) << "\n"; });
  const ref::History h = ref::Run(q.qp, p, ref::Stack(g));
  if (h.threw) c.discard(ref::Why(h));
  const ref::Model m(q.qp);
  const double first = p.initialize_mu_with_complementarity ? g.mu() : p.initial_mu;
  const ref::Residuals r = ref::KKT(m, g, first);
  const auto& k0 = h.out.iterations[0].kkt_initial;
  c.require(ref::Near(k0.r_dual, r.dual.norm(), 1e-9, 1e-12 * r.dual_scale) && ref::Near(k0.r_primal_eq, r.eq.norm(), 1e-9, 1e-12 * r.eq_scale) &&
                ref::Near(k0.r_primal_ineq, r.ineq.norm(), 1e-9, 1e-12 * r.ineq_scale) &&
                ref::Near(k0.r_comp, r.comp.norm(), 1e-6, 1e-7 * r.comp_scale),
            "the run did not start from the variables the user provided");
  CheckSchedule(c, m, p, h, first);
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C05";
  p.rule =
      "random QPs and parameters; the residuals logged for the first iteration and the state after it are compared with the guess the "
      "parameters prescribe (zero or equality-constrained minimizer, moved into the bounds, s*z = 1), and the barrier value of every "
      "iteration with the schedule. Non-trivial: inequalities present and the comparison sharp (guess), more than two iterations (schedule)";
  p.assumptions = {"multipliers of slacks below 1e-5 amplify rounding of the equality-constrained minimizer and are not compared"};
  p.facets = {
      {"guess", Guess, 300000, 12000000, 0.4},
      {"schedule", Schedule, 100000, 5000000, 0.2},
      {"user_start", UserStart, 120000, 5000000, 0.2},
  };
  return p;
}
