// build: qp plain qp.cc structs.cc
// C04: every interior point iteration is the Newton step of the full perturbed KKT system (with Mehrotra's
// corrector where requested) scaled by the logged step lengths.
#include "ref.hpp"

using namespace mini_opt;
using Params = QPInteriorPointSolver::Params;
using ref::Index;

namespace {

// Compare one iteration st -> next. Returns true if the comparison was sharp.
bool CheckStep(pbt::Case& c, const ref::Model& m, const ref::State& st, const ref::State& next, const IPIterationOutputs& it,
               const BarrierStrategy strategy, const int iter) {
  const double slack = strategy == BarrierStrategy::PREDICTOR_CORRECTOR ? 1e4 : 4.0;
  double mu = m.M > 0 ? it.mu : 0.0;
  ref::VectorXd corr;
  if (strategy == BarrierStrategy::PREDICTOR_CORRECTOR && m.M > 0) {
    const ref::Step aff = ref::Newton(m, st, 0.0, {});
    if (!aff.ok || aff.cond > 1e12) return false;
    const double tight = std::max((aff.es.array() / st.s.array()).maxCoeff(), (aff.ez.array() / st.z.array()).maxCoeff());
    if (!(tight < 1e-9)) return false;
    const double ap = ref::AlphaStrict(st.s, aff.ds, 1.0), ad = ref::AlphaStrict(st.z, aff.dz, 1.0);
    c.require(ref::Near(ap, it.alpha_probe.primal, 1e-6, 1e-9) && ref::Near(ad, it.alpha_probe.dual, 1e-6, 1e-9), [&] {
      return pbt::str("probe step lengths (", it.alpha_probe.primal, ", ", it.alpha_probe.dual, ") of iteration ", iter, ", expected (", ap, ", ", ad, ")");
    });
    const double mu_c = st.mu();
    const double mu_aff = std::max(0.0, (st.s + ap * aff.ds).dot(st.z + ad * aff.dz) / static_cast<double>(m.M));
    const double sc = 1e-6 * mu_c + 1e-6 * (st.s.cwiseAbs() + aff.ds.cwiseAbs()).dot(st.z.cwiseAbs() + aff.dz.cwiseAbs()) / static_cast<double>(m.M) * 1e-3;
    c.require(ref::Near(mu_aff, it.mu_affine, 1e-6, sc),
              [&] { return pbt::str("complementarity after the affine step logged as ", it.mu_affine, " at iteration ", iter, ", expected ", mu_aff); });
    const double r = it.mu_affine / mu_c;
    c.require(ref::Near(it.mu, r * r * r * mu_c, 1e-9, 1e-300),
              [&] { return pbt::str("barrier ", it.mu, " at iteration ", iter, ", expected (mu_affine/mu)^3 * mu = ", r * r * r * mu_c); });
    corr = aff.ds.cwiseProduct(aff.dz);
    mu = it.mu;
    c.label("predictor-corrector step");
  } else {
    c.require(std::isnan(it.mu_affine) && std::isnan(it.alpha_probe.primal) && std::isnan(it.alpha_probe.dual),
              "affine probe values logged although no probe was made");
  }
  const ref::Step d = ref::Newton(m, st, mu, corr);
  if (!d.ok || d.cond > 1e12) return false;
  auto cmp = [&](const char* name, const ref::VectorXd& v0, const ref::VectorXd& v1, const ref::VectorXd& dv, const ref::VectorXd& e, double alpha,
                 double extra) {
    bool sharp = true;
    for (Index i = 0; i < v0.size(); ++i) {
      const double want = v0[i] + alpha * dv[i];
      const double tol = slack * alpha * e[i] + extra * alpha * std::abs(dv[i]) + 1e-15 * (std::abs(v0[i]) + std::abs(want));
      const double size = std::max(alpha * std::abs(dv[i]), 1e-8 * std::abs(v0[i]));
      if (tol > 1e-3 * size) sharp = false;
      c.require(std::abs(v1[i] - want) <= tol, [&] {
        return pbt::str(name, "[", i, "] is ", v1[i], " after iteration ", iter, "; the Newton step from ", v0[i], " with step length ", alpha,
                        " gives ", want, " (tolerance ", tol, ")");
      });
    }
    return sharp;
  };
  const double ex = strategy == BarrierStrategy::PREDICTOR_CORRECTOR ? 1e-7 : 1e-12;
  bool sharp = cmp("x", st.x, next.x, d.dx, d.ex, it.alpha.primal, ex);
  sharp = cmp("s", st.s, next.s, d.ds, d.es, it.alpha.primal, ex) && sharp;
  sharp = cmp("y", st.y, next.y, d.dy, d.ey, it.alpha.dual, ex) && sharp;
  sharp = cmp("z", st.z, next.z, d.dz, d.ez, it.alpha.dual, ex) && sharp;
  if (sharp) {
    // The step length is the longest allowed one (either reading of the rule at its boundary).
    auto ok_alpha = [&](const ref::VectorXd& v, const ref::VectorXd& dv, const ref::VectorXd& e, double alpha) {
      const ref::VectorXd t = slack * e + ex * dv.cwiseAbs() + 1e-13 * v;
      const double f = 1e-9;
      return (alpha >= ref::AlphaStrict(v, dv - t, 0.995) * (1 - f) && alpha <= ref::AlphaStrict(v, dv + t, 0.995) * (1 + f)) ||
             (alpha >= ref::AlphaCode(v, dv - t, 0.995) * (1 - f) && alpha <= ref::AlphaCode(v, dv + t, 0.995) * (1 + f));
    };
    c.require(ok_alpha(st.s, d.ds, d.es, it.alpha.primal), [&] {
      return pbt::str("primal step length ", it.alpha.primal, " at iteration ", iter, ", expected ", ref::AlphaCode(st.s, d.ds, 0.995));
    });
    c.require(ok_alpha(st.z, d.dz, d.ez, it.alpha.dual), [&] {
      return pbt::str("dual step length ", it.alpha.dual, " at iteration ", iter, ", expected ", ref::AlphaCode(st.z, d.dz, 0.995));
    });
  }
  return sharp;
}

void OneStep(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 7;
  o.n_large = 22;
  gen::QPCase q = gen::MakeQP(c.src, o);
  Params p = gen::QPParams(c.src, 1);
  p.max_iterations = 1;
  p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
  const int N = q.N(), M = q.M(), K = q.K();
  ref::VectorXd v(N + 2 * M + K);
  v.head(N) = gen::Vec(c.src, N, -4, 4);
  const double range = c.src.chance(1, 3) ? 1e3 : 5.0;
  for (int i = 0; i < M; ++i) v[N + i] = c.src.logreal(1 / range, range);
  for (int i = 0; i < K; ++i) v[N + M + i] = c.src.real(-5, 5);
  for (int i = 0; i < M; ++i) v[N + M + K + i] = c.src.logreal(1 / range, range);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p), os << "start " << gen::Fmt(v.transpose()) << "\n"; });
  const ref::History h = ref::Run(q.qp, p, v);
  if (h.threw) c.discard(ref::Why(h));
  const ref::State st{v.head(N), v.segment(N, M), v.segment(N + M, K), v.tail(M)};
  const bool sharp = CheckStep(c, ref::Model(q.qp), st, h.states[0], h.out.iterations[0].ip_outputs, p.barrier_strategy, 0);
  if (M > 0) {
    const double want = p.initialize_mu_with_complementarity ? st.mu() : p.initial_mu;
    if (p.barrier_strategy != BarrierStrategy::PREDICTOR_CORRECTOR)
      c.require(ref::Near(h.out.iterations[0].ip_outputs.mu, want, 1e-12, 0),
                [&] { return pbt::str("first barrier value ", h.out.iterations[0].ip_outputs.mu, " expected ", want); });
  }
  if (sharp) c.nontrivial();
  c.label(sharp ? "sharp comparison" : "ill-conditioned");
  if (K > 0 && M > 0) c.label("equalities and inequalities");
}

void Histories(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 5;
  o.n_large = 14;
  o.need_inequality = c.src.chance(9, 10);
  o.known_optimum = c.src.chance(1, 4);
  gen::QPCase q = gen::MakeQP(c.src, o);
  Params p = gen::QPParams(c.src, 15);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  const ref::History h = ref::Run(q.qp, p);
  if (h.threw) c.discard(ref::Why(h));
  const ref::Model m(q.qp);
  int sharp = 0;
  for (std::size_t k = 1; k < h.states.size(); ++k) {
    sharp += CheckStep(c, m, h.states[k - 1], h.states[k], h.out.iterations[k].ip_outputs, p.barrier_strategy, static_cast<int>(k));
  }
  if (sharp >= 1) c.nontrivial();
  c.label(sharp >= 5 ? "5+ sharp steps" : sharp >= 1 ? "1-4 sharp steps" : "no sharp step");
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C04";
  p.rule =
      "random QPs; single iterations from user supplied interior points and complete runs; every step is compared with the Newton step of "
      "the unreduced KKT system solved in extended precision, within a componentwise bound for the conditioning. Non-trivial: at least one "
      "comparison whose tolerance is below 0.1% of the step";
  p.assumptions = {"the tolerance follows the condition number of the symmetrically scaled system; ill-conditioned late iterations are compared loosely"};
  p.facets = {
      {"one_step", OneStep, 800000, 30000000, 0.2},
      {"histories", Histories, 200000, 8000000, 0.3},
  };
  return p;
}
