// build: qp plain qp.cc structs.cc
// C03: the interior point iterates stay strictly inside the bounds, and steps obey the fraction-to-boundary rule.
#include "ref.hpp"

using namespace mini_opt;
using Params = QPInteriorPointSolver::Params;
using ref::Index;

namespace {

constexpr double kTau = 0.995;

void CheckBlock(pbt::Case& c, const char* name, const ref::VectorXd& v0, const ref::VectorXd& v1, const double alpha, const int iter) {
  c.require(alpha > 0 && alpha <= 1, [&] { return pbt::str("step length ", alpha, " outside (0, 1] for ", name, " at iteration ", iter); });
  double min_ratio = 1e300;
  double smallest = 1e300;
  for (Index i = 0; i < v0.size(); ++i) {
    if (v0[i] < 1e-290) return;  // about to underflow
    c.require(v1[i] > 0 && std::isfinite(v1[i]),
              [&] { return pbt::str(name, "[", i, "] leaves the interior at iteration ", iter, ": ", v0[i], " -> ", v1[i]); });
    const double ratio = v1[i] / v0[i];
    min_ratio = std::min(min_ratio, ratio);
    smallest = std::min(smallest, v1[i]);
    if (ratio < (1 - kTau) * (1 - 1e-6)) {
      // The recorded finding: the whole step would leave the element positive, so the rule is not applied to
      // it. An element that the whole step would drive to zero or below must always obey the rule.
      const double full = 1 + (ratio - 1) / alpha;
      c.require(full > -1e-9, [&] {
        return pbt::str(name, "[", i, "] goes from ", v0[i], " to ", v1[i], " at iteration ", iter, ", less than 0.005 of its value (step length ", alpha, ")");
      });
      c.known_defect("fraction-to-boundary", pbt::str(name, "[", i, "] goes from ", v0[i], " to ", v1[i], " at iteration ", iter,
                                                      ", less than 0.005 of its value (step length ", alpha, ")"));
    }
  }
  // A shortened step is shortened by exactly as much as the blocking element asks for.
  if (alpha < 1 && v0.size() > 0 && smallest > 1e-280) {
    c.require(min_ratio <= (1 - kTau) * (1 + 1e-5), [&] {
      return pbt::str("step length ", alpha, " of ", name, " at iteration ", iter, " is shorter than any element requires (closest keeps ", min_ratio,
                      " of its value)");
    });
    c.label("shortened step");
  }
}

void CheckHistory(pbt::Case& c, const ref::History& h, const std::optional<ref::State>& start) {
  for (std::size_t k = 0; k < h.states.size(); ++k) {
    const ref::State& st = h.states[k];
    const auto& it = h.out.iterations[k].ip_outputs;
    const ref::State* prev = k > 0 ? &h.states[k - 1] : start ? &*start : nullptr;
    if (prev) {
      // The mean complementarity is about to underflow to zero, or diverging multipliers are about to overflow:
      // nothing computed from them means anything afterwards.
      if (((prev->s.array() * prev->z.array()) < 1e-290).any() || std::max(prev->z.sum(), prev->y.lpNorm<1>()) > 1e140 || prev->s.sum() > 1e140) {
        c.label("stopped at the limit of the number range");
        return;
      }
      CheckBlock(c, "slack", prev->s, st.s, it.alpha.primal, static_cast<int>(k));
      CheckBlock(c, "multiplier", prev->z, st.z, it.alpha.dual, static_cast<int>(k));
    } else {
      c.require((st.s.array() > 0).all() && (st.z.array() > 0).all(), [&] { return "first iterate not in the interior: " + ref::Fmt(st); });
    }
    if (st.s.size() == 0) {
      c.require(it.alpha.primal == 1.0 && it.alpha.dual == 1.0, "without inequalities the full step must be taken");
    }
  }
}

void Histories(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 24;
  o.need_inequality = c.src.chance(9, 10);
  o.known_optimum = c.src.chance(1, 4);
  // Equality constrained problems without an interior can end in a refused factorization.
  o.equalities = c.src.chance(1, 2) && !o.known_optimum;
  const gen::QPCase q = gen::MakeQP(c.src, o);
  const Params p = gen::QPParams(c.src, 40);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  const ref::History h = ref::Run(q.qp, p);
  if (h.threw) c.discard(ref::Why(h));
  CheckHistory(c, h, std::nullopt);
  if (h.states.size() > 2) c.nontrivial();
}

ref::VectorXd RandomStart(pbt::Source& s, const gen::QPCase& q, const double lo, const double hi) {
  const int N = q.N(), M = q.M(), K = q.K();
  ref::VectorXd v(N + 2 * M + K);
  v.head(N) = gen::Vec(s, N, -4, 4);
  for (int i = 0; i < M; ++i) v[N + i] = s.chance(1, 3) ? 1.0 : s.logreal(lo, hi);
  for (int i = 0; i < K; ++i) v[N + M + i] = s.real(-5, 5);
  for (int i = 0; i < M; ++i) v[N + M + K + i] = s.chance(1, 3) ? 1.0 : s.logreal(lo, hi);
  return v;
}

void FromUserStart(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 16;
  o.need_inequality = true;
  o.equalities = c.src.chance(1, 3);
  const gen::QPCase q = gen::MakeQP(c.src, o);
  Params p = gen::QPParams(c.src, 8);
  p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
  const ref::VectorXd v = RandomStart(c.src, q, 1e-4, 1e4);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p), os << "start " << gen::Fmt(v.transpose()) << "\n"; });
  const ref::History h = ref::Run(q.qp, p, v);
  if (h.threw) c.discard(ref::Why(h));
  const int N = q.N(), M = q.M(), K = q.K();
  CheckHistory(c, h, ref::State{v.head(N), v.segment(N, M), v.segment(N + M, K), v.tail(M)});
  c.nontrivial();
}

// One variable, one bound, started so that the full Newton step keeps a chosen fraction of the slack. For a
// fraction between 0 and 0.005 this is the recorded finding; for any other the rule must hold.
void ChosenFraction(pbt::Case& c) {
  QP qp(1);
  const double g = c.src.mag(0.5, 4.0);
  qp.G(0, 0) = g;
  const double mu = 1.0, s = c.src.mag(0.5, 2.0), z = c.src.mag(0.5, 2.0);
  const double keep = c.src.chance(1, 3) ? 0.002 : c.src.real(-0.5, 1.0);  // fraction of s left by the full step
  const double ds = (keep - 1.0) * s;
  // (g + z/s) ds = -(g x + c - z) - (s z - mu) / s with x = s
  qp.c[0] = -(g + z / s) * ds - (s * z - mu) / s + z - g * s;
  qp.constraints.push_back(Var(0) >= 0);
  Params p{};
  p.initial_mu = mu;
  p.max_iterations = 1;
  p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
  ref::VectorXd v(3);
  v << s, s, z;
  c.describe([&](auto& os) {
    gen::Describe(os, qp);
    os << "start (x, s, z) = " << gen::Fmt(v.transpose()) << ", the full step keeps " << keep << " of the slack\n";
  });
  const ref::History h = ref::Run(qp, p, v);
  if (h.threw) c.fail("solver threw: " + h.what);
  CheckHistory(c, h, ref::State{v.head(1), v.segment(1, 1), ref::VectorXd(0), v.tail(1)});
  if (keep >= 0.0051) c.require(h.out.iterations[0].ip_outputs.alpha.primal == 1.0, "a full step that stays clear of the bound was shortened");
  if (keep < -1e-9) {
    const double want = 0.995 / (1.0 - keep);
    c.require(ref::Near(h.out.iterations[0].ip_outputs.alpha.primal, want, 1e-9, 0), [&] {
      return pbt::str("step length ", h.out.iterations[0].ip_outputs.alpha.primal, " expected ", want);
    });
    c.label("blocked by the bound");
  }
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C03";
  p.rule =
      "random QPs and parameters; the state after every iteration is recorded and every slack and multiplier compared with its previous "
      "value and the logged step lengths; user supplied starts over eight orders of magnitude; one-variable problems whose full step keeps a "
      "chosen fraction of the slack. Non-trivial: more than two iterations, or a user supplied start";
  p.assumptions = {"started from the built-in guesses or from strictly positive slacks and multipliers"};
  p.facets = {
      {"histories", Histories, 40000, 3000000, 0.3},
      {"user_start", FromUserStart, 60000, 4000000, 0.3},
      {"chosen_fraction", ChosenFraction, 40000, 400000, 0.0},
  };
  return p;
}
