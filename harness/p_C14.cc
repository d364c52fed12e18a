// build: nls plain
// C14: the line search tries the step lengths its strategy prescribes, stops at the first acceptable one and reports why it stopped.
#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using LD = long double;

namespace {

struct Range {
  bool value{false};    // a value can exist
  bool none{false};     // the interpolation can have no minimum
  double lo{0}, hi{0};  // range of the value, including rounding
};

Range Quadratic(LD phi0, LD d, LD derr, LD a0, LD phi_a) {
  Range r;
  const LD num = phi_a - d * a0 - phi0;
  const LD err = 1e-15L * (std::abs(phi_a) + std::abs(d * a0) + std::abs(phi0)) + derr * a0;
  const LD dlo = std::max(0.0L, -d - derr), dhi = -d + derr;
  r.none = num - err <= 0;
  r.value = num + err > 0;
  if (!r.value) return r;
  r.lo = static_cast<double>(dlo * a0 * a0 / (2 * (num + err)) * (1 - 1e-12L));
  r.hi = num - err > 0 ? static_cast<double>(dhi * a0 * a0 / (2 * (num - err)) * (1 + 1e-12L)) : std::numeric_limits<double>::infinity();
  return r;
}

Range Cubic(LD phi0, LD d, LD derr, LD a0, LD f0, LD a1, LD f1) {
  Range r;
  const LD r0 = f0 - phi0 - d * a0, r1 = f1 - phi0 - d * a1;
  const LD e0 = 2e-15L * (std::abs(f0) + std::abs(phi0) + std::abs(d * a0)) + derr * a0, e1 = 2e-15L * (std::abs(f1) + std::abs(phi0) + std::abs(d * a1)) + derr * a1;
  const LD det = a0 * a0 * a1 * a1 * (a0 - a1);
  const LD a = (a1 * a1 * r0 - a0 * a0 * r1) / det, b = (-a1 * a1 * a1 * r0 + a0 * a0 * a0 * r1) / det;
  const LD q = 1e-14L * (a0 / (a0 - a1));  // the coefficient matrix itself is rounded
  const LD ea = (a1 * a1 * (e0 + q * std::abs(r0)) + a0 * a0 * (e1 + q * std::abs(r1))) / std::abs(det);
  const LD eb = (a1 * a1 * a1 * (e0 + q * std::abs(r0)) + a0 * a0 * a0 * (e1 + q * std::abs(r1))) / std::abs(det);
  r.lo = 1e300;
  r.hi = -1e300;
  const LD sq_err = 1e-15L * (b * b + 3 * std::abs(a * d)) + 2e-12L * (b * b - 3 * a * d < 0) + 3 * std::abs(a) * derr;
  bool wide = std::abs(a) <= ea;
  for (int i = -1; i <= 1; ++i)
    for (int j = -1; j <= 1; ++j)
      for (int k = -1; k <= 1; ++k) {
        const LD A = a + i * ea, B = b + j * eb;
        LD arg = B * B - 3 * A * d + k * sq_err;
        if (arg < -1e-12L * (1 - 1e-6L)) r.none = true;
        if (arg < -1e-12L * (1 + 1e-6L)) continue;
        if (A == 0) {
          r.none = true;
          continue;
        }
        arg = std::max(arg, 0.0L);
        const LD x = (-B + std::sqrt(arg)) / (3 * A);
        const LD ex = 4e-15L * (std::abs(B) + std::sqrt(arg)) / std::abs(3 * A) + 1e-12L * std::abs(x);
        r.value = true;
        r.lo = std::min(r.lo, static_cast<double>(x - ex));
        r.hi = std::max(r.hi, static_cast<double>(x + ex));
      }
  if (wide) {
    r.none = r.value = true;
    r.lo = -std::numeric_limits<double>::infinity();
    r.hi = std::numeric_limits<double>::infinity();
  }
  return r;
}

bool Finite(const Errors& e) { return std::isfinite(e.f) && std::isfinite(e.equality); }

void Check(pbt::Case& c, const nls::Random& r) {
  const auto& p = r.p;
  for (const nls::Iteration& it : r.run.its) {
    const NLSIteration& i = *it.info;
    const auto& st = i.line_search_steps;
    const double pen = i.penalty;
    auto say = [&](const std::string& m) { return [&, m] { return m + ": " + nls::Fmt(it); }; };
    if (!(pen < 1e100)) {
      c.label("diverged multipliers");  // the bounds contradict the linearized equalities: there is no step to judge
      return;
    }
    c.label(nls::Name(i.step_result));
    c.require(!st.empty() && st.size() == it.trials.size(), say("the log does not list every trial"));
    c.require(static_cast<int>(st.size()) <= p.max_line_search_iterations + 1, say("more trials than allowed"));
    c.require(st[0].alpha == 1.0, say("the full step must be tried first"));
    const LD phi0 = static_cast<LD>(i.errors_initial.f) + static_cast<LD>(pen) * i.errors_initial.equality;
    const LD d = static_cast<LD>(i.directional_derivatives.d_f) + static_cast<LD>(pen) * i.directional_derivatives.d_equality;
    const double dabs = std::abs(i.directional_derivatives.d_f) + pen * std::abs(i.directional_derivatives.d_equality);
    auto merit = [&](std::size_t k) { return static_cast<LD>(st[k].errors.f) + static_cast<LD>(pen) * st[k].errors.equality; };
    auto merit_err = [&](std::size_t k) { return 1e-15L * (phi0 + merit(k) + static_cast<LD>(dabs)); };
    auto armijo = [&](std::size_t k) { return merit(k) - (phi0 + d * static_cast<LD>(st[k].alpha) * 1e-4L); };  // <= 0 accepts
    // Prescribed step length number k (k >= 1).
    // Whether an interpolation over the first k trials cannot overflow.
    auto moderate = [&](std::size_t k) {
      bool ok = phi0 + static_cast<LD>(dabs) < 1e100L;
      for (std::size_t j = 0; j < k; ++j) ok = ok && merit(j) < 1e100L && st[j].alpha > 1e-30;
      return ok;
    };
    auto next = [&](std::size_t k) -> Range {
      if (p.line_search_strategy == LineSearchStrategy::ARMIJO_BACKTRACK) {
        const double a = st[k - 1].alpha * p.armijo_search_tau;
        return {true, false, a * (1 - 1e-14), a * (1 + 1e-14)};
      }
      if (k == 1) return Quadratic(phi0, d, 1e-15L * static_cast<LD>(dabs), st[0].alpha, merit(0));
      return Cubic(phi0, d, 1e-15L * static_cast<LD>(dabs), st[k - 2].alpha, merit(k - 2), st[k - 1].alpha, merit(k - 1));
    };
    for (std::size_t k = 0; k < st.size(); ++k) {
      c.require(st[k].alpha == it.trials[k].alpha, say("a trial was made with another step length than logged"));
      const Errors e = nls::Evaluate(r.spec, it.trials[k].x);
      c.require(Finite(e) == Finite(st[k].errors) && (!Finite(e) || (ref::Near(e.f, st[k].errors.f, 1e-12, 1e-300) && ref::Near(e.equality, st[k].errors.equality, 1e-12, 1e-300))),
                say(pbt::str("errors of trial ", k, " are (", e.f, ", ", e.equality, ")")));
      if (k > 0) {
        const Range want = next(k);
        c.require(st[k].alpha > 0 && st[k].alpha < st[k - 1].alpha, say("step lengths must decrease and stay positive"));
        c.require(!moderate(k) || (want.value && st[k].alpha >= want.lo && st[k].alpha <= want.hi),
                  say(pbt::str("trial ", k, " should use a step length in [", want.lo, ", ", want.hi, "]")));
        if (want.hi - want.lo < 1e-3 * std::abs(want.lo)) c.label(k == 1 ? "second trial compared" : "later trial compared");
      }
      const bool last = k + 1 == st.size();
      if (!last) {
        c.require(Finite(st[k].errors), say("the search went on after a trial with non-finite cost"));
        c.require(armijo(k) > -merit_err(k), say("the search went on although a trial was acceptable"));
      }
    }
    const std::size_t n = st.size() - 1;
    const bool fin = Finite(st[n].errors);
    c.require(fin == (i.step_result != StepSizeSelectionResult::FAILURE_NON_FINITE_COST), say("FAILURE_NON_FINITE_COST must be reported exactly when the last trial is not finite"));
    if (!fin) continue;
    const bool stationary = i.directional_derivatives.LInfinity() < p.absolute_first_derivative_tol;
    c.require(stationary == (i.step_result == StepSizeSelectionResult::FIRST_ORDER_SATISFIED), say("FIRST_ORDER_SATISFIED must be reported exactly when both derivatives are below the tolerance"));
    if (stationary) {
      c.require(st.size() == 1, say("more than one trial at a stationary point"));
      continue;
    }
    const LD derr = 1e-15L * static_cast<LD>(dabs);
    if (i.step_result == StepSizeSelectionResult::POSITIVE_DERIVATIVE) {
      c.require(d > -derr && st.size() == 1, say("POSITIVE_DERIVATIVE although the slope is not positive"));
      continue;
    }
    c.require(d <= derr, say("the slope is positive but that was not reported"));
    switch (i.step_result) {
      case StepSizeSelectionResult::SUCCESS:
        c.require(armijo(n) <= merit_err(n), say("SUCCESS although the last trial is not acceptable"));
        break;
      case StepSizeSelectionResult::MAX_ITERATIONS:
        c.require(static_cast<int>(st.size()) == p.max_line_search_iterations + 1, say("MAX_ITERATIONS before the allowed number of trials"));
        c.require(armijo(n) > -merit_err(n), say("MAX_ITERATIONS although the last trial was acceptable"));
        break;
      case StepSizeSelectionResult::FAILURE_INVALID_ALPHA: {
        c.require(p.line_search_strategy == LineSearchStrategy::POLYNOMIAL_APPROXIMATION && static_cast<int>(st.size()) <= p.max_line_search_iterations,
                  say("FAILURE_INVALID_ALPHA without an interpolation to make"));
        c.require(armijo(n) > -merit_err(n), say("FAILURE_INVALID_ALPHA although the last trial was acceptable"));
        if (!moderate(st.size())) break;
        const Range want = next(st.size());
        c.require(want.none || want.lo <= 0 || want.hi >= st[n].alpha || !std::isfinite(want.hi),
                  say(pbt::str("FAILURE_INVALID_ALPHA although the next step length is valid, in [", want.lo, ", ", want.hi, "]")));
        break;
      }
      default: c.fail("unexpected result " + nls::Fmt(it));
    }
    if (st.size() > 1) c.nontrivial();
    if (st.size() > 2) c.label(p.line_search_strategy == LineSearchStrategy::ARMIJO_BACKTRACK ? "3+ trials, backtracking" : "3+ trials, polynomial");
  }
}

void Run(pbt::Case& c, const nls::Profile p) { Check(c, nls::ProfileRun(c, p)); }

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C14";
  p.rule =
      "random nonlinear problems and parameters; every trial point is recorded through the retraction hook, its cost recomputed, and its step "
      "length compared with the backtracking factor or the minimum of the quadratic/cubic interpolation, computed in long double with error "
      "ranges. Non-trivial: a search of more than one trial took place";
  p.assumptions = {"interpolations whose coefficients are dominated by rounding only have to give a decreasing positive step"};
  using P = nls::Profile;
  p.facets = {
      {"any", [](Case& c) { Run(c, P::ANY); }, 200000, 10000000, 0.3},
      {"rough", [](Case& c) { Run(c, P::ROUGH); }, 200000, 8000000, 0.3},
      {"undefined", [](Case& c) { Run(c, P::UNDEFINED); }, 80000, 3000000, 0.3},
      {"deficient", [](Case& c) { Run(c, P::DEFICIENT); }, 60000, 3000000, 0.3},
  };
  return p;
}
