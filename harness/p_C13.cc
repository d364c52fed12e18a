// build: nls plain
// C13: a step is taken only if it decreases the merit function sufficiently; otherwise the variables do not move.
#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::VectorXd;

namespace {

void Check(pbt::Case& c, const nls::Random& r) {
  int accepted = 0;
  for (std::size_t k = 0; k < r.run.its.size(); ++k) {
    const nls::Iteration& it = r.run.its[k];
    const NLSIteration& i = *it.info;
    c.label(nls::Name(i.step_result));
    const Errors before = nls::Evaluate(r.spec, it.x0), after = nls::Evaluate(r.spec, it.x1);
    if (i.step_result != StepSizeSelectionResult::SUCCESS) {
      c.require(ref::BitEqual(it.x0, it.x1), [&] { return "the variables moved to " + gen::Fmt(it.x1.transpose()) + " although no step was accepted: " + nls::Fmt(it); });
      continue;
    }
    if (!(i.penalty < 1e100)) c.discard("the penalty diverged");
    ++accepted;
    c.require(!it.trials.empty() && ref::BitEqual(it.x1, it.trials.back().x), [&] { return "the variables after the step are not the last trial point: " + nls::Fmt(it); });
    const double alpha = it.trials.back().alpha;
    const nls::Local l = nls::Linearize(r.spec, it.x0);
    // Directional derivative of the merit function from the problem itself.
    const nls::LVec dx = it.dx.cast<long double>();
    long double d = (l.J.transpose() * l.r).dot(dx), scale = (l.J.cwiseAbs().transpose() * l.r.cwiseAbs()).dot(dx.cwiseAbs());
    const nls::LVec Adx = l.A * dx, Aabs = l.A.cwiseAbs() * dx.cwiseAbs();
    for (Index j = 0; j < l.g.size(); ++j) {
      d += static_cast<long double>(i.penalty) * (l.g[j] > 0 ? Adx[j] : l.g[j] < 0 ? -Adx[j] : 0.0L);
      scale += static_cast<long double>(i.penalty) * Aabs[j];
    }
    const double m0 = before.Total(i.penalty), m1 = after.Total(i.penalty);
    const double err = 1e-13 * (m0 + m1) + 1e-12 * nls::D(scale);
    c.require(m1 <= m0 + 1e-4 * alpha * nls::D(d) + err, [&] {
      return pbt::str("accepted a step without sufficient decrease: merit ", m0, " -> ", m1, " with slope ", nls::D(d), " step ", alpha, ": ", nls::Fmt(it));
    });
    c.require(nls::D(d) <= 1e-12 * nls::D(scale), [&] { return pbt::str("accepted a step along an ascent direction (slope ", nls::D(d), "): ", nls::Fmt(it)); });
    if (r.spec.eqs.empty())
      c.require(after.f <= before.f * (1 + 1e-12), [&] { return pbt::str("cost increased from ", before.f, " to ", after.f, ": ", nls::Fmt(it)); });
    if (it.trials.size() > 1) c.label("accepted after shortening");
    if (!r.spec.eqs.empty() && after.f > before.f) c.label("cost traded for feasibility");
  }
  // Nothing moves between iterations, and the result is where the last one ended.
  c.require(ref::BitEqual(r.run.x, r.run.its.empty() ? r.run.x0 : r.run.its.back().x1), "variables() is not the point after the last iteration");
  const Errors e0 = nls::Evaluate(r.spec, r.run.x0), e1 = nls::Evaluate(r.spec, r.run.x);
  if (r.spec.eqs.empty()) c.require(e1.f <= e0.f * (1 + 1e-11), [&] { return pbt::str("the result costs ", e1.f, ", the start ", e0.f); });
  c.label(std::string("ends: ") + nls::Name(r.run.term()));
  if (accepted > 0) c.nontrivial();
}

void Run(pbt::Case& c, const nls::Profile p) { Check(c, nls::ProfileRun(c, p)); }

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C13";
  p.rule =
      "random nonlinear least squares problems (1-12 variables, linear, quadratic, sine, exponential terms, equalities, bounds) and random "
      "parameters; merit values and slopes recomputed from the problem at every iteration. Non-trivial: at least one step was accepted";
  p.assumptions = {"runs in which the inner solver refuses a factorization are discarded"};
  using P = nls::Profile;
  p.facets = {
      {"any", [](Case& c) { Run(c, P::ANY); }, 200000, 12000000, 0.3},
      {"rough", [](Case& c) { Run(c, P::ROUGH); }, 120000, 6000000, 0.3},
      {"undefined", [](Case& c) { Run(c, P::UNDEFINED); }, 60000, 3000000, 0.3},
      {"deficient", [](Case& c) { Run(c, P::DEFICIENT); }, 60000, 3000000, 0.3},
      {"damped", [](Case& c) { Run(c, P::DAMPED); }, 60000, 3000000, 0.3},
  };
  return p;
}
