// build: nls plain
// C16: the damping parameter and the optimizer state follow the documented Levenberg-Marquardt schedule.
#include "nlsgen.hpp"

using namespace mini_opt;

namespace {

void Check(pbt::Case& c, const nls::Random& r) {
  const auto& p = r.p;
  double lambda = p.lambda_initial;
  OptimizerState state = OptimizerState::NOMINAL;
  bool raised = false, recovered = false, over = false;
  for (std::size_t k = 0; k < r.run.its.size(); ++k) {
    const nls::Iteration& it = r.run.its[k];
    const NLSIteration& i = *it.info;
    auto say = [&](const std::string& m) { return [&, m] { return m + ": " + nls::Fmt(it); }; };
    c.require(ref::Near(i.lambda, lambda, 1e-12, 0), say(pbt::str("the damping of the iteration should be ", lambda)));
    c.require(!over, say("the run continued with damping above the maximum"));
    c.require(i.lambda >= p.min_lambda * (1 - 1e-12) && i.lambda <= p.max_lambda * (1 + 1e-12), say("damping outside its limits"));
    switch (i.step_result) {
      case StepSizeSelectionResult::SUCCESS:
        if (state == OptimizerState::ATTEMPTING_RESTORE_LM) recovered = true;
        lambda = std::max(lambda * (state == OptimizerState::ATTEMPTING_RESTORE_LM ? p.lambda_decrease_on_restore : p.lambda_decrease_on_success), p.min_lambda);
        state = OptimizerState::NOMINAL;
        break;
      case StepSizeSelectionResult::MAX_ITERATIONS:
      case StepSizeSelectionResult::POSITIVE_DERIVATIVE:
        lambda = state == OptimizerState::NOMINAL ? std::max(p.lambda_failure_init, lambda * 10.0) : lambda * 10.0;
        if (state == OptimizerState::ATTEMPTING_RESTORE_LM) c.label("raised again");
        state = OptimizerState::ATTEMPTING_RESTORE_LM;
        raised = true;
        over = lambda > p.max_lambda * (1 + 1e-12);
        if (!over && lambda > p.max_lambda * (1 - 1e-12)) return;  // at the limit: rounding decides
        break;
      default: break;
    }
    c.require(i.optimizer_state == state, say(state == OptimizerState::NOMINAL ? "the state should be NOMINAL" : "the state should be ATTEMPTING_RESTORE_LM"));
  }
  c.require(over == (r.run.term() == NLSTerminationState::MAX_LAMBDA), [&] {
    return pbt::str("ended with ", nls::Name(r.run.term()), " although the damping is ", lambda, ", maximum ", p.max_lambda);
  });
  if (raised) c.label("raised");
  if (recovered) c.label("recovered");
  if (over) c.label("exceeded the maximum");
  if (raised || p.lambda_initial > 0) c.nontrivial();
}

// The damping acts as documented: it shortens steps. Without constraints the step for a larger damping is shorter.
void Shortens(pbt::Case& c) {
  nls::Opts o;
  o.equalities = o.bounds = false;
  nls::Spec spec = nls::Make(c.src, o);
  auto p = nls::NLSParams(c.src, 1);
  p.max_iterations = 1;
  p.max_lambda = 1e6;
  p.min_lambda = 0;
  p.lambda_initial = c.src.boolean() ? 0.0 : c.src.logreal(1e-4, 1e2);
  auto q = p;
  q.lambda_initial = p.lambda_initial + c.src.logreal(1e-2, 1e4);
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p), nls::Describe(os, q); });
  const Problem problem = spec.Build();
  nls::Recorder rec(&problem);
  const nls::Run a = rec.Solve(p, spec.x0), b = rec.Solve(q, spec.x0);
  if (a.threw || b.threw) c.discard("threw");
  const auto &ia = a.its.at(0), &ib = b.its.at(0);
  if (ia.dx.norm() < 1e-9 || !ia.dx.allFinite()) c.discard("no step");
  c.require(ib.dx.norm() <= ia.dx.norm() * (1 + 1e-9), [&] { return pbt::str("more damping made the step longer: ", nls::Fmt(ia), " / ", nls::Fmt(ib)); });
  // |dx| <= |J'r| / lambda
  const nls::Local l = nls::Linearize(spec, spec.x0);
  const double g = nls::D((l.J.transpose() * l.r).norm());
  c.require(ib.dx.norm() <= g / q.lambda_initial * (1 + 1e-9), [&] { return pbt::str("step of length ", ib.dx.norm(), " with damping ", q.lambda_initial, " and gradient ", g); });
  c.nontrivial();
}

void Run(pbt::Case& c, const nls::Profile p) { Check(c, nls::ProfileRun(c, p)); }

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C16";
  p.rule =
      "random nonlinear problems and parameters, with profiles in which searches fail and recover; the schedule is simulated from the logged "
      "search results and compared at every iteration. Non-trivial: damping was raised or started above zero";
  p.assumptions = {};
  using P = nls::Profile;
  p.facets = {
      {"any", [](Case& c) { Run(c, P::ANY); }, 150000, 10000000, 0.3},
      {"rough", [](Case& c) { Run(c, P::ROUGH); }, 100000, 6000000, 0.3},
      {"damped", [](Case& c) { Run(c, P::DAMPED); }, 150000, 8000000, 0.3},
      {"undefined", [](Case& c) { Run(c, P::UNDEFINED); }, 60000, 3000000, 0.3},
      {"deficient", [](Case& c) { Run(c, P::DEFICIENT); }, 60000, 3000000, 0.3},
      {"shortens", Shortens, 100000, 6000000, 0.2},
  };
  return p;
}
