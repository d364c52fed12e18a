// build: nls plain
// C28: user functions are evaluated only at the current variables and at trial points, and no more often than necessary.
#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::VectorXd;
using Params = ConstrainedNonlinearLeastSquares::Params;

namespace {

struct Watch : nls::Probe {
  const nls::Spec& spec;
  std::vector<const nls::Term*> terms;
  VectorXd current, trial;
  bool have_trial{false};
  std::vector<int> with, without;  // calls per term since the last iteration / trial
  int trials{0}, ops{0};
  bool derivative_seen{false};
  std::string error;
  explicit Watch(const nls::Spec& s) : spec(s) {
    for (const auto& t : s.costs) terms.push_back(&t);
    for (const auto& t : s.eqs) terms.push_back(&t);
    with.assign(terms.size(), 0);
    without = with;
  }
  void Error(const std::string& e) {
    if (error.empty()) error = e;
  }
  bool At(const nls::Term& t, const VectorXd& p, const VectorXd& x) const {
    if (p.size() != static_cast<Index>(t.idx.size())) return false;
    for (std::size_t i = 0; i < t.idx.size(); ++i)
      if (!nls::Same(p[static_cast<Index>(i)], x[t.idx[i]])) return false;
    return true;
  }
  void call(int id, const VectorXd& p, bool jacobian) override {
    const auto k = static_cast<std::size_t>(id);
    const nls::Term& t = *terms[k];
    if (jacobian) {
      derivative_seen = true;
      if (!At(t, p, current)) return Error(pbt::str("function ", id, " was differentiated at ", gen::Fmt(p.transpose()), ", not at the current variables ", gen::Fmt(current.transpose())));
      if (++with[k] > 1) Error(pbt::str("function ", id, " was differentiated twice in one iteration"));
    } else if (have_trial && At(t, p, trial)) {
      if (++without[k] > 1) Error(pbt::str("function ", id, " was evaluated twice for one trial"));
    } else {
      Error(pbt::str("function ", id, " was evaluated at ", gen::Fmt(p.transpose()), ", which is not the last trial", have_trial ? "" : ": there is none yet in this iteration"));
    }
  }
  // Everything that is needed has been evaluated when the next step begins.
  void Complete() {
    for (std::size_t k = 0; k < terms.size(); ++k) {
      if (with[k] != 1) Error(pbt::str("function ", k, " was differentiated ", with[k], " times in an iteration"));
      if (have_trial && without[k] != 1) Error(pbt::str("function ", k, " was evaluated ", without[k], " times for a trial"));
    }
  }
  void NextTrial(const VectorXd& x) {
    Complete();
    trial = x;
    have_trial = true;
    ++trials;
    without.assign(terms.size(), 0);
  }
  void NextIteration(const VectorXd& x) {
    current = x;
    have_trial = false;
    trials = 0;
    with.assign(terms.size(), 0);
    without = with;
  }
};

void Run(pbt::Case& c, const nls::Opts& o, const int iters, const bool long_search) {
  const nls::Spec spec = nls::Make(c.src, o);
  Params p = nls::NLSParams(c.src, iters);
  if (long_search) p.max_line_search_iterations = c.src.integer(2, 12), p.max_lambda = std::max(p.max_lambda, 1e3);
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p); });
  if (!nls::FiniteAt(spec, spec.x0)) c.discard("cost not finite at the start");
  const Problem problem = spec.Build();
  Watch w(spec);
  bool many = false;
  ConstrainedNonlinearLeastSquares s(&problem, [&](VectorXd& x, ConstVectorBlock dx, double alpha) {
    x += dx * alpha;
    ++w.ops;
    w.NextTrial(x);
  });
  s.SetUserExitCallback([&](const NLSIteration& it) {
    if (w.trials != static_cast<int>(it.line_search_steps.size())) w.Error(pbt::str("the operator was called ", w.trials, " times in an iteration with ", it.line_search_steps.size(), " trials"));
    many |= w.trials > 1;
    w.Complete();
    w.NextIteration(s.variables());
    return true;
  });
  w.NextIteration(spec.x0);
  std::optional<NLSSolverOutputs> out;
  nls::probe = &w;
  try {
    out.emplace(s.Solve(p, spec.x0));
  } catch (const std::exception&) {
  }
  nls::probe = nullptr;
  c.require(w.error.empty(), [&] { return w.error; });
  if (!out) c.discard("threw");
  c.require(w.derivative_seen, "a run that never linearizes");
  // after the last iteration nothing is evaluated any more (an indefinite sub-problem needs its linearization)
  if (out->termination_state != NLSTerminationState::QP_INDEFINITE)
    for (int k : w.with) c.require(k == 0, "functions were differentiated again after the last iteration");
  if (many) c.label("several trials");
  if (out->iterations.size() > 1) c.nontrivial();
}

void Any(pbt::Case& c) {
  nls::Opts o;
  o.nonlinear = c.src.chance(1, 4) ? 3.0 : 1.0;
  Run(c, o, 10, false);
}
void Rough(pbt::Case& c) {
  nls::Opts o;
  o.nonlinear = 8.0;
  o.eq_nonlinear = 2.0;
  o.undefined = c.src.chance(1, 3);
  Run(c, o, 20, true);
}

// Only evaluating: each function once, at that point.
void Evaluate(pbt::Case& c) {
  nls::Opts o;
  o.undefined = c.src.chance(1, 3);
  const nls::Spec spec = nls::Make(c.src, o);
  c.describe([&](auto& os) { nls::Describe(os, spec); });
  const Problem problem = spec.Build();
  ConstrainedNonlinearLeastSquares s(&problem);
  Watch w(spec);
  const VectorXd x = spec.x0 + gen::Vec(c.src, spec.n, -2, 2);
  w.NextIteration(spec.x0);
  w.trial = x;
  w.have_trial = true;
  nls::probe = &w;
  (void)s.EvaluateNonlinearErrors(x);
  nls::probe = nullptr;
  c.require(w.error.empty(), [&] { return w.error; });
  c.require(!w.derivative_seen, "evaluating the errors asked for derivatives");
  for (int k : w.without) c.require(k == 1, "a function was left out");
  if (w.terms.size() > 1) c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C28";
  p.rule =
      "random problems whose functions record every call; each call must be at the variables of the current iterate (derivatives: once per iteration) or "
      "of the last trial (once per trial), every function each time, bit for bit and in the order of the listed indices. Non-trivial: more than one iteration, more than one function";
  p.assumptions = {};
  p.facets = {
      {"any", Any, 150000, 6000000, 0.3},
      {"rough", Rough, 150000, 6000000, 0.5},
      {"evaluate", Evaluate, 100000, 4000000},
  };
  return p;
}
