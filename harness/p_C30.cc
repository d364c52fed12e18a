// build: nls asan
// C30: no valid use accesses invalid memory or has undefined behaviour (address and undefined behaviour sanitizers,
// Eigen's and the standard library's assertions).
#include "p_C30.hpp"

namespace {

using namespace c30;

void QPs(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 20;
  const gen::QPCase q = gen::MakeQP(c.src, o);
  QPInteriorPointSolver::Params p = gen::QPParams(c.src, 8);
  const bool user = p.initial_guess_method == InitialGuessMethod::USER_PROVIDED || c.src.chance(1, 6);
  if (user) p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  const std::string r = QPRuns(c, q, p, user);
  c.require(!r.empty(), "no result");
  if (q.M() > 0 || q.K() > 0) c.nontrivial();
}

void NLS(pbt::Case& c) {
  const NLSInput in = MakeNLS(c);
  const std::string r = NLSRuns(in.spec, in.p, in.color, in.verbose);
  c.require(!r.empty(), "no result");
  c.nontrivial();
}

// Costs and bounds of the problem change between solves.
void Changed(pbt::Case& c) {
  NLSInput in = MakeNLS(c);
  Problem problem = in.spec.Build();
  ConstrainedNonlinearLeastSquares s(&problem);
  const int n = c.src.integer(1, 3);
  in.p.max_iterations = std::min(in.p.max_iterations, 3);
  bool changed = false;
  for (int k = 0; k <= n; ++k) {
    try {
      (void)s.Solve(in.p, in.spec.x0);
      (void)s.EvaluateNonlinearErrors(in.spec.anchor);
    } catch (const std::exception&) {
    }
    const std::string done = nls::Edit(c.src, &in.spec, &problem);
    c.describe([&](auto& os) { os << done << "\n"; });
    if (!done.empty() && k < n) changed = true;
  }
  c.require(s.variables().size() == in.spec.n, "the variables have the wrong size");
  if (changed) c.nontrivial();
}

// One solver object over problems of changing sizes, and solvers copied and moved.
void Reuse(pbt::Case& c) {
  QPInteriorPointSolver s;
  QPNullSpaceSolver ns;
  std::vector<gen::QPCase> qs;
  const int n = c.src.integer(2, 4);
  for (int i = 0; i < n; ++i) {
    gen::QPOpts o;
    o.n_usual = 4;
    o.n_large = 12;
    qs.push_back(gen::MakeQP(c.src, o));
  }
  QPInteriorPointSolver::Params p = gen::QPParams(c.src, 4);
  p.initial_guess_method = c.src.boolean() ? InitialGuessMethod::NAIVE : InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED;
  c.describe([&](auto& os) { for (auto& q : qs) gen::Describe(os, q.qp); });
  for (auto& q : qs) {
    s.Setup(&q.qp);
    try {
      (void)s.Solve(p);
    } catch (const std::exception&) {
    }
    c.require(s.x_block().size() == q.N() && s.s_block().size() == q.M() && s.z_block().size() == q.M() && s.y_block().size() == q.K() && s.variables().size() == q.N() + 2 * q.M() + q.K(),
              "the state has the wrong size");
    if (q.K() > 0) (void)ns.Solve(q.qp);
    if (c.src.boolean()) {
      QPInteriorPointSolver copy(s);
      try {
        (void)copy.Solve(p);
      } catch (const std::exception&) {
      }
      QPNullSpaceSolver other(std::move(ns));
      ns = std::move(other);
    }
  }
  c.nontrivial();
}

// Reports of any outputs.
void Reports(pbt::Case& c) {
  std::vector<NLSIteration> its;
  const int n = c.src.integer(0, 4);
  for (int i = 0; i < n; ++i) its.push_back(io::Iteration(c.src, i, true));
  const NLSSolverOutputs out(static_cast<NLSTerminationState>(c.src.integer(0, 6)), std::move(its));
  std::string r = out.ToString(c.src.boolean(), c.src.boolean());
  for (const auto& it : out.iterations) r += it.ToString(c.src.boolean(), c.src.boolean());
  const nlohmann::json j = out;
  r += j.dump();
  const auto back = nlohmann::json::parse(j.dump()).get<NLSSolverOutputs>();
  r += back.ToString();
  c.require(out.NumQPIterations() == back.NumQPIterations() && out.NumLineSearchSteps() == back.NumLineSearchSteps() && out.NumFailedLineSearches() == back.NumFailedLineSearches(), "counters");
  c.require(!r.empty(), "no report");
  if (n > 0) c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C30";
  p.rule =
      "random problems of all kinds solved, reported and serialized under the address and undefined behaviour sanitizers with all library assertions "
      "enabled, and solved again with different contents of fresh memory. Non-trivial: constraints, iterations, changing sizes";
  p.assumptions = {};
  p.facets = {
      {"qp", QPs, 12000, 800000},
      {"nls", NLS, 5000, 400000},
      {"changed", Changed, 4000, 300000},
      {"reuse", Reuse, 8000, 500000},
      {"reports", Reports, 8000, 500000},
  };
  return p;
}
