// build: nls tsan
// C25 under the thread sanitizer.
#include "p_C25.hpp"

namespace {

using namespace c25;

// Independent solvers on several threads: no shared state but the trace.
void Solvers(pbt::Case& c) {
  const int n = c.src.integer(2, 4);
  std::vector<nls::Spec> specs;
  std::vector<ConstrainedNonlinearLeastSquares::Params> params;
  for (int i = 0; i < n; ++i) {
    nls::Opts o;
    specs.push_back(nls::Make(c.src, o));
    params.push_back(nls::NLSParams(c.src, 6));
  }
  const bool same = c.src.boolean();  // all threads solve the same problem object
  if (same) c.label("one problem");
  std::vector<Problem> problems;
  for (const auto& s : specs) problems.push_back(s.Build());
  struct Result {
    std::optional<NLSSolverOutputs> out;
    nls::VectorXd x;
  };
  std::vector<Result> res(static_cast<std::size_t>(n)), alone(static_cast<std::size_t>(n));
  auto solve = [&](std::size_t i, Result& r) {
    const std::size_t w = same ? 0 : i;
    ConstrainedNonlinearLeastSquares s(&problems[w]);
    try {
      r.out.emplace(s.Solve(params[w], specs[w].x0));
    } catch (const std::exception&) {
    }
    r.x = s.variables();
  };
  std::vector<std::thread> t;
  for (std::size_t i = 0; i < res.size(); ++i) t.emplace_back([&, i] { solve(i, res[i]); });
  for (auto& x : t) x.join();
  for (std::size_t i = 0; i < res.size(); ++i) {
    solve(i, alone[i]);
    c.require(res[i].out.has_value() == alone[i].out.has_value() && (!res[i].out || nls::Same(*res[i].out, *alone[i].out)) && ref::BitEqual(res[i].x, alone[i].x),
              "a solver running next to others gives a different result");
  }
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C25";
  p.rule = "threads that record, read and solve at the same time, under the thread sanitizer";
  p.facets = {
      {"threads_tsan", [](Case& c) { Threads(c, 5, 60); }, 120, 1500},
      {"solvers_tsan", Solvers, 300, 5000},
  };
  return p;
}
