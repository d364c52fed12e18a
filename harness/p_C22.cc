// build: nls plain
// C22: runs are deterministic, solvers can be reused and share problems, longer runs extend shorter ones, inputs are left alone.
#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::VectorXd;
using Params = ConstrainedNonlinearLeastSquares::Params;
using Solver = ConstrainedNonlinearLeastSquares;

namespace {

nls::Spec GenSpec(pbt::Case& c) {
  nls::Opts o;
  o.nonlinear = c.src.boolean() ? 1.0 : 5.0;
  o.undefined = c.src.chance(1, 5);
  o.full_rank = !c.src.chance(1, 5);
  if (!o.full_rank) {
    o.p_eq = 2;
    o.p_bounds = -1;
  }
  return nls::Make(c.src, o);
}
struct Result {
  std::optional<NLSSolverOutputs> out;
  VectorXd x;
  std::string what;
};
Result Go(Solver& solver, const Params& p, const VectorXd& x0) {
  Result r;
  try {
    r.out.emplace(solver.Solve(p, x0));
  } catch (const std::exception& e) {
    r.what = std::string(e.what()).substr(0, 40);
  }
  r.x = solver.variables();
  return r;
}
bool Same(const Result& a, const Result& b) {
  if (a.out.has_value() != b.out.has_value()) return false;
  return ref::BitEqual(a.x, b.x) && (!a.out || nls::Same(*a.out, *b.out));
}
std::string Fmt(const Result& r) {
  if (!r.out) return "threw " + r.what;
  return pbt::str(r.out->iterations.size(), " iterations, ", nls::Name(r.out->termination_state), ", at ", gen::Fmt(r.x.transpose()));
}

// A history of solves on one solver object; each must match a fresh solver.
void Reuse(pbt::Case& c) {
  const nls::Spec spec = GenSpec(c);
  const Problem problem = spec.Build();
  const auto bounds = problem.inequality_constraints;
  c.describe([&](auto& os) { nls::Describe(os, spec); });
  Solver shared(&problem);
  const int n = c.src.integer(2, 5);
  bool changed = false, threw = false;
  Params p = nls::NLSParams(c.src, 8);
  VectorXd x0 = spec.x0;
  for (int k = 0; k < n; ++k) {
    if (k > 0) {
      if (c.src.boolean()) p = nls::NLSParams(c.src, 8), changed = true;
      switch (c.src.integer(0, 3)) {
        case 0: break;
        case 1: x0 = spec.x0 + gen::Vec(c.src, spec.n, -2, 2); break;
        case 2: x0 = shared.variables(); break;  // continue from the result (aliases the solver's own storage)
        default: x0[c.src.integer(0, spec.n - 1)] = c.src.boolean() ? std::nan("") : 1e200;
      }
    }
    c.describe([&](auto& os) { os << "solve " << k << " from " << gen::Fmt(x0.transpose()) << " ", nls::Describe(os, p); });
    const VectorXd copy = x0;
    const Result a = Go(shared, p, x0);
    c.require(ref::BitEqual(copy, x0), "the initial guess was modified");
    Solver fresh(&problem);
    const Result b = Go(fresh, p, x0);
    c.require(Same(a, b), [&] { return pbt::str("solve number ", k, " on a used solver: ", Fmt(a), "; on a fresh one: ", Fmt(b)); });
    if (!a.out) threw = true;
    if (!x0.allFinite() || x0.cwiseAbs().maxCoeff() > 1e100) x0 = spec.x0;
  }
  bool same = bounds.size() == problem.inequality_constraints.size();
  for (std::size_t i = 0; same && i < bounds.size(); ++i)
    same = bounds[i].variable == problem.inequality_constraints[i].variable && nls::Same(bounds[i].a, problem.inequality_constraints[i].a) && nls::Same(bounds[i].b, problem.inequality_constraints[i].b);
  c.require(same && problem.dimension == spec.n && problem.costs.size() == spec.costs.size() && problem.equality_constraints.size() == spec.eqs.size(), "the problem was modified");
  if (changed) c.nontrivial();
  if (threw) c.label("a solve threw");
  if (changed) c.label("parameters changed");
}

// The functions of the problem read data that the caller changes between solves: earlier values must not linger.
void Data(pbt::Case& c) {
  nls::Spec spec = GenSpec(c);
  std::vector<std::shared_ptr<nls::Function>> data;
  auto attach = [&](std::vector<nls::Term>& ts) {
    for (auto& t : ts) {
      data.push_back(std::make_shared<nls::Function>(t.f));
      t.live = data.back();
    }
  };
  attach(spec.costs);
  attach(spec.eqs);
  const Problem problem = spec.Build();
  c.describe([&](auto& os) { nls::Describe(os, spec); });
  Params p = nls::NLSParams(c.src, 6);
  Solver shared(&problem);
  const int n = c.src.integer(2, 4);
  bool moved = false;
  for (int k = 0; k < n; ++k) {
    if (k > 0) {
      const auto w = static_cast<std::size_t>(c.src.integer(0, static_cast<int>(data.size()) - 1));
      nls::Function& f = *data[w];
      const Index row = c.src.integer(0, static_cast<int>(f.R()) - 1);
      const double d = c.src.real(-2, 2);
      const int what = c.src.integer(0, 3);
      switch (what) {
        case 0: f.a[row] += d; break;
        case 1: f.B(row, c.src.integer(0, static_cast<int>(f.P()) - 1)) += d; break;
        case 2: f.k[row] += d; break;
        default: f.s[row] += d; break;
      }
      if (c.src.chance(1, 4)) p = nls::NLSParams(c.src, 6);
      c.describe([&](auto& os) { os << "function " << w << " row " << row << " coefficient " << what << " changed by " << d << "\n"; });
    }
    const VectorXd x0 = k > 0 && c.src.boolean() ? VectorXd(shared.variables()) : spec.x0;
    if (!x0.allFinite()) c.discard("diverged");
    const Result a = Go(shared, p, x0);
    Solver fresh(&problem);
    const Result b = Go(fresh, p, x0);
    c.require(Same(a, b), [&] { return pbt::str("solve number ", k, " after the data of a function changed: ", Fmt(a), "; on a fresh solver: ", Fmt(b)); });
    if (k > 0 && a.out && !a.out->iterations.empty()) moved = true;
    const VectorXd at = shared.variables();
    if (at.allFinite() && at.cwiseAbs().maxCoeff() < 1e50) {
      const Errors e1 = shared.EvaluateNonlinearErrors(at), e2 = fresh.EvaluateNonlinearErrors(at);
      c.require(nls::Same(e1.f, e2.f) && nls::Same(e1.equality, e2.equality), "errors on a used and a fresh solver differ");
    }
  }
  if (moved) c.nontrivial();
}

// Costs and bounds of the problem change between solves.
void Changed(pbt::Case& c) {
  nls::Spec spec = GenSpec(c);
  Problem problem = spec.Build();
  c.describe([&](auto& os) { nls::Describe(os, spec); });
  Params p = nls::NLSParams(c.src, 5);
  Solver shared(&problem);
  const int n = c.src.integer(2, 4);
  bool changed = false;
  for (int k = 0; k < n; ++k) {
    if (k > 0) {
      const int m = c.src.integer(1, 3);
      for (int i = 0; i < m; ++i) {
        const std::string done = nls::Edit(c.src, &spec, &problem);
        if (done.empty()) continue;
        changed = true;
        c.label(done.c_str());
        c.describe([&](auto& os) { os << done << ", the problem is now:\n", nls::Describe(os, spec); });
      }
      if (c.src.chance(1, 4)) p = nls::NLSParams(c.src, 5);
    }
    c.describe([&](auto& os) { os << "solve " << k << " ", nls::Describe(os, p); });
    const Result a = Go(shared, p, spec.x0);
    Solver fresh(&problem);
    const Result b = Go(fresh, p, spec.x0);
    c.require(Same(a, b), [&] { return pbt::str("solve number ", k, " after the problem changed: ", Fmt(a), "; on a fresh solver: ", Fmt(b)); });
    const Problem rebuilt = spec.Build();
    Solver again(&rebuilt);
    const Result r = Go(again, p, spec.x0);
    c.require(Same(a, r), [&] { return pbt::str("solve number ", k, " after the problem changed: ", Fmt(a), "; of the same problem built anew: ", Fmt(r)); });
  }
  if (changed) c.nontrivial();
}

// Solver objects are values: copies and moved objects behave like solvers of their own.
template <typename S>
void CopiesOf(pbt::Case& c) {
  if constexpr (std::is_copy_constructible_v<S> && std::is_copy_assignable_v<S> && std::is_move_constructible_v<S>) {
    const nls::Spec specs[2] = {GenSpec(c), GenSpec(c)};
    const Problem problems[2] = {specs[0].Build(), specs[1].Build()};
    c.describe([&](auto& os) { nls::Describe(os, specs[0]), nls::Describe(os, specs[1]); });
    struct Entry {
      std::unique_ptr<S> solver;
      int problem;
      VectorXd at;  // what variables() must be
    };
    std::vector<Entry> all;
    for (int i = 0; i < 2; ++i) all.push_back({std::make_unique<S>(&problems[i]), i, VectorXd()});
    for (auto& e : all) e.at = e.solver->variables();
    const int n = c.src.integer(3, 10);
    int copies = 0, solves_after = 0;
    for (int k = 0; k < n; ++k) {
      const auto i = static_cast<std::size_t>(c.src.integer(0, static_cast<int>(all.size()) - 1));
      const auto j = static_cast<std::size_t>(c.src.integer(0, static_cast<int>(all.size()) - 1));
      switch (c.src.integer(0, 5)) {
        case 0:
          all.push_back({std::make_unique<S>(*all[i].solver), all[i].problem, all[i].at});
          ++copies;
          c.describe([&](auto& os) { os << "copy of solver " << i << "\n"; });
          break;
        case 1:
          if (i != j) {
            *all[j].solver = *all[i].solver;
            all[j].problem = all[i].problem;
            all[j].at = all[i].at;
            ++copies;
            c.describe([&](auto& os) { os << "solver " << i << " assigned to " << j << "\n"; });
          }
          break;
        case 2:
          all[i].solver = std::make_unique<S>(std::move(*all[i].solver));
          ++copies;
          c.describe([&](auto& os) { os << "solver " << i << " moved\n"; });
          break;
        default: {
          const nls::Spec& spec = specs[all[i].problem];
          const Params p = nls::NLSParams(c.src, 5);
          c.describe([&](auto& os) { os << "solve with solver " << i << " ", nls::Describe(os, p); });
          const Result got = Go(*all[i].solver, p, spec.x0);
          S fresh(&problems[all[i].problem]);
          const Result want = Go(fresh, p, spec.x0);
          c.require(Same(got, want), [&] { return pbt::str("solver ", i, ": ", Fmt(got), "; a fresh solver: ", Fmt(want)); });
          all[i].at = got.x;
          if (copies > 0) ++solves_after;
        }
      }
      for (std::size_t m = 0; m < all.size(); ++m)
        c.require(ref::BitEqual(all[m].solver->variables(), all[m].at), [&] { return pbt::str("variables of solver ", m, " changed by an operation on another"); });
    }
    if (solves_after > 0) c.nontrivial();
    c.label(copies > 0 ? "copied or moved" : "no copy");
  } else {
    c.label("solvers cannot be copied");
  }
}
void Copies(pbt::Case& c) { CopiesOf<Solver>(c); }

// Solving from the solver's own variables.
void Alias(pbt::Case& c) {
  const nls::Spec spec = GenSpec(c);
  const Params p = nls::NLSParams(c.src, 6);
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p); });
  const Problem problem = spec.Build();
  Solver a(&problem), b(&problem);
  const Result first = Go(a, p, spec.x0);
  if (!first.out) c.discard("threw");
  const Result again = Go(a, p, a.variables());
  const Result want = Go(b, p, first.x);
  c.require(Same(again, want), [&] { return pbt::str("continuing from variables(): ", Fmt(again), "; from a copy: ", Fmt(want)); });
  c.nontrivial();
}

// Fewer iterations allowed: the same run, cut short.
void Prefix(pbt::Case& c) {
  const nls::Spec spec = GenSpec(c);
  Params p = nls::NLSParams(c.src, 12);
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p); });
  if (!nls::FiniteAt(spec, spec.x0)) c.discard("cost not finite at the start");
  const Problem problem = spec.Build();
  nls::Recorder rec(&problem);
  const nls::Run full = rec.Solve(p, spec.x0);
  if (full.threw) c.discard("threw");
  const int n = static_cast<int>(full.its.size());
  const int k = c.src.integer(0, n);
  c.describe([&](auto& os) { os << "limited to " << k << " of " << n << "\n"; });
  Solver fresh(&problem);
  p.max_iterations = k;
  const Result cut = Go(fresh, p, spec.x0);
  c.require(cut.out && static_cast<int>(cut.out->iterations.size()) == k, [&] { return pbt::str("limited to ", k, " iterations: ", Fmt(cut)); });
  for (int i = 0; i < k; ++i)
    c.require(nls::Same(cut.out->iterations[static_cast<std::size_t>(i)], full.out->iterations[static_cast<std::size_t>(i)]), [&] { return pbt::str("iteration ", i, " of the shorter run differs"); });
  const VectorXd want = k == 0 ? spec.x0 : full.its[static_cast<std::size_t>(k) - 1].x1;
  c.require(ref::BitEqual(cut.x, want), [&] { return pbt::str("limited to ", k, " iterations the result is ", gen::Fmt(cut.x.transpose()), ", the longer run was at ", gen::Fmt(want.transpose())); });
  if (k < n) c.require(cut.out->termination_state == NLSTerminationState::MAX_ITERATIONS, [&] { return "cut short: " + Fmt(cut); });
  if (k > 0 && k < n) c.nontrivial();
  c.label(k == 0 ? "none" : k == n ? "all" : "some");
}

// Two solvers on one problem, one running inside the callback of the other.
void Nested(pbt::Case& c) {
  const nls::Spec spec = GenSpec(c);
  const Params p = nls::NLSParams(c.src, 6), q = nls::NLSParams(c.src, 3);
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p), nls::Describe(os, q); });
  const Problem problem = spec.Build();
  Solver alone(&problem), outer(&problem), inner(&problem);
  const Result want = Go(alone, p, spec.x0);
  int k = 0;
  bool ok = true;
  outer.SetUserExitCallback([&](const NLSIteration&) {
    const VectorXd x = outer.variables();
    const Errors e = outer.EvaluateNonlinearErrors(x + VectorXd::Ones(spec.n));
    (void)e;
    (void)Go(inner, q, x);
    ok = ok && ref::BitEqual(x, outer.variables());
    ++k;
    return true;
  });
  const Result got = Go(outer, p, spec.x0);
  c.require(ok, "another solver changed the variables of this one");
  c.require(Same(got, want), [&] { return pbt::str("with another solver running in the callback: ", Fmt(got), "; alone: ", Fmt(want)); });
  if (k > 0) c.nontrivial();
}

// EvaluateNonlinearErrors gives the cost and changes nothing.
void Evaluate(pbt::Case& c) {
  nls::Opts o;
  o.nonlinear = 3.0;
  const nls::Spec spec = nls::Make(c.src, o);
  const VectorXd x = spec.x0 + gen::Vec(c.src, spec.n, -1, 1);
  c.describe([&](auto& os) { nls::Describe(os, spec), os << "at " << gen::Fmt(x.transpose()) << "\n"; });
  const Problem problem = spec.Build();
  Solver solver(&problem);
  const Errors want = nls::Evaluate(spec, x);
  if (!std::isfinite(want.f) || !std::isfinite(want.equality)) c.discard("not finite");
  const bool solve = c.src.boolean();
  Params p = nls::NLSParams(c.src, 3);
  if (solve) (void)Go(solver, p, spec.x0);
  const VectorXd before = solve ? solver.variables() : VectorXd();
  const Errors got = solver.EvaluateNonlinearErrors(x);
  c.require(ref::Near(got.f, want.f, 1e-12, 1e-300) && ref::Near(got.equality, want.equality, 1e-12, 1e-300), [&] {
    return pbt::str("errors (", got.f, ", ", got.equality, "), expected (", want.f, ", ", want.equality, ")");
  });
  if (solve) c.require(ref::BitEqual(before, solver.variables()), "evaluating the errors changed the variables");
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C22";
  p.rule =
      "random histories of solves on one solver object (changing parameters, starts, failing ones in between), nested solvers, truncated runs, "
      "all compared bit by bit with a fresh solver. Non-trivial: the parameters changed within the history, a proper prefix, a nested run";
  p.assumptions = {};
  p.facets = {
      {"reuse", Reuse, 60000, 3000000, 0.1}, {"data", Data, 40000, 2000000, 0.1}, {"changed", Changed, 30000, 1500000, 0.1}, {"copies", Copies, 30000, 1500000, 0.1}, {"alias", Alias, 40000, 2000000, 0.4},   {"prefix", Prefix, 100000, 6000000, 0.3},
      {"nested", Nested, 40000, 2000000, 0.1},   {"evaluate", Evaluate, 60000, 3000000, 0.3},
  };
  return p;
}
