// build: nls plain
// C21: the callback and the retraction operator are used as documented.
#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::VectorXd;
using Params = ConstrainedNonlinearLeastSquares::Params;
using Term = NLSTerminationState;

namespace {

nls::Opts Pick(pbt::Case& c) {
  nls::Opts o;
  o.nonlinear = c.src.boolean() ? 1.0 : 5.0;
  o.undefined = c.src.chance(1, 6);
  o.full_rank = !c.src.chance(1, 5);
  if (!o.full_rank) {
    o.p_eq = 2;
    o.p_bounds = -1;
  }
  return o;
}
Params Tune(pbt::Case& c, const int iterations) {
  Params p = nls::NLSParams(c.src, iterations);
  if (c.src.boolean()) p.relative_exit_tol = 1e-9, p.absolute_first_derivative_tol = 1e-10;
  return p;
}
struct Problem2 {
  nls::Spec spec;
  Params p;
};
Problem2 Gen(pbt::Case& c, const int iterations) {
  Problem2 q;
  q.spec = nls::Make(c.src, Pick(c));
  q.p = Tune(c, iterations);
  c.describe([&](auto& os) { nls::Describe(os, q.spec), nls::Describe(os, q.p); });
  if (!nls::FiniteAt(q.spec, q.spec.x0)) c.discard("cost not finite at the start");
  return q;
}

bool SamePrefix(const NLSSolverOutputs& a, const NLSSolverOutputs& b, const std::size_t n) {
  for (std::size_t i = 0; i < n; ++i)
    if (!nls::Same(a.iterations[i], b.iterations[i])) return false;
  return true;
}

struct Seen {
  NLSIteration info;
  VectorXd x;
};
struct Plain {
  std::optional<NLSSolverOutputs> out;
  std::vector<Seen> seen;
  VectorXd x;
  std::string what;
};
// Run with the given retraction (or none) and a callback that returns the given answers.
Plain Go(const Problem& problem, const Params& p, const VectorXd& x0, const bool callback, const std::function<bool(int)>& answer,
         ConstrainedNonlinearLeastSquares::Retraction retraction = nullptr) {
  Plain r;
  ConstrainedNonlinearLeastSquares solver(&problem, std::move(retraction));
  if (callback)
    solver.SetUserExitCallback([&](const NLSIteration& i) {
      r.seen.push_back({i, solver.variables()});
      return answer(static_cast<int>(r.seen.size()) - 1);
    });
  try {
    r.out.emplace(solver.Solve(p, x0));
  } catch (const std::exception& e) {
    r.what = e.what();
  }
  r.x = solver.variables();
  return r;
}

void Stop(pbt::Case& c) {
  const Problem2 q = Gen(c, 12);
  const Problem problem = q.spec.Build();
  const Plain full = Go(problem, q.p, q.spec.x0, true, [](int) { return true; });
  if (!full.out) c.discard("threw");
  const int n = static_cast<int>(full.out->iterations.size());
  const int at = c.src.integer(0, std::max(0, n));
  c.describe([&](auto& os) { os << "callback returns false at iteration " << at << " of " << n << "\n"; });
  c.require(full.seen.size() == full.out->iterations.size(), "the callback was not called once per iteration");
  for (int k = 0; k < n; ++k) c.require(nls::Same(full.seen[static_cast<std::size_t>(k)].info, full.out->iterations[static_cast<std::size_t>(k)]), "the callback saw another iteration than the log has");
  if (n > 0) c.require(ref::BitEqual(full.x, full.seen.back().x), "the variables changed after the last callback");
  const Plain quiet = Go(problem, q.p, q.spec.x0, false, {});
  c.require(quiet.out && nls::Same(*quiet.out, *full.out) && ref::BitEqual(quiet.x, full.x), "a callback that always returns true changed the run");
  const Plain stop = Go(problem, q.p, q.spec.x0, true, [&](int k) { return k != at; });
  c.require(stop.out.has_value(), [&] { return "stopping made the solver throw: " + stop.what; });
  if (at >= n) {
    c.require(nls::Same(*stop.out, *full.out), "a callback that never returned false changed the run");
    return;
  }
  const std::size_t len = static_cast<std::size_t>(at) + 1;
  c.require(stop.out->iterations.size() == len && stop.seen.size() == len, [&] { return pbt::str("returned false at iteration ", at, ", the run has ", stop.out->iterations.size(), " iterations"); });
  c.require(SamePrefix(*stop.out, *full.out, len), "the iterations before stopping differ from those of the full run");
  c.require(ref::BitEqual(stop.x, full.seen[len - 1].x), "the variables of the stopped run are not those the callback saw");
  const bool own_exit = at == n - 1 && full.out->termination_state != Term::MAX_ITERATIONS && full.out->termination_state != Term::QP_INDEFINITE;
  const Term want = own_exit ? full.out->termination_state : Term::USER_CALLBACK;
  c.require(stop.out->termination_state == want, [&] { return pbt::str("ended with ", nls::Name(stop.out->termination_state), ", expected ", nls::Name(want)); });
  c.label(own_exit ? "own exit has precedence" : at == 0 ? "stopped at once" : "stopped later");
  if (at > 0 || n > 1) c.nontrivial();
}

// The built-in retraction adds the scaled step.
void Default(pbt::Case& c) {
  const Problem2 q = Gen(c, 12);
  const Problem problem = q.spec.Build();
  const Plain a = Go(problem, q.p, q.spec.x0, true, [](int) { return true; });
  const Plain b = Go(problem, q.p, q.spec.x0, true, [](int) { return true; }, [](VectorXd& x, ConstVectorBlock dx, double alpha) { x += dx * alpha; });
  c.require(a.out.has_value() == b.out.has_value(), "only one of the two runs threw");
  if (!a.out) c.discard("threw");
  // Single rounding differences are tolerated only by comparing the first iteration approximately.
  c.require(nls::Same(*a.out, *b.out) && ref::BitEqual(a.x, b.x), [&] {
    return pbt::str("built-in retraction: ", a.out->iterations.size(), " iterations to ", gen::Fmt(a.x.transpose()), "; x + alpha dx: ", b.out->iterations.size(), " iterations to ",
                    gen::Fmt(b.x.transpose()));
  });
  VectorXd x = q.spec.x0;
  for (const Seen& s : a.seen) {
    if (s.info.step_result == StepSizeSelectionResult::SUCCESS) {
      const Errors e = nls::Evaluate(q.spec, s.x), &l = s.info.line_search_steps.back().errors;
      c.require(ref::Near(e.f, l.f, 1e-12, 1e-300) && ref::Near(e.equality, l.equality, 1e-12, 1e-300), "the variables do not have the cost the log says");
      c.nontrivial();
    } else {
      c.require(ref::BitEqual(s.x, x), "the variables moved without a successful step");
    }
    x = s.x;
  }
}

// Any other retraction: every point the solver considers is one the operator produced from the current variables.
struct Call {
  VectorXd in, dx, out;
  double alpha;
};
void Custom(pbt::Case& c) {
  const Problem2 q = Gen(c, 10);
  const int kind = c.src.integer(0, 3);
  const double scale = c.src.mag(0.3, 0.9);
  c.describe([&](auto& os) { os << "retraction " << kind << " " << scale << "\n"; });
  const Problem problem = q.spec.Build();
  std::vector<Call> calls;
  auto retract = [&](VectorXd& x, ConstVectorBlock dx, double alpha) {
    Call k{x, VectorXd(dx), {}, alpha};
    switch (kind) {
      case 0: x += dx * alpha * scale; break;  // shorter than asked
      case 1:                                  // on a grid
        for (Index i = 0; i < x.size(); ++i) x[i] = std::round((x[i] + dx[i] * alpha) * 1024.0) / 1024.0;
        break;
      case 2:  // curved
        for (Index i = 0; i < x.size(); ++i) x[i] += std::tanh(dx[i] * alpha);
        break;
      default:  // wrapped
        for (Index i = 0; i < x.size(); ++i) x[i] = std::remainder(x[i] + dx[i] * alpha, 8.0);
    }
    k.out = x;
    calls.push_back(std::move(k));
  };
  ConstrainedNonlinearLeastSquares solver(&problem, retract);
  VectorXd current = q.spec.x0;
  std::size_t first = 0;
  std::string bad;
  int accepted = 0;
  bool checked = true;
  auto check = [&](const bool ok, const std::string& m) {
    if (!ok && checked) {
      bad = m;
      checked = false;
    }
  };
  solver.SetUserExitCallback([&](const NLSIteration& i) {
    const std::size_t n = calls.size() - first;
    check(n == i.line_search_steps.size(), pbt::str("iteration ", i.iteration, ": ", n, " retractions for ", i.line_search_steps.size(), " trials"));
    for (std::size_t k = 0; k < n && k < i.line_search_steps.size(); ++k) {
      const Call& call = calls[first + k];
      check(ref::BitEqual(call.in, current), pbt::str("iteration ", i.iteration, ": the operator was given ", gen::Fmt(call.in.transpose()), " instead of the current variables ", gen::Fmt(current.transpose())));
      check(call.dx.size() == q.spec.n && ref::BitEqual(call.dx, calls[first].dx), pbt::str("iteration ", i.iteration, ": the step changed within an iteration"));
      check(call.alpha == i.line_search_steps[k].alpha, pbt::str("iteration ", i.iteration, ": alpha ", call.alpha, " is logged as ", i.line_search_steps[k].alpha));
      const Errors e = nls::Evaluate(q.spec, call.out), &l = i.line_search_steps[k].errors;
      const bool fin = std::isfinite(e.f) && std::isfinite(e.equality);
      check(fin ? ref::Near(e.f, l.f, 1e-12, 1e-300) && ref::Near(e.equality, l.equality, 1e-12, 1e-300) : l.ContainsInvalidValues(),
            pbt::str("iteration ", i.iteration, ": trial ", k, " does not have the cost of the retracted point"));
    }
    if (i.step_result == StepSizeSelectionResult::SUCCESS && n > 0) {
      current = calls.back().out;
      ++accepted;
    }
    check(ref::BitEqual(solver.variables(), current), pbt::str("iteration ", i.iteration, ": the variables are not the retracted point"));
    first = calls.size();
    return true;
  });
  try {
    (void)solver.Solve(q.p, q.spec.x0);
  } catch (const std::exception&) {
    if (checked) c.discard("threw");
  }
  c.require(checked, [&] { return bad; });
  c.require(ref::BitEqual(solver.variables(), current), "the result is not the last accepted point");
  c.require(first == calls.size(), "the operator was used outside of an iteration");
  if (accepted > 0) c.nontrivial();
  c.label(kind == 0 ? "shortened" : kind == 1 ? "grid" : kind == 2 ? "curved" : "wrapped");
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C21";
  p.rule =
      "random problems run with callbacks that stop at a random iteration, with and without callbacks, and with five retraction operators whose "
      "every call is recorded. Non-trivial: a run of several iterations was stopped, or a step was accepted through the operator";
  p.assumptions = {"built-in and explicit addition are compared bit by bit (no fused multiply-add in this build)"};
  p.facets = {
      {"stop", Stop, 100000, 6000000, 0.3},
      {"default retraction", Default, 80000, 5000000, 0.3},
      {"custom retraction", Custom, 120000, 6000000, 0.3},
  };
  return p;
}
