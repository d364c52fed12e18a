// build: nls plain
// C20: points where the cost is not finite are never accepted.
#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::VectorXd;
using Params = ConstrainedNonlinearLeastSquares::Params;
using Result = StepSizeSelectionResult;

namespace {

bool Finite(const Errors& e) { return std::isfinite(e.f) && std::isfinite(e.equality); }

void Check(pbt::Case& c, const nls::Random& r) {
  bool hit = false;
  for (std::size_t k = 0; k < r.run.its.size(); ++k) {
    const nls::Iteration& it = r.run.its[k];
    const NLSIteration& i = *it.info;
    auto say = [&](const std::string& m) { return [&, m] { return m + ": " + nls::Fmt(it); }; };
    for (std::size_t t = 0; t < it.trials.size(); ++t) {
      const bool finite = nls::FiniteAt(r.spec, it.trials[t].x);
      if (finite && nls::Evaluate(r.spec, it.trials[t].x).Total(1) > 1e307) c.discard("on the verge of overflow");
      const bool last = t + 1 == it.trials.size();
      c.require(t >= i.line_search_steps.size() || Finite(i.line_search_steps[t].errors) == finite, say(pbt::str("the cost of trial ", t, finite ? " is finite" : " is not finite")));
      if (!finite) {
        hit = true;
        c.require(last && i.step_result == Result::FAILURE_NON_FINITE_COST, say(pbt::str("the cost of trial ", t, " is not finite, which must be reported")));
        c.require(ref::BitEqual(it.x0, it.x1), say("the variables moved in an iteration that met a non-finite cost"));
        c.label(std::isnan(nls::Evaluate(r.spec, it.trials[t].x).Total(1)) ? "NaN" : "infinite");
        c.label(t == 0 ? "at the full step" : "at a shorter step");
      }
    }
    c.require(it.x1.allFinite() && nls::FiniteAt(r.spec, it.x1), say("the cost at the new variables is not finite"));
    if (hit && i.step_result == Result::SUCCESS) c.label("run went on");
  }
  c.require(r.run.x.allFinite() && nls::FiniteAt(r.spec, r.run.x), [&] { return "the result " + gen::Fmt(r.run.x.transpose()) + " has a cost that is not finite"; });
  if (hit) c.nontrivial();
}

void Undefine(pbt::Case& c, const nls::Spec& s, nls::Term& t, const bool near) {
  t.f.undefined = c.src.boolean() ? std::nan("") : c.src.boolean() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
  const int only = c.src.integer(0, static_cast<int>(t.f.R()) - 1);
  for (Index i = 0; i < t.f.R(); ++i) {
    double at = 0;
    for (Index j = 0; j < t.f.P(); ++j) {
      t.f.dom(i, j) = c.src.nonzero(0.2, 1.0);
      at += t.f.dom(i, j) * s.x0[t.idx[static_cast<std::size_t>(j)]];
    }
    t.f.limit[i] = i == only ? at + (near ? c.src.logreal(1e-3, 2.0) : c.src.mag(0.0, 5.0)) : 1e300;
  }
}

// Costs and equalities that are undefined close to the start.
void Domain(pbt::Case& c) {
  nls::Opts o;
  o.p_eq = 0.6;
  o.nonlinear = c.src.boolean() ? 1.0 : 4.0;
  const bool near = c.src.boolean();
  Check(c, nls::MakeRun(c, o, 12, [&](nls::Spec& s, Params& p) {
    std::vector<nls::Term*> all;
    for (auto& t : s.costs) all.push_back(&t);
    for (auto& t : s.eqs) all.push_back(&t), all.push_back(&t);
    const int n = c.src.integer(1, 2);
    for (int i = 0; i < n; ++i) Undefine(c, s, *c.src.pick(all), near);
    if (c.src.boolean()) p.max_line_search_iterations = c.src.integer(2, 12);
  }));
}
// Exponentials that overflow.
void Overflow(pbt::Case& c) {
  nls::Opts o;
  o.nonlinear = 1.0;
  Check(c, nls::MakeRun(c, o, 10, [&](nls::Spec& s, Params&) {
    if (s.costs.empty()) return;
    nls::Term& u = s.costs[static_cast<std::size_t>(c.src.integer(0, static_cast<int>(s.costs.size()) - 1))];
    for (Index i = 0; i < u.f.R(); ++i) {
      u.f.e[i] = c.src.nonzero(0.01, 1.0);
      for (Index j = 0; j < u.f.P(); ++j) u.f.U(i, j) = (j % 2 ? -1 : 1) * c.src.mag(2.0, 60.0);
    }
    // start where the exponential is small, with other costs that pull towards where it is not
    for (std::size_t j = 0; j < u.idx.size(); ++j) {
      const double sign = j % 2 ? -1 : 1;
      s.x0[u.idx[j]] = -sign * c.src.mag(0.1, 1.0);
      for (auto& t : s.costs)
        if (&t != &u && t.idx.size() == 1 && t.idx[0] == u.idx[j]) t.f.a -= t.f.B.col(0) * sign * c.src.logreal(1.0, 100.0);
    }
  }));
}

// The cost is not finite at the start: the solver must refuse, leaving the guess in place.
void Start(pbt::Case& c) {
  nls::Opts o;
  o.p_eq = 0.6;
  nls::Spec s = nls::Make(c.src, o);
  std::vector<nls::Term*> all;
  for (auto& t : s.costs) all.push_back(&t);
  for (auto& t : s.eqs) all.push_back(&t), all.push_back(&t);
  Undefine(c, s, *c.src.pick(all), true);
  for (nls::Term* t : all)
    for (Index i = 0; i < t->f.R(); ++i)
      if (t->f.undefined != 0 && t->f.limit[i] < 1e299) {
        double at = 0;
        for (Index j = 0; j < t->f.P(); ++j) at += t->f.dom(i, j) * s.x0[t->idx[static_cast<std::size_t>(j)]];
        t->f.limit[i] = at - c.src.logreal(1e-3, 1.0);
      }
  const Params p = nls::NLSParams(c.src, 10);
  c.describe([&](auto& os) { nls::Describe(os, s), nls::Describe(os, p); });
  if (nls::FiniteAt(s, s.x0)) c.discard("defined at the start");
  const Problem problem = s.Build();
  nls::Recorder rec(&problem);
  const nls::Run r = rec.Solve(p, s.x0);
  c.require(r.threw || (r.term() == NLSTerminationState::QP_INDEFINITE && r.its.empty()), [&] {
    return pbt::str("started at a cost that is not finite and ended with ", nls::Name(r.term()), " after ", r.its.size(), " iterations");
  });
  c.require(r.its.empty() && ref::BitEqual(r.x, s.x0), [&] { return "the variables moved to " + gen::Fmt(r.x.transpose()); });
  c.label(r.threw ? "threw" : "indefinite");
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C20";
  p.rule =
      "random problems whose costs or equalities return NaN or infinity in a half space near the start, overflow, or are not finite at the "
      "start; every trial point is evaluated again. Non-trivial: a trial met a cost that is not finite, or the start did";
  p.assumptions = {"the Jacobians stay finite"};
  p.facets = {
      {"domain", Domain, 250000, 12000000, 0.3},
      {"overflow", Overflow, 80000, 4000000, 0.7},
      {"start", Start, 60000, 2000000, 0.3},
  };
  return p;
}
