// build: nls asan
// C26: malformed problems, parameters and guesses are rejected with an error, valid ones at the limits are accepted.
#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::MatrixXd;
using nls::VectorXd;
using Params = ConstrainedNonlinearLeastSquares::Params;
using QPParams = QPInteriorPointSolver::Params;
using Solver = ConstrainedNonlinearLeastSquares;

namespace {

const double kNaN = std::numeric_limits<double>::quiet_NaN();
const double kInf = std::numeric_limits<double>::infinity();

// Runs f, says whether it was rejected.
template <typename F>
bool Rejects(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

double Below(pbt::Source& s, double limit) {
  switch (s.draw(3)) {
    case 0: return limit - 1;
    case 1: return std::nextafter(limit, -kInf);
    case 2: return std::min(limit - s.logreal(1e-12, 1e6), std::nextafter(limit, -kInf));
    default: return -kInf;
  }
}
double Above(pbt::Source& s, double limit) {
  switch (s.draw(3)) {
    case 0: return limit + 1;
    case 1: return std::nextafter(limit, kInf);
    case 2: return std::max(limit + s.logreal(1e-12, 1e6), std::nextafter(limit, kInf));
    default: return kInf;
  }
}
double AtOrBelow(pbt::Source& s, double limit) { return s.boolean() ? limit : Below(s, limit); }
double AtOrAbove(pbt::Source& s, double limit) { return s.boolean() ? limit : Above(s, limit); }
int IntBelow(pbt::Source& s, int limit) { return s.boolean() ? limit - 1 : s.boolean() ? std::numeric_limits<int>::min() : limit - 1 - s.integer(0, 1000); }

// One parameter out of its range.
std::string Break(pbt::Source& s, Params& p) {
  const bool nan = s.chance(1, 8);
  auto bad = [&](double v) { return nan ? kNaN : v; };
  switch (s.draw(19)) {
    case 0: return p.max_iterations = IntBelow(s, 0), "max_iterations";
    case 1: return p.max_qp_iterations = IntBelow(s, 1), "max_qp_iterations";
    case 2: return p.termination_kkt_tolerance = bad(AtOrBelow(s, 0)), "termination_kkt_tolerance";
    case 3: return p.absolute_exit_tol = bad(AtOrBelow(s, 0)), "absolute_exit_tol";
    case 4: return p.max_line_search_iterations = IntBelow(s, 0), "max_line_search_iterations";
    case 5: return p.relative_exit_tol = bad(s.boolean() ? Below(s, 0) : Above(s, 1)), "relative_exit_tol";
    case 6: return p.absolute_first_derivative_tol = bad(Below(s, 0)), "absolute_first_derivative_tol";
    case 7: return p.armijo_search_tau = bad(s.boolean() ? AtOrBelow(s, 0) : AtOrAbove(s, 1)), "armijo_search_tau";
    case 8: return p.equality_penalty_initial = bad(AtOrBelow(s, 0)), "equality_penalty_initial";
    case 9: return p.equality_penalty_scale_factor = bad(Below(s, 1)), "equality_penalty_scale_factor";
    case 10: return p.equality_penalty_rho = bad(s.boolean() ? Below(s, 0) : AtOrAbove(s, 1)), "equality_penalty_rho";
    case 11: return p.max_lambda = bad(Below(s, 0)), p.min_lambda = std::min(p.min_lambda, p.max_lambda), p.lambda_initial = p.max_lambda, "max_lambda";
    case 12: return p.min_lambda = bad(Above(s, p.max_lambda)), "min_lambda";
    case 13: return p.lambda_initial = bad(Below(s, p.min_lambda)), "lambda_initial too small";
    case 14: return p.lambda_initial = bad(Above(s, p.max_lambda)), "lambda_initial too large";
    case 15: return p.lambda_failure_init = bad(Below(s, 0)), "lambda_failure_init";
    case 16: return p.lambda_decrease_on_success = bad(Below(s, 0)), "lambda_decrease_on_success too small";
    case 17: return p.lambda_decrease_on_success = bad(AtOrAbove(s, 1)), "lambda_decrease_on_success too large";
    case 18: return p.lambda_decrease_on_restore = bad(Below(s, 0)), "lambda_decrease_on_restore too small";
    default: return p.lambda_decrease_on_restore = bad(AtOrAbove(s, 1)), "lambda_decrease_on_restore too large";
  }
}

// A problem the solver never throws on.
nls::Spec Supported(pbt::Source& s) {
  nls::Opts o;
  const int kind = s.integer(0, 2);
  o.equalities = kind == 1;
  o.bounds = kind == 2;
  o.p_eq = o.p_bounds = 2;
  return nls::Make(s, o);
}

struct Result {
  std::optional<NLSSolverOutputs> out;
  VectorXd x;
};
Result Go(Solver& s, const Params& p, const VectorXd& x0) {
  Result r;
  r.out.emplace(s.Solve(p, x0));
  r.x = s.variables();
  return r;
}

// A rejected call leaves the solver able to solve as if it had not happened.
void NLS(pbt::Case& c) {
  const nls::Spec spec = Supported(c.src);
  const Params good = nls::NLSParams(c.src, 5);
  if (!nls::FiniteAt(spec, spec.x0)) c.discard("cost not finite at the start");
  const Problem problem = spec.Build();
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, good); });
  int called = 0;
  Solver s(&problem);
  s.SetUserExitCallback([&](const NLSIteration&) {
    ++called;
    return true;
  });
  const bool before = c.src.boolean();
  if (before) (void)s.Solve(good, spec.x0);
  const VectorXd kept = s.variables();
  const int n = c.src.integer(1, 3);
  for (int k = 0; k < n; ++k) {
    Params p = good;
    VectorXd x = spec.x0;
    std::string what;
    called = 0;
    if (c.src.chance(1, 4)) {
      Index size = c.src.integer(0, 2 * spec.n + 1);
      if (size == spec.n) size = 0;
      x = VectorXd::Constant(size, 0.5);
      what = pbt::str("guess of size ", size, " for ", spec.n, " variables");
    } else {
      what = Break(c.src, p);
    }
    c.label(what.substr(0, what.find(' ')));
    c.describe([&](auto& os) { os << "then: " << what << "\n"; });
    c.require(Rejects([&] { (void)s.Solve(p, x); }), [&] {
      std::ostringstream os;
      nls::Describe(os, p);
      return "accepted " + what + ": " + os.str();
    });
    c.require(called == 0, [&] { return "ran an iteration with " + what; });
    if (before) c.require(ref::BitEqual(s.variables(), kept), [&] { return "rejecting " + what + " changed variables()"; });
  }
  const Result a = Go(s, good, spec.x0);
  Solver fresh(&problem);
  const Result b = Go(fresh, good, spec.x0);
  c.require(nls::Same(*a.out, *b.out) && ref::BitEqual(a.x, b.x), "a solver that rejected a call solves differently afterwards");
  c.nontrivial();
}

// Every parameter at the end of its range is valid.
void Limits(pbt::Case& c) {
  const nls::Spec spec = Supported(c.src);
  Params p = nls::NLSParams(c.src, 5);
  if (!nls::FiniteAt(spec, spec.x0)) c.discard("cost not finite at the start");
  const int n = c.src.integer(1, 4);
  for (int k = 0; k < n; ++k) {
    switch (c.src.draw(14)) {
      case 0: p.max_iterations = 0; break;
      case 1: p.max_qp_iterations = 1; break;
      case 2: p.termination_kkt_tolerance = c.src.boolean() ? 1e-300 : 1e300; break;
      case 3: p.absolute_exit_tol = c.src.boolean() ? 1e-300 : 1e300; break;
      case 4: p.max_line_search_iterations = 0; break;
      case 5: p.relative_exit_tol = c.src.boolean() ? 0 : 1; break;
      case 6: p.absolute_first_derivative_tol = c.src.boolean() ? 0 : 1e300; break;
      case 7: p.armijo_search_tau = c.src.boolean() ? 1e-6 : std::nextafter(1.0, 0.0); break;
      case 8: p.equality_penalty_initial = c.src.boolean() ? 1e-12 : 1e-300; break;
      case 9: p.equality_penalty_scale_factor = 1; break;
      case 10: p.equality_penalty_rho = c.src.boolean() ? 0 : 0.999; break;
      case 11: p.max_lambda = p.min_lambda = p.lambda_initial = c.src.boolean() ? 0 : 2; break;
      case 12: p.lambda_failure_init = 0; break;
      case 13: p.lambda_decrease_on_success = c.src.boolean() ? 0 : std::nextafter(1.0, 0.0); break;
      default: p.lambda_decrease_on_restore = c.src.boolean() ? 0 : std::nextafter(1.0, 0.0); break;
    }
  }
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p); });
  const Problem problem = spec.Build();
  Solver s(&problem);
  std::optional<NLSSolverOutputs> out;
  std::string why;
  try {
    out.emplace(s.Solve(p, spec.x0));
  } catch (const std::exception& e) {
    why = e.what();
  }
  c.require(out.has_value(), [&] { return "rejected valid parameters: " + why; });
  if (p.max_iterations == 0) {
    c.label("no iterations");
    c.require(out->iterations.empty() && out->termination_state == NLSTerminationState::MAX_ITERATIONS && ref::BitEqual(s.variables(), spec.x0),
              "a run without iterations did something");
  }
  c.nontrivial();
}

// Problems that refer to variables they do not have, or are no problems at all.
void Problems(pbt::Case& c) {
  const nls::Spec spec = Supported(c.src);
  Problem problem = spec.Build();
  const Params p = nls::NLSParams(c.src, 5);
  c.describe([&](auto& os) { nls::Describe(os, spec); });
  const int bad_index = c.src.boolean() ? -1 - c.src.integer(0, 3) : spec.n + c.src.integer(0, 3);
  auto with = [&](int index) {
    // first or last of two indices
    using R1 = Eigen::Matrix<double, 1, 1>;
    auto f1 = [](const R1& v, R1* J) -> R1 {
      if (J) J->setOnes();
      return v;
    };
    auto f2 = [](const Eigen::Vector2d& v, Eigen::Matrix<double, 1, 2>* J) -> R1 {
      if (J) J->setOnes();
      return R1(v.sum());
    };
    if (spec.n == 1 || c.src.boolean()) return MakeResidual<1, 1>({index}, f1);
    return c.src.boolean() ? MakeResidual<1, 2>({index, 0}, f2) : MakeResidual<1, 2>({0, index}, f2);
  };
  std::string what;
  const int kind = c.src.integer(0, 4);
  VectorXd x0 = spec.x0;
  if (kind == 0) {
    what = "null problem";
    c.require(Rejects([] { Solver s(nullptr); }), "accepted a null problem");
  } else if (kind == 1) {
    what = "dimension";
    problem.dimension = c.src.boolean() ? 0 : -c.src.integer(1, 100);
    c.require(Rejects([&] { Solver s(&problem); }), [&] { return pbt::str("accepted a problem of dimension ", problem.dimension); });
  } else {
    if (kind == 2) {
      what = "cost index";
      problem.costs.insert(problem.costs.begin() + static_cast<long>(c.src.draw(problem.costs.size())), with(bad_index));
    } else if (kind == 3) {
      what = "equality index";
      auto& e = problem.equality_constraints;
      e.insert(e.begin() + static_cast<long>(c.src.draw(e.size())), with(bad_index));
    } else {
      what = "bound index";
      auto& b = problem.inequality_constraints;
      b.insert(b.begin() + static_cast<long>(c.src.draw(b.size())), LinearInequalityConstraint(bad_index, 1, 100));
    }
    Solver s(&problem);
    c.require(Rejects([&] { (void)s.Solve(p, x0); }), [&] { return what + pbt::str(" ", bad_index, " accepted for ", spec.n, " variables"); });
    if (kind != 4) c.require(Rejects([&] { (void)s.EvaluateNonlinearErrors(x0); }), [&] { return what + pbt::str(" ", bad_index, " accepted in an evaluation"); });
  }
  c.label(what);
  c.nontrivial();
}

struct Shape {
  Index g_rows, g_cols, c, a_rows, a_cols, b;
};

// Quadratic programs of inconsistent dimensions, for both solvers.
void QPDims(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 5;
  o.n_large = 8;
  const gen::QPCase q = gen::MakeQP(c.src, o);
  QP qp = q.qp;
  const Index n = q.N(), k = q.K();
  auto other = [&](Index v) {
    const Index w = c.src.integer(0, 2 * static_cast<int>(v) + 2);
    return w == v ? v + 1 : w;
  };
  std::string what;
  auto grow = [](MatrixXd& m, Index r, Index cc) {
    MatrixXd t = MatrixXd::Constant(r, cc, 0.25);
    const Index a = std::min(r, m.rows()), b = std::min(cc, m.cols());
    t.topLeftCorner(a, b) = m.topLeftCorner(a, b);
    m = t;
  };
  auto growv = [](VectorXd& v, Index r) {
    VectorXd t = VectorXd::Constant(r, 0.25);
    t.head(std::min(r, v.size())) = v.head(std::min(r, v.size()));
    v = t;
  };
  bool ip_only = false;
  switch (c.src.draw(5)) {
    case 0: grow(qp.G, other(n), n), what = "rows of G"; break;
    case 1: grow(qp.G, n, other(n)), what = "columns of G"; break;
    case 2: growv(qp.c, other(n)), what = "size of c"; break;
    case 3: growv(qp.b_eq, other(k)), what = "size of b_eq"; break;
    case 4:
      if (k == 0) c.discard("no equalities");
      grow(qp.A_eq, k, other(n));
      what = "columns of A_eq";
      break;
    case 5: {
      const int bad = c.src.boolean() ? -1 - c.src.integer(0, 100) : static_cast<int>(n) + c.src.integer(0, 100);
      if (!qp.constraints.empty() && c.src.boolean())
        qp.constraints[c.src.draw(qp.constraints.size() - 1)].variable = bad;
      else
        qp.constraints.insert(qp.constraints.begin() + static_cast<long>(c.src.draw(qp.constraints.size())), LinearInequalityConstraint(bad, 1, 1));
      what = "constraint index";
      ip_only = true;
      break;
    }
  }
  c.describe([&](auto& os) { os << what << ": "; gen::Describe(os, qp); });
  c.require(Rejects([&] {
              QPInteriorPointSolver s;
              s.Setup(&qp);
            }), [&] { return "the interior point solver accepted a problem with inconsistent " + what; });
  c.require(Rejects([&] { QPInteriorPointSolver s(&qp); }), [&] { return "the interior point solver was made for a problem with inconsistent " + what; });
  if (!ip_only) {
    c.require(Rejects([&] {
                QPNullSpaceSolver s;
                (void)s.Solve(qp);
              }), [&] { return "the null-space solver accepted a problem with inconsistent " + what; });
    if (k == 0)
      c.require(Rejects([&] {
                  QPNullSpaceSolver s;
                  (void)s.Solve(q.qp);
                }), "the null-space solver accepted a problem without equality constraints");
  }
  // A solver keeps the problem and the state it had.
  QPParams p{};
  p.max_iterations = 3;
  {
    QPInteriorPointSolver s;
    const int history = c.src.integer(0, 3);  // no problem, a problem, a solved problem, a problem that is then changed in place
    QP own = q.qp;
    if (history > 0) s.Setup(history == 3 ? &own : &q.qp);
    if (history > 1) (void)Rejects([&] { (void)s.Solve(p); });
    const VectorXd kept = s.variables();
    if (history == 3) {
      own = qp;
      c.require(Rejects([&] { s.Setup(&own); }), "accepted a problem that was made malformed after it had been set up");
      own = q.qp;
    }
    c.require(Rejects([&] { c.src.boolean() ? s.Setup(&qp) : s.Setup(nullptr); }), "accepted a malformed problem");
    if (history == 0) {
      c.require(Rejects([&] { (void)s.problem(); }) && Rejects([&] { (void)s.Solve(p); }), "a solver that rejected its only problem has one");
    } else {
      c.require(&s.problem() == (history == 3 ? &own : &q.qp), "a rejected problem replaced the one set before");
      if (history > 1) c.require(ref::BitEqual(s.variables(), kept), "rejecting a problem changed the state");
      QPInteriorPointSolver f(&q.qp);
      const bool a = Rejects([&] { (void)s.Solve(p); }), b = Rejects([&] { (void)f.Solve(p); });  // a factorization may fail
      c.require(a == b && ref::BitEqual(s.variables(), f.variables()), "a solver that rejected a problem solves its own differently");
    }
  }
  // Both solvers recover with a valid problem.
  QPInteriorPointSolver used, fresh;
  (void)Rejects([&] { used.Setup(&qp); });
  used.Setup(&q.qp);
  fresh.Setup(&q.qp);
  const bool t0 = Rejects([&] { (void)used.Solve(p); }), t1 = Rejects([&] { (void)fresh.Solve(p); });  // a factorization may fail
  c.require(t0 == t1, "a solver that rejected a problem solves the next one differently");
  c.require(ref::BitEqual(used.variables(), fresh.variables()), "a solver that rejected a problem solves the next one differently");
  if (k > 0) {
    QPNullSpaceSolver u, f;
    (void)Rejects([&] { (void)u.Solve(qp); });
    const auto ru = u.Solve(q.qp), rf = f.Solve(q.qp);
    c.require(ru == rf && ref::BitEqual(u.variables(), f.variables()), "a null-space solver that rejected a problem solves the next one differently");
  }
  c.label(what);
  c.nontrivial();
}

void QPUse(pbt::Case& c) {
  const gen::QPCase q = gen::MakeQP(c.src, {});
  QPParams p = gen::QPParams(c.src, 4);
  c.describe([&](auto& os) { gen::Describe(os, q.qp); gen::Describe(os, p); });
  QPInteriorPointSolver s;
  c.require(Rejects([&] { (void)s.Solve(p); }), "solved without a problem");
  c.require(Rejects([&] { (void)s.problem(); }), "problem() without a problem");
  c.require(Rejects([&] { s.Setup(nullptr); }), "accepted a null problem");
  s.Setup(&q.qp);
  c.require(&s.problem() == &q.qp, "problem() is another problem");
  std::string what;
  QPParams bad = p;
  const bool nan = c.src.chance(1, 8);
  auto v = [&](double x) { return nan ? kNaN : x; };
  switch (c.src.draw(5)) {
    case 0: bad.initial_mu = v(AtOrBelow(c.src, 0)), what = "initial_mu"; break;
    case 1: bad.sigma = v(AtOrBelow(c.src, 0)), what = "sigma"; break;
    case 2: bad.sigma = v(Above(c.src, 1)), what = "sigma"; break;
    case 3: bad.termination_kkt_tol = v(AtOrBelow(c.src, 0)), what = "termination_kkt_tol"; break;
    case 4: bad.max_iterations = IntBelow(c.src, 1), what = "max_iterations"; break;
    default: {
      const int total = q.N() + 2 * q.M() + q.K();
      int size = c.src.integer(0, 2 * total + 1);
      if (size == total) size = total + 1;
      what = "size of the variables";
      bad.initial_guess_method = c.src.boolean() ? InitialGuessMethod::USER_PROVIDED : p.initial_guess_method;
      c.require(Rejects([&] {
                  s.SetVariables(VectorXd::Constant(size, 1.0));
                  (void)s.Solve(bad);
                }), [&] { return pbt::str("accepted ", size, " variables, the problem has ", total); });
      s.SetVariables(VectorXd::Constant(total, 1.0));
      break;
    }
  }
  c.label(what);
  if (what != "size of the variables") c.require(Rejects([&] { (void)s.Solve(bad); }), [&] { return "accepted an invalid " + what; });
  QPInteriorPointSolver fresh(&q.qp);
  const bool t0 = Rejects([&] { (void)s.Solve(p); }), t1 = Rejects([&] { (void)fresh.Solve(p); });  // a factorization may fail
  c.require(t0 == t1, "a solver that rejected a call solves differently afterwards");
  c.require(ref::BitEqual(s.variables(), fresh.variables()), "a solver that rejected a call solves differently afterwards");
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C26";
  p.rule =
      "valid problems and parameters with one thing made invalid: a parameter outside its range (just outside, far outside, NaN), a guess of the "
      "wrong size, an index outside the variables, inconsistent dimensions, a null or empty problem, use without a problem; parameters at the ends "
      "of their ranges must be accepted. Under the address and undefined behaviour sanitizers. Non-trivial: every case that was not discarded";
  p.facets = {
      {"nls calls", NLS, 12000, 1000000, 0.3},
      {"nls limits", Limits, 8000, 800000, 0.3},
      {"nls problems", Problems, 12000, 1000000},
      {"qp dimensions", QPDims, 12000, 1000000},
      {"qp calls", QPUse, 12000, 1000000},
  };
  return p;
}
