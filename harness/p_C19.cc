// build: nls plain
// C19: problems with a known answer are solved: linear ones always, standard nonlinear ones nearly always.
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>

#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::LMat;
using nls::LVec;
using nls::MatrixXd;
using nls::VectorXd;
using LD = long double;
using Params = ConstrainedNonlinearLeastSquares::Params;
using Eigen::Matrix;
using Eigen::Vector2d;

namespace {

// Parameters a user might choose; tolerances tight.
Params Sane(pbt::Source& s, const int iterations) {
  Params p{};
  p.max_iterations = iterations;
  p.max_qp_iterations = 10 + s.integer(0, 20);
  p.relative_exit_tol = s.boolean() ? 1e-5 : s.logreal(1e-10, 1e-5);
  p.absolute_first_derivative_tol = s.boolean() ? 1e-6 : s.logreal(1e-10, 1e-6);
  p.max_line_search_iterations = s.integer(2, 8);
  p.line_search_strategy = s.boolean() ? LineSearchStrategy::POLYNOMIAL_APPROXIMATION : LineSearchStrategy::ARMIJO_BACKTRACK;
  p.armijo_search_tau = s.boolean() ? 0.8 : 0.5;
  p.max_lambda = s.boolean() ? 1.0 : 100.0;
  return p;
}

bool Satisfied(const nls::Run& r) {
  return TerminationStateIndicatesSatisfiedTol(r.term());
}

// Linear least squares, with or without linear equalities: the first step is the answer.
void Linear(pbt::Case& c) {
  nls::Opts o;
  o.nonlinear = o.eq_nonlinear = 0;
  o.bounds = false;
  o.n_usual = 6;
  o.n_large = 20;
  const nls::Spec spec = nls::Make(c.src, o);
  Params p = Sane(c.src, c.src.integer(3, 10));
  if (c.src.boolean()) p.log_qp_eigenvalues = true;
  // The same problem in another unit of length.
  const double unit = c.src.chance(1, 3) ? std::exp2(c.src.integer(-16, 24)) : 1.0;
  nls::Spec given = spec;
  given.x0 *= unit;
  for (auto* terms : {&given.costs, &given.eqs})
    for (auto& t : *terms) t.f.B /= unit;
  c.describe([&](auto& os) { os << "unit " << unit << "\n", nls::Describe(os, given), nls::Describe(os, p); });
  const ref::Model m(nls::SubProblem(spec, spec.x0, 0.0));
  const ref::EqMin e = ref::EqualityMin(m);
  if (!e.ok || e.cond > 1e8) c.discard("ill-conditioned");
  const Problem problem = given.Build();
  nls::Recorder rec(&problem);
  nls::Run r = rec.Solve(p, given.x0);
  c.require(!r.threw, [&] { return nls::Why(r); });
  r.x /= unit;
  if (unit > 1000) c.label("large unit");
  const VectorXd want = spec.x0 + e.x;
  const double tol = 1e-12 * e.cond * (1 + m.G.norm()) * (1 + want.norm() + spec.x0.norm() + e.y.norm());
  if (r.its.size() == 1 && r.term() == NLSTerminationState::SATISFIED_FIRST_ORDER_TOL && e.x.norm() * std::sqrt(e.x.dot(m.G * e.x)) < 1e-2 * (1 + e.x.norm()))
    c.discard("the start is stationary within the tolerance");
  c.require((r.x - want).norm() <= tol, [&] { return pbt::str("result ", gen::Fmt(r.x.transpose()), ", the minimizer is ", gen::Fmt(want.transpose()), ", ended with ", nls::Name(r.term())); });
  c.require(Satisfied(r), [&] { return pbt::str("ended with ", nls::Name(r.term()), " after ", r.its.size(), " iterations of a linear problem"); });
  c.require(r.its.size() <= 3, [&] { return pbt::str("needed ", r.its.size(), " iterations for a linear problem"); });
  c.nontrivial();
  c.label(spec.eqs.empty() ? "unconstrained" : spec.K() == spec.n ? "fully determined" : "equalities");
}

// Linear least squares within bounds.
void Bounded(pbt::Case& c) {
  nls::Opts o;
  o.nonlinear = 0;
  o.equalities = false;
  o.p_bounds = 2;
  o.n_usual = 3;
  o.n_large = 6;
  o.feasible_start = true;  // a start outside may be cheaper than every feasible point: there is no descent then
  nls::Spec spec = nls::Make(c.src, o);
  while (spec.bounds.size() > 6) spec.bounds.pop_back();
  Params p = Sane(c.src, 40);
  p.max_qp_iterations = 30;
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p); });
  for (const auto& b : spec.bounds)
    if (!b.IsFeasible(spec.x0[b.variable])) c.discard("start outside");
  const ref::Model m(nls::SubProblem(spec, spec.x0, 0.0));
  const ref::ActiveSet e = ref::Enumerate(m);
  if (!e.ok) c.discard("no reference");
  const Problem problem = spec.Build();
  nls::Recorder rec(&problem);
  const nls::Run r = rec.Solve(p, spec.x0);
  c.require(!r.threw, [&] { return nls::Why(r); });
  const VectorXd want = spec.x0 + e.x;
  const double f = nls::Evaluate(spec, r.x).f, best = nls::Evaluate(spec, want).f;
  const Eigen::SelfAdjointEigenSolver<MatrixXd> es(m.G);
  const double allowed = 2e-6 * static_cast<double>(m.M) + 1e-4 * best * p.relative_exit_tol / 1e-5 + 2e-6 + 1e-9 * (1 + best);
  c.worst("excess / allowed", (f - best) / allowed);
  c.require(f - best <= allowed, [&] { return pbt::str("result ", gen::Fmt(r.x.transpose()), " costs ", f, ", the minimizer ", gen::Fmt(want.transpose()), " costs ", best, ", ended with ", nls::Name(r.term())); });
  const double d = (r.x - want).norm();
  c.require(d <= std::sqrt(2 * allowed / es.eigenvalues()[0]) + 1e-6, [&] { return pbt::str("result ", gen::Fmt(r.x.transpose()), ", the minimizer is ", gen::Fmt(want.transpose())); });
  for (std::size_t j = 0; j < spec.bounds.size(); ++j)
    c.require(spec.bounds[j].a * r.x[spec.bounds[j].variable] + spec.bounds[j].b >= -1e-7, [&] { return pbt::str("result violates bound ", j); });
  if (Satisfied(r)) c.label("satisfied");
  if (e.z.maxCoeff() > 1e-6) c.nontrivial();
}

// Fewer residuals than unknowns, every unknown in a box that holds a solution: solved without damping.
void Boxed(pbt::Case& c) {
  const int n = c.src.integer(2, 6), rows = c.src.integer(1, std::min(n - 1, 3));
  nls::Spec spec;
  spec.n = n;
  nls::Term t;
  for (int i = 0; i < n; ++i) t.idx.push_back(i);
  t.f.B = gen::FullRowRank(c.src, rows, n);
  const VectorXd lo = gen::Vec(c.src, n, -10, 0), hi = gen::Vec(c.src, n, 0, 10);
  VectorXd x0(n), sol(n);
  for (int i = 0; i < n; ++i) {
    const double l = lo[i] - 1, h = hi[i] + 1;
    spec.bounds.push_back(Var(i) >= l);
    spec.bounds.push_back(Var(i) <= h);
    x0[i] = l + (h - l) * c.src.mag(0.05, 0.95);
    sol[i] = l + (h - l) * c.src.mag(0.05, 0.95);
  }
  t.f.a = -t.f.B * sol;
  t.f.k = t.f.e = t.f.s = VectorXd::Zero(rows);
  t.f.V = t.f.U = t.f.dom = MatrixXd::Zero(rows, n);
  t.f.W = MatrixXd::Ones(rows, n);
  t.f.limit = VectorXd::Zero(rows);
  spec.costs.push_back(t);
  spec.x0 = x0;
  Params p = Sane(c.src, 40);
  p.max_qp_iterations = 30;
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p); });
  const Problem problem = spec.Build();
  nls::Recorder rec(&problem);
  const nls::Run r = rec.Solve(p, x0);
  c.require(!r.threw, [&] { return nls::Why(r); });
  const double f = nls::Evaluate(spec, r.x).f, f0 = nls::Evaluate(spec, x0).f;
  const double allowed = 1e-5 * (1 + f0);
  c.worst("cost / allowed", f / allowed);
  c.require(f <= allowed, [&] { return pbt::str("result ", gen::Fmt(r.x.transpose()), " costs ", f, ", a solution is ", gen::Fmt(sol.transpose()), ", ended with ", nls::Name(r.term())); });
  for (std::size_t j = 0; j < spec.bounds.size(); ++j)
    c.require(spec.bounds[j].a * r.x[spec.bounds[j].variable] + spec.bounds[j].b >= -1e-7, [&] { return pbt::str("result violates bound ", j); });
  c.nontrivial();
}

// Fixed families with known answers.
struct Outcome {
  bool ok{false};
  std::string what;
};
struct Family {
  const char* name;
  double min_rate;
  std::function<Outcome(pbt::Source&)> one;
};

template <int R, int P, typename F>
Residual Make(F f) {
  std::array<int, P> idx{};
  for (int i = 0; i < P; ++i) idx[static_cast<std::size_t>(i)] = i;
  return MakeResidual<R, P>(idx, f);
}
Outcome SolveFrom(const Problem& problem, const Params& p, const VectorXd& x0, const std::function<bool(const nls::Run&)>& good) {
  nls::Recorder rec(&problem);
  const nls::Run r = rec.Solve(p, x0);
  Outcome o;
  o.ok = !r.threw && r.x.allFinite() && good(r);
  if (!o.ok) {
    std::ostringstream os;
    os.precision(17);
    nls::Describe(os, p);
    os << "from " << gen::Fmt(x0.transpose()) << " to " << gen::Fmt(r.x.transpose()) << " " << (r.threw ? nls::Why(r) : nls::Name(r.term()));
    o.what = os.str();
  }
  return o;
}

Residual Rosen(const double scale) {
  return Make<2, 2>([scale](const Vector2d& x, Matrix<double, 2, 2>* J) -> Vector2d {
    if (J) *J << -1, 0, -2 * scale * x[0], scale;
    return {1 - x[0], scale * (x[1] - x[0] * x[0])};
  });
}
Outcome Rosenbrock(pbt::Source& s) {
  Problem q{};
  q.dimension = 2;
  q.costs.push_back(Rosen(s.mag(2, 12)));
  const VectorXd x0 = gen::Vec(s, 2, -2, 2);
  return SolveFrom(q, Sane(s, 100), x0, [](const nls::Run& r) { return Satisfied(r) && (r.x - VectorXd::Ones(2)).norm() < 1e-2; });
}
Outcome RosenbrockDamped(pbt::Source& s) {
  Problem q{};
  q.dimension = 2;
  q.costs.push_back(Rosen(s.mag(2, 12)));
  Params p = Sane(s, 300);
  p.max_line_search_iterations = 0;
  p.lambda_initial = 1e-3;
  p.lambda_failure_init = 1e-2;
  p.max_lambda = 1e8;
  p.relative_exit_tol = 1e-10;
  const VectorXd x0 = gen::Vec(s, 2, -2, 2);
  return SolveFrom(q, p, x0, [](const nls::Run& r) { return Satisfied(r) && (r.x - VectorXd::Ones(2)).norm() < 1e-2; });
}
// x[0] >= lo > 1: the optimum is at (lo, lo^2).
Outcome RosenbrockBounded(pbt::Source& s) {
  Problem q{};
  q.dimension = 2;
  q.costs.push_back(Rosen(10));
  const double lo = s.mag(1.05, 1.5);
  q.inequality_constraints.push_back(Var(0) >= lo);
  Params p = Sane(s, 100);
  p.max_qp_iterations = 30;
  VectorXd x0 = gen::Vec(s, 2, -2, 2);
  if (s.boolean()) x0[0] = lo + s.unit();
  return SolveFrom(q, p, x0, [lo](const nls::Run& r) { return (r.x - Vector2d(lo, lo * lo)).norm() < 2e-2 && r.x[0] > lo - 1e-6; });
}
Outcome Himmelblau(pbt::Source& s) {
  Problem q{};
  q.dimension = 2;
  q.costs.push_back(Make<2, 2>([](const Vector2d& x, Matrix<double, 2, 2>* J) -> Vector2d {
    if (J) *J << 2 * x[0], 1, 1, 2 * x[1];
    return {x[0] * x[0] + x[1] - 11, x[0] + x[1] * x[1] - 7};
  }));
  Params p = Sane(s, 100);
  p.max_lambda = 1e4;
  const VectorXd x0 = gen::Vec(s, 2, -5, 5);
  return SolveFrom(q, p, x0, [](const nls::Run& r) {
    const std::vector<Vector2d> sols{{3, 2}, {-2.805118, 3.131312}, {-3.779310, -3.283186}, {3.584428, -1.848126}};
    for (const auto& v : sols)
      if ((r.x - v).norm() < 1e-3) return Satisfied(r);
    return false;
  });
}
// Nearest point of the unit sphere.
Outcome Sphere(pbt::Source& s) {
  using V3 = Eigen::Vector3d;
  V3 t = gen::Vec(s, 3, -2, 2);
  if (t.norm() < 0.3) t = V3(0.5, 0, 0.5);
  Problem q{};
  q.dimension = 3;
  q.costs.push_back(Make<3, 3>([t](const V3& x, Matrix<double, 3, 3>* J) -> V3 {
    if (J) J->setIdentity();
    return x - t;
  }));
  q.equality_constraints.push_back(Make<1, 3>([](const V3& x, Matrix<double, 1, 3>* J) -> Matrix<double, 1, 1> {
    if (J) *J = 2 * x.transpose();
    return Matrix<double, 1, 1>(x.squaredNorm() - 1);
  }));
  Params p = Sane(s, 100);
  p.relative_exit_tol = 1e-9;
  VectorXd x0 = t + gen::Vec(s, 3, -0.5, 0.5);
  if (x0.norm() < 0.3) x0 = t;
  return SolveFrom(q, p, x0, [t](const nls::Run& r) { return (r.x - t.normalized()).norm() < 1e-2 && std::abs(r.x.norm() - 1) < 1e-3; });
}
// Nearest point of the unit circle within a half plane: both kinds of constraints.
Outcome Arc(pbt::Source& s) {
  const double limit = s.mag(0.1, 0.7);
  const Vector2d t(s.mag(0.8, 2.0), s.mag(0.05, 0.3));
  Problem q{};
  q.dimension = 2;
  q.costs.push_back(Make<2, 2>([t](const Vector2d& x, Matrix<double, 2, 2>* J) -> Vector2d {
    if (J) J->setIdentity();
    return x - t;
  }));
  q.equality_constraints.push_back(Make<1, 2>([](const Vector2d& x, Matrix<double, 1, 2>* J) -> Matrix<double, 1, 1> {
    if (J) *J = 2 * x.transpose();
    return Matrix<double, 1, 1>(x.squaredNorm() - 1);
  }));
  q.inequality_constraints.push_back(Var(0) <= limit);
  Params p = Sane(s, 100);
  p.max_qp_iterations = 30;
  VectorXd x0(2);
  x0 << s.mag(0.0, limit), s.mag(0.5, 1.2);
  return SolveFrom(q, p, x0, [limit](const nls::Run& r) { return (r.x - Vector2d(limit, std::sqrt(1 - limit * limit))).norm() < 2e-2; });
}
// Generated mildly nonlinear problems reach a stationary point of the constrained problem.
Outcome Mild(pbt::Source& s, const bool equalities) {
  nls::Opts o;
  o.nonlinear = 0.5;
  o.eq_nonlinear = 0.2;
  o.p_eq = equalities ? 2 : -1;
  o.bounds = false;
  nls::Spec spec;
  do {
    spec = nls::Make(s, o);
  } while (!nls::FiniteAt(spec, spec.x0));
  Params p = Sane(s, 200);
  p.max_lambda = 1e6;
  p.relative_exit_tol = 1e-10;
  const Problem problem = spec.Build();
  return SolveFrom(problem, p, spec.x0, [&](const nls::Run& r) {
    const nls::Local l = nls::Linearize(spec, r.x);
    const VectorXd g = (l.J.transpose() * l.r).cast<double>();
    if (!equalities) return g.norm() <= 1e-2 * (1 + nls::D(l.J.norm()));
    const MatrixXd A = l.A.cast<double>();
    const Eigen::JacobiSVD<MatrixXd> svd(A, Eigen::ComputeFullU | Eigen::ComputeFullV);
    const Index rank = svd.singularValues().size();
    const VectorXd rg = svd.matrixV().rightCols(spec.n - rank).transpose() * g;
    return nls::D(l.eq) <= 1e-4 && rg.norm() <= 1e-2 * (1 + nls::D(l.J.norm()));
  });
}
// Fewer residuals than unknowns: damping makes the problem solvable.
Outcome Under(pbt::Source& s) {
  const int n = s.integer(2, 5), rows = s.integer(1, 2);
  nls::Spec spec;
  spec.n = n;
  nls::Term t;
  for (int i = 0; i < n; ++i) t.idx.push_back(i);
  t.f.a = gen::Vec(s, rows, -3, 3);
  t.f.k = t.f.e = VectorXd::Zero(rows);
  t.f.s = gen::Vec(s, rows, -0.3, 0.3);
  t.f.B = gen::FullRowRank(s, rows, n);
  t.f.V = t.f.U = t.f.dom = MatrixXd::Zero(rows, n);
  t.f.W = MatrixXd::Ones(rows, n);
  t.f.limit = VectorXd::Zero(rows);
  spec.costs.push_back(t);
  const VectorXd x0 = gen::Vec(s, n, -2, 2);
  Params p = Sane(s, 100);
  p.lambda_initial = 1e-3;
  p.min_lambda = 1e-6;
  p.absolute_exit_tol = 1e-9;
  const Problem problem = spec.Build();
  return SolveFrom(problem, p, x0, [&](const nls::Run& r) { return nls::Evaluate(spec, r.x).f < 1e-4; });
}

void Batch(pbt::Case& c, const Family& f) {
  const int n = 100;
  int ok = 0;
  std::string first;
  for (int i = 0; i < n; ++i) {
    const Outcome o = f.one(c.src);
    ok += o.ok;
    if (!o.ok && first.empty()) first = o.what;
  }
  c.describe([&](auto& os) { os << f.name << ": " << ok << " of " << n << " solved; first failure: " << first << "\n"; });
  c.worst("failed of 100", n - ok);
  c.label("solved/100: " + std::to_string(ok / 5 * 5));
  c.require(ok >= f.min_rate * n, [&] { return pbt::str(f.name, ": only ", ok, " of ", n, " problems were solved, at least ", f.min_rate * n, " expected; first failure: ", first); });
  c.nontrivial();
}

// Problems the solver documents as supported never make it throw.
void NeverThrows(pbt::Case& c) {
  nls::Opts o;
  const int kind = c.src.integer(0, 2);
  o.equalities = kind == 1;
  o.bounds = kind == 2;
  o.p_eq = o.p_bounds = 2;
  o.nonlinear = c.src.boolean() ? 1.0 : 6.0;
  o.undefined = c.src.chance(1, 4);
  nls::Spec spec = nls::Make(c.src, o);
  const Params p = nls::NLSParams(c.src, 15);
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p); });
  if (!nls::FiniteAt(spec, spec.x0)) c.discard("cost not finite at the start");
  const Problem problem = spec.Build();
  nls::Recorder rec(&problem);
  const nls::Run r = rec.Solve(p, spec.x0);
  if (r.threw && nls::Evaluate(spec, r.x).f > 1e100) c.discard("overflow");
  c.require(!r.threw, [&] { return nls::Why(r); });
  c.require(r.x.allFinite(), [&] { return "result is not finite: " + gen::Fmt(r.x.transpose()); });
  c.nontrivial();
  c.label(kind == 0 ? "unconstrained" : kind == 1 ? "equalities" : "bounds");
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C19";
  p.rule =
      "linear least squares problems compared with an independent dense solve or, with bounds, with the best of all active sets; batches of "
      "100 nonlinear problems of a family with a known answer. Non-trivial: every linear problem, bounded ones with an active bound, every batch";
  p.assumptions = {"Gauss-Newton with a line search has no global guarantee: for nonlinear families a rate is required, well below the rate observed"};
  p.facets = {
      {"linear", Linear, 200000, 6000000, 0.3},
      {"bounded", Bounded, 120000, 2000000, 0.3},
      {"boxed", Boxed, 60000, 1000000, 0.0},
      {"never throws", NeverThrows, 200000, 4000000, 0.3},
  };
  const std::vector<Family> fs{
      {"rosenbrock", 0.9, Rosenbrock},       {"rosenbrock damped", 0.95, RosenbrockDamped}, {"rosenbrock bounded", 0.72, RosenbrockBounded},
      {"himmelblau", 0.85, Himmelblau},       {"sphere", 0.78, Sphere},                      {"arc", 0.95, Arc},
      {"underdetermined", 0.95, Under},       {"mild", 0.93, [](Source& s) { return Mild(s, false); }}, {"mild equalities", 0.92, [](Source& s) { return Mild(s, true); }},
  };
  for (const Family& f : fs) p.facets.push_back({f.name, [f](Case& c) { Batch(c, f); }, 400, 12000, 0});
  return p;
}
