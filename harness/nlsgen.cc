#include "nlsgen.hpp"

#include <algorithm>
#include <array>
#include <cstring>
#include <stdexcept>

namespace nls {

using namespace mini_opt;
using NLSParamsT = ConstrainedNonlinearLeastSquares::Params;

thread_local Probe* probe = nullptr;

template <int R, int P>
static Residual BuildRP(const Term& t) {
  auto f = [own = t.live ? t.live : std::make_shared<const Function>(t.f), id = t.id](const Eigen::Matrix<double, P, 1>& p, Eigen::Matrix<double, R, P>* J) -> Eigen::Matrix<double, R, 1> {
    const Function& fn = *own;
    const VectorXd q = p;
    if (probe) probe->call(id, q, J != nullptr);
    if (J) {
      if (J->rows() != fn.R() || J->cols() != fn.P()) throw std::logic_error("the derivative handed to a function has the wrong size");
      const MatrixXd all = fn.Jac<double>(q);
      for (Index i = 0; i < all.rows(); ++i)
        for (Index j = 0; j < all.cols(); ++j) (*J)(i, j) = all(i, j);
    }
    return fn.Value<double>(q);
  };
  if constexpr (P == Eigen::Dynamic) {
    return MakeResidual<R, P>(t.idx, f);
  } else {
    std::array<int, static_cast<std::size_t>(P)> a{};
    for (std::size_t i = 0; i < a.size(); ++i) a[i] = t.idx[i];
    return MakeResidual<R, P>(a, f);
  }
}
template <int R>
static Residual BuildR(const Term& t) {
  if (t.fixed) {
    if (t.idx.size() == 1) return BuildRP<R, 1>(t);
    if (t.idx.size() == 2) return BuildRP<R, 2>(t);
  }
  return BuildRP<R, Eigen::Dynamic>(t);
}
Residual Term::Build() const {
  switch (f.R()) {
    case 1: return BuildR<1>(*this);
    case 2: return BuildR<2>(*this);
    case 3: return BuildR<3>(*this);
    case 7: return BuildRP<7, Eigen::Dynamic>(*this);
  }
  throw std::logic_error("residual size");
}

Problem Spec::Build() const {
  Problem p{};
  p.dimension = n;
  int id = 0;
  auto build = [&](Term t) {
    t.id = id++;
    return t.Build();
  };
  for (const auto& t : costs) p.costs.push_back(build(t));
  for (const auto& t : eqs) p.equality_constraints.push_back(build(t));
  p.inequality_constraints = bounds;
  return p;
}
int Spec::K() const {
  Index k = 0;
  for (const auto& t : eqs) k += t.f.R();
  return static_cast<int>(k);
}

template <typename T>
static Eigen::Matrix<T, Eigen::Dynamic, 1> Gather(const VectorXd& x, const std::vector<int>& idx) {
  Eigen::Matrix<T, Eigen::Dynamic, 1> p(static_cast<Index>(idx.size()));
  for (std::size_t i = 0; i < idx.size(); ++i) p[static_cast<Index>(i)] = static_cast<T>(x[idx[i]]);
  return p;
}

Local Linearize(const Spec& p, const VectorXd& x) {
  Local l;
  auto stack = [&](const std::vector<Term>& ts, LVec* v, LMat* J) {
    Index rows = 0;
    for (const auto& t : ts) rows += t.f.R();
    v->resize(rows);
    *J = LMat::Zero(rows, p.n);
    Index row = 0;
    for (const auto& t : ts) {
      // Evaluated in double as the user's function is, combined in long double.
      const VectorXd q = Gather<double>(x, t.idx);
      v->segment(row, t.f.R()) = t.f.Value<double>(q).cast<long double>();
      const LMat Jt = t.f.Jac<double>(q).cast<long double>();
      for (std::size_t j = 0; j < t.idx.size(); ++j) J->block(row, t.idx[j], t.f.R(), 1) += Jt.col(static_cast<Index>(j));
      row += t.f.R();
    }
  };
  stack(p.costs, &l.r, &l.J);
  stack(p.eqs, &l.g, &l.A);
  l.f = l.r.squaredNorm() / 2;
  l.eq = l.g.cwiseAbs().sum();
  return l;
}

Errors Evaluate(const Spec& p, const VectorXd& x) {
  long double f = 0, eq = 0;
  for (const auto& t : p.costs) f += t.f.Value<double>(Gather<double>(x, t.idx)).cast<long double>().squaredNorm() / 2;
  for (const auto& t : p.eqs) eq += t.f.Value<double>(Gather<double>(x, t.idx)).cast<long double>().cwiseAbs().sum();
  Errors e{};
  e.f = static_cast<double>(f);
  e.equality = static_cast<double>(eq);
  return e;
}
bool FiniteAt(const Spec& p, const VectorXd& x) {
  const Errors e = Evaluate(p, x);
  return std::isfinite(e.f) && std::isfinite(e.equality);
}

QP SubProblem(const Spec& p, const VectorXd& x, const double lambda) {
  const Local l = Linearize(p, x);
  QP qp(p.n);
  LMat G = l.J.transpose() * l.J;
  G.diagonal().array() += static_cast<long double>(lambda);
  qp.G = G.cast<double>();
  qp.c = (l.J.transpose() * l.r).cast<double>();
  if (l.g.size() > 0) {
    qp.A_eq = l.A.cast<double>();
    qp.b_eq = l.g.cast<double>();
  }
  for (const auto& b : p.bounds)
    qp.constraints.emplace_back(b.variable, b.a, D(static_cast<long double>(b.a) * x[b.variable] + static_cast<long double>(b.b)));
  return qp;
}

static Function Blank(Index R, Index P) {
  Function f;
  f.a = f.k = f.s = f.e = VectorXd::Zero(R);
  f.B = f.V = f.W = f.U = f.dom = MatrixXd::Zero(R, P);
  f.limit = VectorXd::Zero(R);
  return f;
}

static std::vector<int> PickIdx(pbt::Source& s, int n, int p) {
  std::vector<int> all(static_cast<std::size_t>(n));
  for (int i = 0; i < n; ++i) all[static_cast<std::size_t>(i)] = i;
  std::vector<int> out;
  for (int i = 0; i < p; ++i) {
    std::swap(all[static_cast<std::size_t>(i)], all[static_cast<std::size_t>(s.integer(i, n - 1))]);
    out.push_back(all[static_cast<std::size_t>(i)]);
  }
  return out;
}

static void Nonlinear(pbt::Source& s, Function& f, double amount) {
  if (amount == 0) return;
  for (Index i = 0; i < f.R(); ++i) {
    const int kinds = s.integer(0, 7);
    if (kinds & 1) {
      f.k[i] = amount * s.real(-1, 1);
      for (Index j = 0; j < f.P(); ++j) f.V(i, j) = s.real(-1, 1);
    }
    if (kinds & 2) {
      f.s[i] = amount * s.real(-2, 2);
      for (Index j = 0; j < f.P(); ++j) f.W(i, j) = s.real(-2, 2);
    }
    if (kinds & 4 && s.boolean()) {
      f.e[i] = amount * s.real(-1, 1);
      for (Index j = 0; j < f.P(); ++j) f.U(i, j) = s.real(-0.4, 0.4);
    }
  }
}

Spec Make(pbt::Source& s, const Opts& o) {
  Spec p;
  const int n = gen::Size(s, 1, o.n_usual, o.n_large);
  p.n = n;
  p.anchor = gen::Vec(s, n, -2, 2);
  const int nc = s.integer(o.full_rank ? 0 : 1, s.chance(1, 24) ? 9 : 3);
  for (int t = 0; t < nc; ++t) {
    Term c;
    const int R = s.chance(1, 12) ? 7 : s.integer(1, 3), P = s.integer(1, s.chance(1, 12) ? n : std::min(n, 4));
    c.idx = PickIdx(s, n, P);
    // Some residuals list a variable twice. The two derivatives do not cancel.
    const bool twice = P > 1 && s.chance(1, 24);
    if (twice) c.idx[static_cast<std::size_t>(P - 1)] = c.idx[0];
    c.fixed = s.boolean();
    c.f = Blank(R, P);
    for (int i = 0; i < R; ++i) {
      c.f.a[i] = s.real(-3, 3);
      for (int j = 0; j < P; ++j) c.f.B(i, j) = s.real(-3, 3);
      if (twice) c.f.B(i, P - 1) = std::copysign(c.f.B(i, P - 1), c.f.B(i, 0));
    }
    if (!twice) Nonlinear(s, c.f, o.nonlinear);
    if (o.undefined && s.chance(2, 3)) {
      c.f.undefined = s.boolean() ? std::nan("") : std::numeric_limits<double>::infinity();
      for (int i = 0; i < R; ++i) {
        for (int j = 0; j < P; ++j) c.f.dom(i, j) = s.boolean() ? s.nonzero(0.3, 1.0) : 0.0;
        // keep the anchor inside the domain
        double d = 0;
        for (int j = 0; j < P; ++j) d += c.f.dom(i, j) * p.anchor[c.idx[static_cast<std::size_t>(j)]];
        c.f.limit[i] = d + s.mag(0.01, 3.0);
      }
    }
    p.costs.push_back(c);
  }
  if (o.full_rank) {
    // (x - target) * w for every variable
    for (int v = 0; v < n; ++v) {
      Term c;
      c.idx = {v};
      c.fixed = s.boolean();
      c.f = Blank(1, 1);
      const double w = s.mag(0.3, 2.0);
      c.f.B(0, 0) = w;
      c.f.a[0] = w * s.real(-4, 4);
      p.costs.insert(p.costs.begin() + s.integer(0, static_cast<int>(p.costs.size())), c);
    }
  }
  if (o.equalities && s.unit() < o.p_eq) {
    const int K = s.integer(1, s.chance(1, 8) ? n : std::max(1, n - 1));
    MatrixXd A = gen::FullRowRank(s, K, n);
    // Sometimes each constraint uses few of the variables: K of them have one constraint each. Not where a variable
    // may be without any cost and constraint then.
    const bool sparse = o.full_rank && s.chance(1, 6);
    if (sparse) {
      const std::vector<int> own = PickIdx(s, n, n);
      A.setZero();
      for (int i = 0; i < K; ++i) {
        A(i, own[static_cast<std::size_t>(i)]) = s.nonzero(1.0, 2.0);
        for (int j = K; j < n; ++j)
          if (s.chance(1, 3)) A(i, own[static_cast<std::size_t>(j)]) = s.real(-1, 1);
      }
    }
    int row = 0;
    while (row < K) {
      Term c;
      const int R = K - row >= 7 && s.boolean() ? 7 : std::min(K - row, s.integer(1, 3));
      c.idx = PickIdx(s, n, n);
      if (sparse) c.idx.erase(std::remove_if(c.idx.begin(), c.idx.end(), [&](int v) { return A.block(row, v, R, 1).isZero(0); }), c.idx.end());
      const int P = static_cast<int>(c.idx.size());
      c.fixed = s.boolean();
      c.f = Blank(R, P);
      for (int i = 0; i < R; ++i)
        for (int j = 0; j < P; ++j) c.f.B(i, j) = A(row + i, c.idx[static_cast<std::size_t>(j)]);
      Nonlinear(s, c.f, o.eq_nonlinear);
      c.f.a = -c.f.Value<double>(Gather<double>(p.anchor, c.idx));
      row += R;
      p.eqs.push_back(c);
    }
  }
  if (o.bounds && s.unit() < o.p_bounds) {
    const int m = s.integer(1, s.chance(1, 6) ? 2 * n + 2 : n + 1);
    for (int i = 0; i < m; ++i) {
      const int v = s.integer(0, n - 1);
      const double a = s.boolean() ? s.nonzero(0.2, 4.0) : (s.boolean() ? -1.0 : 1.0);
      p.bounds.emplace_back(v, a, s.mag(0.05, 3.0) - a * p.anchor[v]);
    }
  }
  p.x0 = p.anchor;
  const double away = s.chance(1, 6) ? 0.0 : s.chance(1, 4) ? 5.0 : 1.5;
  for (int v = 0; v < n; ++v) p.x0[v] += s.real(-away, away);
  if (o.feasible_start) {
    // move into the bounds, sometimes exactly onto them
    for (const auto& b : p.bounds)
      if (!b.IsFeasible(p.x0[b.variable])) p.x0[b.variable] = p.anchor[b.variable];
    if (s.chance(1, 6) && !p.bounds.empty()) {
      const auto& b = p.bounds[static_cast<std::size_t>(s.integer(0, static_cast<int>(p.bounds.size()) - 1))];
      const double old = p.x0[b.variable];
      p.x0[b.variable] = -b.b / b.a;
      for (const auto& k : p.bounds)
        if (k.variable == b.variable && !k.IsFeasible(p.x0[b.variable])) {
          p.x0[b.variable] = old;
          break;
        }
    }
  }
  return p;
}

std::string Edit(pbt::Source& s, Spec* p, Problem* built) {
  const int n = p->n;
  const int what = s.integer(0, 6);
  auto cost = [&](int R) {
    Term c;
    const int P = s.integer(1, std::min(n, 4));
    c.idx = PickIdx(s, n, P);
    c.f = Blank(R, P);
    for (int i = 0; i < R; ++i) {
      c.f.a[i] = s.real(-3, 3);
      for (int j = 0; j < P; ++j) c.f.B(i, j) = s.real(-3, 3);
    }
    Nonlinear(s, c.f, 1.0);
    return c;
  };
  const auto some = [&](std::size_t size) { return static_cast<std::ptrdiff_t>(s.integer(0, static_cast<int>(size) - 1)); };
  const auto bound = [&] {
    const int v = s.integer(0, n - 1);
    const double a = s.nonzero(0.2, 4.0);
    return LinearInequalityConstraint(v, a, s.mag(0.05, 3.0) - a * p->anchor[v]);
  };
  std::string done;
  switch (what) {
    case 0: {
      p->costs.push_back(cost(s.boolean() ? 7 : s.integer(1, 3)));
      built->costs.push_back(p->costs.back().Build());
      done = "cost added";
      break;
    }
    case 1: {
      if (p->costs.empty()) break;
      const auto i = some(p->costs.size());
      p->costs[static_cast<std::size_t>(i)] = cost(s.boolean() ? 7 : s.integer(1, 3));
      built->costs[static_cast<std::size_t>(i)] = p->costs[static_cast<std::size_t>(i)].Build();
      done = "cost replaced";
      break;
    }
    case 2: {
      if (p->costs.empty()) break;
      const auto i = some(p->costs.size());
      p->costs.erase(p->costs.begin() + i);
      built->costs.erase(built->costs.begin() + i);
      done = "cost removed";
      break;
    }
    case 3: {
      p->bounds.push_back(bound());
      done = "bound added";
      break;
    }
    case 4: {
      if (p->bounds.empty()) break;
      p->bounds.erase(p->bounds.begin() + some(p->bounds.size()));
      done = "bound removed";
      break;
    }
    case 5: {
      p->bounds.clear();
      done = "all bounds removed";
      break;
    }
    default: {
      // two equality constraints become one with as many rows
      if (p->eqs.size() < 2) break;
      const auto i = static_cast<std::size_t>(s.integer(0, static_cast<int>(p->eqs.size()) - 2));
      const Index rows = p->eqs[i].f.R() + p->eqs[i + 1].f.R();
      if (rows != 2 && rows != 3) break;
      Term c;
      c.idx = PickIdx(s, n, n);
      c.f = Blank(rows, n);
      const MatrixXd A = gen::FullRowRank(s, static_cast<int>(rows), n);
      for (Index r = 0; r < rows; ++r)
        for (int j = 0; j < n; ++j) c.f.B(r, j) = A(r, c.idx[static_cast<std::size_t>(j)]);
      c.f.a = -c.f.Value<double>(Gather<double>(p->anchor, c.idx));
      p->eqs.erase(p->eqs.begin() + static_cast<std::ptrdiff_t>(i));
      built->equality_constraints.erase(built->equality_constraints.begin() + static_cast<std::ptrdiff_t>(i));
      p->eqs[i] = c;
      built->equality_constraints[i] = c.Build();
      done = "equality constraints joined";
    }
  }
  built->inequality_constraints = p->bounds;
  return done;
}

static void Print(std::ostream& os, const char* name, const Term& t) {
  os << " " << name << (t.fixed ? " (fixed size)" : "") << " x[";
  for (int i : t.idx) os << " " << i;
  os << " ] a=" << gen::Fmt(t.f.a.transpose()) << " B=" << gen::Fmt(t.f.B);
  if (!t.f.k.isZero(0)) os << " k=" << gen::Fmt(t.f.k.transpose()) << " V=" << gen::Fmt(t.f.V);
  if (!t.f.s.isZero(0)) os << " s=" << gen::Fmt(t.f.s.transpose()) << " W=" << gen::Fmt(t.f.W);
  if (!t.f.e.isZero(0)) os << " e=" << gen::Fmt(t.f.e.transpose()) << " U=" << gen::Fmt(t.f.U);
  if (t.f.undefined != 0) os << " =" << t.f.undefined << " where dom*p > limit, dom=" << gen::Fmt(t.f.dom) << " limit=" << gen::Fmt(t.f.limit.transpose());
  os << "\n";
}

void Describe(std::ostream& os, const Spec& p) {
  os << "NLS n=" << p.n << " x0=" << gen::Fmt(p.x0.transpose()) << " (rows: a + B p + k/2 (V p)^2 + s sin(W p) + e exp(U p))\n";
  for (const auto& t : p.costs) Print(os, "cost", t);
  for (const auto& t : p.eqs) Print(os, "equality", t);
  for (const auto& b : p.bounds) os << " bound " << b.a << " * x[" << b.variable << "] + " << b.b << " >= 0\n";
}

NLSParamsT NLSParams(pbt::Source& s, int max_iters_hi) {
  NLSParamsT p{};
  p.max_iterations = s.integer(1, max_iters_hi);
  p.max_qp_iterations = s.chance(1, 4) ? s.integer(1, 5) : 10 + s.integer(0, 20);
  p.termination_kkt_tolerance = s.boolean() ? 1e-6 : s.logreal(1e-10, 1e-2);
  p.absolute_exit_tol = s.boolean() ? 1e-12 : s.logreal(1e-16, 1e-1);
  p.relative_exit_tol = s.boolean() ? 1e-5 : s.chance(1, 6) ? 0.0 : s.chance(1, 12) ? 1.0 : s.logreal(1e-12, 0.5);
  p.absolute_first_derivative_tol = s.boolean() ? 1e-6 : s.chance(1, 6) ? 0.0 : s.logreal(1e-14, 1.0);
  p.max_line_search_iterations = s.integer(0, s.chance(1, 4) ? 12 : 3);
  p.line_search_strategy = s.boolean() ? LineSearchStrategy::ARMIJO_BACKTRACK : LineSearchStrategy::POLYNOMIAL_APPROXIMATION;
  p.armijo_search_tau = s.boolean() ? 0.8 : s.mag(0.05, 0.97);
  p.equality_penalty_initial = s.boolean() ? 1.0 : s.logreal(1e-4, 1e2);
  p.equality_penalty_scale_factor = s.boolean() ? 1.01 : s.mag(1.0, 3.0);
  p.equality_penalty_rho = s.boolean() ? 0.1 : s.chance(1, 4) ? 0.0 : s.mag(0.0, 0.95);
  p.max_lambda = s.boolean() ? 1.0 : s.chance(1, 8) ? 0.0 : s.logreal(1e-3, 1e6);
  p.min_lambda = s.boolean() ? 0.0 : s.unit() * p.max_lambda;
  p.lambda_initial = s.boolean() ? p.min_lambda : p.min_lambda + s.unit() * (p.max_lambda - p.min_lambda);
  if (p.lambda_initial > p.max_lambda) p.lambda_initial = p.max_lambda;
  p.lambda_failure_init = s.boolean() ? 1e-2 : s.chance(1, 8) ? 0.0 : s.logreal(1e-6, 10.0);
  p.lambda_decrease_on_success = s.boolean() ? 0.1 : s.chance(1, 8) ? 0.0 : s.mag(0.0, 0.99);
  p.lambda_decrease_on_restore = s.boolean() ? 0.8 : s.chance(1, 8) ? 0.0 : s.mag(0.0, 0.99);
  p.log_qp_eigenvalues = s.chance(1, 4);
  return p;
}

void Describe(std::ostream& os, const NLSParamsT& p) {
  os << "params max_iterations=" << p.max_iterations << " max_qp_iterations=" << p.max_qp_iterations << " kkt_tol=" << p.termination_kkt_tolerance
     << " abs_tol=" << p.absolute_exit_tol << " rel_tol=" << p.relative_exit_tol << " deriv_tol=" << p.absolute_first_derivative_tol
     << " line_search=" << p.max_line_search_iterations << "/" << static_cast<int>(p.line_search_strategy) << " tau=" << p.armijo_search_tau
     << " penalty=" << p.equality_penalty_initial << "*" << p.equality_penalty_scale_factor << " rho=" << p.equality_penalty_rho
     << " lambda=" << p.lambda_initial << " in [" << p.min_lambda << ", " << p.max_lambda << "] failure_init=" << p.lambda_failure_init
     << " on_success=" << p.lambda_decrease_on_success << " on_restore=" << p.lambda_decrease_on_restore << " eigenvalues=" << p.log_qp_eigenvalues << "\n";
}

Recorder::Recorder(const Problem* problem) {
  solver_ = std::make_unique<ConstrainedNonlinearLeastSquares>(problem, [this](VectorXd& x, ConstVectorBlock dx, double alpha) {
    dx_ = dx;
    x += dx * alpha;
    trials_.push_back({alpha, x});
  });
}

Run Recorder::Solve(const NLSParamsT& p, const VectorXd& x0, const int stop_after) {
  Run r;
  r.x0 = x0;
  trials_.clear();
  VectorXd prev = x0;
  solver_->SetUserExitCallback([&](const NLSIteration& info) {
    Iteration it;
    it.info.emplace(info);
    it.x0 = prev;
    it.x1 = solver_->variables();
    it.dx = dx_;
    it.trials = std::move(trials_);
    trials_.clear();
    prev = it.x1;
    r.its.push_back(std::move(it));
    const bool stop = stop_after >= 0 && static_cast<int>(r.its.size()) == stop_after + 1;
    if (stop) r.callback_stopped = true;
    return !stop;
  });
  try {
    r.out.emplace(solver_->Solve(p, x0));
  } catch (const FailedFactorization& e) {
    r.threw = true;
    r.what = std::string("FailedFactorization: ") + e.what();
  } catch (const assert::default_error& e) {
    r.threw = true;
    r.what = e.what();
  }
  r.x = solver_->variables();
  solver_->SetUserExitCallback(std::function<bool(const NLSIteration&)>{});
  return r;
}

Run Solve(const Spec&, const Problem& problem, const NLSParamsT& p, const VectorXd& x0, const int stop_after) {
  Recorder rec(&problem);
  return rec.Solve(p, x0, stop_after);
}

Random MakeRun(pbt::Case& c, const Opts& o, const int max_iters, const std::function<void(Spec&, NLSParamsT&)>& adjust) {
  Random r;
  r.spec = Make(c.src, o);
  r.p = NLSParams(c.src, max_iters);
  if (adjust) adjust(r.spec, r.p);
  c.describe([&](auto& os) { Describe(os, r.spec), Describe(os, r.p); });
  if (!FiniteAt(r.spec, r.spec.x0)) c.discard("cost not finite at the start");
  const Problem problem = r.spec.Build();
  Recorder rec(&problem);
  r.run = rec.Solve(r.p, r.spec.x0);
  if (r.run.threw) c.discard(Why(r.run));
  return r;
}

Random ProfileRun(pbt::Case& c, const Profile profile) {
  Opts o;
  int iters = 12;
  std::function<void(Spec&, NLSParamsT&)> adjust;
  switch (profile) {
    case Profile::ANY:
      o.nonlinear = c.src.chance(1, 4) ? 3.0 : c.src.chance(1, 6) ? 0.0 : 1.0;
      break;
    case Profile::ROUGH:
      iters = 25;
      o.nonlinear = 8.0;
      o.eq_nonlinear = 2.0;
      o.p_eq = 0.6;
      o.p_bounds = 0.3;
      adjust = [&](Spec&, NLSParamsT& p) {
        p.max_lambda = std::max(p.max_lambda, 1e4);
        if (c.src.boolean()) p.relative_exit_tol = 1e-9;
        if (c.src.boolean()) p.absolute_first_derivative_tol = 1e-12;
        if (c.src.boolean()) p.max_line_search_iterations = c.src.integer(2, 12);
        if (c.src.chance(1, 8)) {  // long searches with a small factor
          p.max_line_search_iterations = c.src.integer(6, 20);
          p.armijo_search_tau = c.src.mag(0.02, 0.3);
        }
      };
      break;
    case Profile::UNDEFINED:
      o.undefined = true;
      o.nonlinear = 2.0;
      break;
    case Profile::DEFICIENT:
      o.full_rank = false;
      o.p_eq = 0.8;
      o.p_bounds = 0.0;
      o.nonlinear = 2.0;
      adjust = [&](Spec& spec, NLSParamsT& p) {
        // without equalities there must be damping for the step to exist
        if (spec.eqs.empty() && p.lambda_initial < 1e-3) {
          p.max_lambda = std::max(p.max_lambda, 1.0);
          p.min_lambda = std::max(p.min_lambda, 1e-3);
          p.lambda_initial = std::max(p.lambda_initial, p.min_lambda);
        }
      };
      break;
    case Profile::DAMPED:
      iters = 20;
      o.nonlinear = 6.0;
      o.p_bounds = 0.3;
      adjust = [&](Spec&, NLSParamsT& p) {
        p.max_lambda = std::max(p.max_lambda, c.src.logreal(1.0, 1e6));
        p.lambda_initial = std::max(p.min_lambda, std::min(p.max_lambda, c.src.logreal(1e-6, 10.0)));
        p.max_line_search_iterations = c.src.integer(0, 1);
        p.relative_exit_tol = 1e-12;
        p.absolute_first_derivative_tol = 0;
      };
      break;
  }
  return MakeRun(c, o, iters, adjust);
}

const char* Name(StepSizeSelectionResult r) {
  switch (r) {
    case StepSizeSelectionResult::SUCCESS: return "SUCCESS";
    case StepSizeSelectionResult::MAX_ITERATIONS: return "MAX_ITERATIONS";
    case StepSizeSelectionResult::FIRST_ORDER_SATISFIED: return "FIRST_ORDER_SATISFIED";
    case StepSizeSelectionResult::POSITIVE_DERIVATIVE: return "POSITIVE_DERIVATIVE";
    case StepSizeSelectionResult::FAILURE_NON_FINITE_COST: return "FAILURE_NON_FINITE_COST";
    case StepSizeSelectionResult::FAILURE_INVALID_ALPHA: return "FAILURE_INVALID_ALPHA";
  }
  return "?";
}
const char* Name(NLSTerminationState r) {
  switch (r) {
    case NLSTerminationState::MAX_ITERATIONS: return "MAX_ITERATIONS";
    case NLSTerminationState::SATISFIED_ABSOLUTE_TOL: return "SATISFIED_ABSOLUTE_TOL";
    case NLSTerminationState::SATISFIED_RELATIVE_TOL: return "SATISFIED_RELATIVE_TOL";
    case NLSTerminationState::SATISFIED_FIRST_ORDER_TOL: return "SATISFIED_FIRST_ORDER_TOL";
    case NLSTerminationState::MAX_LAMBDA: return "MAX_LAMBDA";
    case NLSTerminationState::QP_INDEFINITE: return "QP_INDEFINITE";
    case NLSTerminationState::USER_CALLBACK: return "USER_CALLBACK";
  }
  return "?";
}
std::string Fmt(const Iteration& it) {
  std::ostringstream s;
  s.precision(17);
  const auto& i = *it.info;
  s << "iteration " << i.iteration << " x0=" << gen::Fmt(it.x0.transpose()) << " dx=" << gen::Fmt(it.dx.transpose()) << " lambda=" << i.lambda
    << " penalty=" << i.penalty << " errors=(" << i.errors_initial.f << ", " << i.errors_initial.equality << ") derivatives=("
    << i.directional_derivatives.d_f << ", " << i.directional_derivatives.d_equality << ") result=" << Name(i.step_result) << " steps:";
  for (const auto& t : i.line_search_steps) s << " [alpha=" << t.alpha << " errors=(" << t.errors.f << ", " << t.errors.equality << ")]";
  return s.str();
}

std::string Why(const Run& r) {
  return "solver threw: " + r.what.substr(0, std::min<std::size_t>(60, r.what.find('\n')));
}

bool Same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
static bool Same(const Errors& a, const Errors& b) { return Same(a.f, b.f) && Same(a.equality, b.equality); }
static bool Same(const AlphaValues& a, const AlphaValues& b) { return Same(a.primal, b.primal) && Same(a.dual, b.dual); }
static bool Same(const KKTError& a, const KKTError& b) {
  return Same(a.r_dual, b.r_dual) && Same(a.r_comp, b.r_comp) && Same(a.r_primal_eq, b.r_primal_eq) && Same(a.r_primal_ineq, b.r_primal_ineq);
}
static bool Same(const QPInteriorPointIteration& a, const QPInteriorPointIteration& b) {
  return Same(a.kkt_initial, b.kkt_initial) && Same(a.kkt_final, b.kkt_final) && Same(a.ip_outputs.mu, b.ip_outputs.mu) &&
         Same(a.ip_outputs.alpha, b.ip_outputs.alpha) && Same(a.ip_outputs.alpha_probe, b.ip_outputs.alpha_probe) &&
         Same(a.ip_outputs.mu_affine, b.ip_outputs.mu_affine);
}
static bool Same(const QPInteriorPointSolverOutputs& a, const QPInteriorPointSolverOutputs& b) {
  if (a.termination_state != b.termination_state || a.iterations.size() != b.iterations.size() ||
      a.lagrange_multipliers.has_value() != b.lagrange_multipliers.has_value())
    return false;
  if (a.lagrange_multipliers &&
      (!Same(a.lagrange_multipliers->min, b.lagrange_multipliers->min) || !Same(a.lagrange_multipliers->l_infinity, b.lagrange_multipliers->l_infinity)))
    return false;
  for (std::size_t i = 0; i < a.iterations.size(); ++i)
    if (!Same(a.iterations[i], b.iterations[i])) return false;
  return true;
}
bool Same(const NLSIteration& a, const NLSIteration& b) {
  if (a.iteration != b.iteration || a.optimizer_state != b.optimizer_state || !Same(a.lambda, b.lambda) || !Same(a.errors_initial, b.errors_initial) ||
      a.qp_outputs.index() != b.qp_outputs.index() || a.qp_eigenvalues.has_value() != b.qp_eigenvalues.has_value() ||
      !Same(a.directional_derivatives.d_f, b.directional_derivatives.d_f) || !Same(a.directional_derivatives.d_equality, b.directional_derivatives.d_equality) ||
      !Same(a.penalty, b.penalty) || a.step_result != b.step_result || a.line_search_steps.size() != b.line_search_steps.size())
    return false;
  if (a.qp_eigenvalues && (!Same(a.qp_eigenvalues->min, b.qp_eigenvalues->min) || !Same(a.qp_eigenvalues->max, b.qp_eigenvalues->max) ||
                           !Same(a.qp_eigenvalues->abs_min, b.qp_eigenvalues->abs_min)))
    return false;
  for (std::size_t i = 0; i < a.line_search_steps.size(); ++i)
    if (!Same(a.line_search_steps[i].alpha, b.line_search_steps[i].alpha) || !Same(a.line_search_steps[i].errors, b.line_search_steps[i].errors)) return false;
  if (const auto* p = std::get_if<QPNullSpaceTerminationState>(&a.qp_outputs)) return *p == std::get<QPNullSpaceTerminationState>(b.qp_outputs);
  return Same(std::get<QPInteriorPointSolverOutputs>(a.qp_outputs), std::get<QPInteriorPointSolverOutputs>(b.qp_outputs));
}
bool Same(const NLSSolverOutputs& a, const NLSSolverOutputs& b) {
  if (a.termination_state != b.termination_state || a.iterations.size() != b.iterations.size()) return false;
  for (std::size_t i = 0; i < a.iterations.size(); ++i)
    if (!Same(a.iterations[i], b.iterations[i])) return false;
  return true;
}

}  // namespace nls
