#include "gen.hpp"

#include <numeric>

namespace gen {

VectorXd Vec(pbt::Source& s, Index n, double lo, double hi) {
  VectorXd v(n);
  for (Index i = 0; i < n; ++i) v[i] = s.real(lo, hi);
  return v;
}

MatrixXd PosDef(pbt::Source& s, Index n, double d_lo, double d_hi, double off) {
  MatrixXd g = MatrixXd::Zero(n, n);
  for (Index i = 0; i < n; ++i) g(i, i) = s.logreal(d_lo, d_hi);
  const int terms = s.integer(0, static_cast<int>(std::min<Index>(n, 6)));
  for (int t = 0; t < terms; ++t) {
    VectorXd v = Vec(s, n, -off, off);
    g += v * v.transpose();
  }
  return g;
}

static std::vector<int> Permutation(pbt::Source& s, int n) {
  std::vector<int> p(static_cast<std::size_t>(n));
  std::iota(p.begin(), p.end(), 0);
  for (int i = 0; i + 1 < n; ++i)
    std::swap(p[static_cast<std::size_t>(i)], p[static_cast<std::size_t>(s.integer(i, n - 1))]);
  return p;
}

MatrixXd FullRowRank(pbt::Source& s, Index k, Index n) {
  // [T R] with T lower triangular with dominant diagonal, columns and rows permuted.
  MatrixXd a = MatrixXd::Zero(k, n);
  for (Index i = 0; i < k; ++i) {
    for (Index j = 0; j < i; ++j) a(i, j) = s.real(-0.5, 0.5);
    a(i, i) = s.nonzero(1.0, 2.0);
    for (Index j = k; j < n; ++j) a(i, j) = s.real(-1, 1);
  }
  const auto pc = Permutation(s, static_cast<int>(n));
  const auto pr = Permutation(s, static_cast<int>(k));
  MatrixXd out(k, n);
  for (Index i = 0; i < k; ++i)
    for (Index j = 0; j < n; ++j) out(pr[static_cast<std::size_t>(i)], pc[static_cast<std::size_t>(j)]) = a(i, j);
  return out;
}

int Size(pbt::Source& s, int lo, int usual, int large) {
  if (large > usual && s.chance(1, 12)) return s.integer(lo, large);
  return s.integer(lo, usual);
}

QPCase MakeQP(pbt::Source& s, const QPOpts& o) {
  QPCase out;
  const int n = Size(s, 1, o.n_usual, o.n_large);
  const double g_lo = s.logreal(o.g_lo, o.g_hi);
  out.qp.G = PosDef(s, n, g_lo, g_lo * 20, 1.5);
  out.g_min_eig = g_lo;
  int k = 0;
  if (o.equalities && s.chance(2, 3)) {
    k = s.chance(1, 6) ? n : s.integer(0, n - 1);
  }
  int m = 0;
  if (o.inequalities && (o.need_inequality || s.chance(7, 8))) {
    m = s.integer(o.need_inequality ? 1 : 0, s.chance(1, 4) ? 2 * n + 3 : n + 1);
  }
  const double xr = o.wide_range && s.chance(1, 8) ? 25 * o.x_range : o.x_range;
  if (o.known_optimum) {
    // Choose the solution, then the data.
    out.has_optimum = true;
    out.x = Vec(s, n, -xr, xr);
    out.y = Vec(s, k, -5, 5);
    out.z = VectorXd::Zero(m);
    out.s = VectorXd::Zero(m);
    if (k > 0) {
      out.qp.A_eq = FullRowRank(s, k, n);
      out.qp.b_eq = -(out.qp.A_eq * out.x);
    }
    out.qp.c = -(out.qp.G * out.x);
    if (k > 0) out.qp.c += out.qp.A_eq.transpose() * out.y;
    // The active side of each variable is fixed, so that all active constraints on it agree and
    // the problem keeps a strictly feasible point when K == 0.
    std::vector<int> side(static_cast<std::size_t>(n), 0);
    for (int i = 0; i < m; ++i) {
      const int var = s.integer(0, n - 1);
      double a = s.chance(1, 2) ? s.nonzero(0.2, 4.0) : (s.boolean() ? -1.0 : 1.0);
      const int active = s.chance(1, 2);
      int& sd = side[static_cast<std::size_t>(var)];
      if (active && sd != 0 && (a > 0) != (sd > 0)) a = -a;
      const double slack = active ? 0.0 : s.mag(o.slack_lo, o.slack_hi);
      const double z = active ? s.mag(0.1, 5.0) : 0.0;
      if (active) sd = a > 0 ? 1 : -1;
      out.z[i] = z;
      out.s[i] = slack;
      out.qp.constraints.emplace_back(var, a, slack - a * out.x[var]);
      out.qp.c[var] += a * z;
    }
  } else {
    out.interior = Vec(s, n, -xr, xr);
    out.qp.c = Vec(s, n, -10, 10);
    if (k > 0) {
      out.qp.A_eq = FullRowRank(s, k, n);
      out.qp.b_eq = -(out.qp.A_eq * out.interior);
    }
    for (int i = 0; i < m; ++i) {
      const int var = s.integer(0, n - 1);
      const double a = s.chance(1, 2) ? s.nonzero(0.2, 4.0) : (s.boolean() ? -1.0 : 1.0);
      const double slack = s.mag(o.slack_lo, o.slack_hi);
      out.qp.constraints.emplace_back(var, a, slack - a * out.interior[var]);
    }
  }
  if (o.dirty_upper) {
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < n; ++j) out.qp.G(i, j) = std::nan("");
  }
  return out;
}

std::string Fmt(const Eigen::Ref<const Eigen::MatrixXd>& m) {
  static const Eigen::IOFormat f(17, Eigen::DontAlignCols, ", ", "; ", "", "", "[", "]");
  std::ostringstream s;
  s << m.format(f);
  return s.str();
}

void Describe(std::ostream& os, const mini_opt::QP& qp) {
  os << "QP N=" << qp.G.rows() << " M=" << qp.constraints.size() << " K=" << qp.A_eq.rows() << "\n G=" << Fmt(qp.G)
     << "\n c=" << Fmt(qp.c.transpose());
  if (qp.A_eq.rows() > 0) os << "\n A_eq=" << Fmt(qp.A_eq) << "\n b_eq=" << Fmt(qp.b_eq.transpose());
  for (const auto& c : qp.constraints) os << "\n " << c.a << " * x[" << c.variable << "] + " << c.b << " >= 0";
  os << "\n";
}

mini_opt::QPInteriorPointSolver::Params QPParams(pbt::Source& s, int max_iters_hi) {
  using mini_opt::BarrierStrategy;
  using mini_opt::InitialGuessMethod;
  mini_opt::QPInteriorPointSolver::Params p{};
  p.initial_mu = s.chance(1, 2) ? 1.0 : s.logreal(1e-3, 1e2);
  p.sigma = s.chance(1, 2) ? 0.1 : (s.chance(1, 8) ? 1.0 : s.mag(0.02, 0.9));
  p.termination_kkt_tol = s.logreal(1e-10, 1e-2);
  p.termination_complementarity_tol = s.logreal(1e-9, 1e-1);
  p.max_iterations = s.integer(1, max_iters_hi);
  p.barrier_strategy = s.pick(std::vector<BarrierStrategy>{
      BarrierStrategy::COMPLEMENTARITY, BarrierStrategy::FIXED_DECREASE, BarrierStrategy::PREDICTOR_CORRECTOR});
  p.decrease_mu_only_on_small_error = s.chance(1, 4);
  p.initial_guess_method =
      s.boolean() ? InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED : InitialGuessMethod::NAIVE;
  p.initialize_mu_with_complementarity = s.chance(1, 4);
  return p;
}

void Describe(std::ostream& os, const mini_opt::QPInteriorPointSolver::Params& p) {
  os << "params initial_mu=" << p.initial_mu << " sigma=" << p.sigma << " kkt_tol=" << p.termination_kkt_tol
     << " comp_tol=" << p.termination_complementarity_tol << " max_iterations=" << p.max_iterations
     << " strategy=" << static_cast<int>(p.barrier_strategy)
     << " only_on_small_error=" << p.decrease_mu_only_on_small_error << " guess=" << p.initial_guess_method
     << " mu_from_complementarity=" << p.initialize_mu_with_complementarity << "\n";
}

}  // namespace gen
