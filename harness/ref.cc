#include "ref.hpp"

#include <cstring>

namespace ref {

using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LVec = Eigen::Matrix<long double, Eigen::Dynamic, 1>;

Model::Model(const mini_opt::QP& qp) {
  N = qp.G.rows();
  M = static_cast<Index>(qp.constraints.size());
  K = qp.A_eq.rows();
  G = MatrixXd(N, N);
  for (Index i = 0; i < N; ++i)
    for (Index j = 0; j < N; ++j) G(i, j) = i >= j ? qp.G(i, j) : qp.G(j, i);
  c = qp.c;
  A = K > 0 ? qp.A_eq : MatrixXd(0, N);
  b = K > 0 ? qp.b_eq : VectorXd(0);
  Ai = MatrixXd::Zero(M, N);
  bi = VectorXd(M);
  for (Index i = 0; i < M; ++i) {
    const auto& q = qp.constraints[static_cast<std::size_t>(i)];
    Ai(i, q.variable) = q.a;
    bi[i] = q.b;
  }
}

State Get(const mini_opt::QPInteriorPointSolver& solver) {
  return {solver.x_block(), solver.s_block(), solver.y_block(), solver.z_block()};
}

VectorXd Stack(const State& st) {
  VectorXd v(st.x.size() + st.s.size() + st.y.size() + st.z.size());
  v << st.x, st.s, st.y, st.z;
  return v;
}

bool BitEqual(const VectorXd& a, const VectorXd& b) {
  return a.size() == b.size() &&
         (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(double) * static_cast<std::size_t>(a.size())) == 0);
}
bool BitEqual(const State& a, const State& b) {
  return BitEqual(a.x, b.x) && BitEqual(a.s, b.s) && BitEqual(a.y, b.y) && BitEqual(a.z, b.z);
}

std::string Fmt(const State& st) {
  return "x=" + gen::Fmt(st.x.transpose()) + " s=" + gen::Fmt(st.s.transpose()) + " y=" + gen::Fmt(st.y.transpose()) +
         " z=" + gen::Fmt(st.z.transpose());
}

Residuals KKT(const Model& m, const State& st, const double mu) {
  Residuals r;
  const LVec x = st.x.cast<long double>(), s = st.s.cast<long double>(), y = st.y.cast<long double>(),
             z = st.z.cast<long double>();
  const LMat G = m.G.cast<long double>(), A = m.A.cast<long double>(), Ai = m.Ai.cast<long double>();
  LVec d = G * x + m.c.cast<long double>();
  double ds = (m.G.cwiseAbs() * st.x.cwiseAbs() + m.c.cwiseAbs()).sum();
  if (m.K > 0) {
    d -= A.transpose() * y;
    ds += (m.A.cwiseAbs().transpose() * st.y.cwiseAbs()).sum();
    r.eq = (A * x + m.b.cast<long double>()).cast<double>();
    r.eq_scale = (m.A.cwiseAbs() * st.x.cwiseAbs() + m.b.cwiseAbs()).sum();
  } else {
    r.eq = VectorXd(0);
  }
  if (m.M > 0) {
    d -= Ai.transpose() * z;
    ds += (m.Ai.cwiseAbs().transpose() * st.z.cwiseAbs()).sum();
    r.ineq = (Ai * x + m.bi.cast<long double>() - s).cast<double>();
    r.ineq_scale = (m.Ai.cwiseAbs() * st.x.cwiseAbs() + m.bi.cwiseAbs() + st.s.cwiseAbs()).sum();
    r.comp = (s.array() * z.array() - static_cast<long double>(mu)).matrix().cast<double>();
    // norms are computed from |sz|^2 - 2 mu sum(sz) + M mu^2: cancellation at the level of the squares
    r.comp_scale = (st.s.array() * st.z.array()).matrix().norm() + std::abs(mu) * std::sqrt(static_cast<double>(m.M));
  } else {
    r.ineq = VectorXd(0);
    r.comp = VectorXd(0);
  }
  r.dual = d.cast<double>();
  r.dual_scale = ds;
  return r;
}

Step Newton(const Model& m, const State& st, const double mu, const VectorXd& corr) {
  const Index N = m.N, M = m.M, K = m.K;
  Step out;
  if (!st.finite() || !std::isfinite(mu)) return out;
  const LVec x = st.x.cast<long double>(), s = st.s.cast<long double>(), y = st.y.cast<long double>(),
             z = st.z.cast<long double>();
  const LMat G = m.G.cast<long double>(), A = m.A.cast<long double>(), Ai = m.Ai.cast<long double>();
  const LVec bi = m.bi.cast<long double>();
  // Eliminate ds = Ai dx + r_pi and dz = -(z/s) ds - comp/s; solve for (dx, -dy) after symmetric scaling.
  LMat H = LMat::Zero(N + K, N + K);
  LVec r = LVec::Zero(N + K);
  LVec rpi = LVec::Zero(M), comp = LVec::Zero(M), sigl = LVec::Zero(M);
  H.topLeftCorner(N, N) = G;
  LVec rd = G * x + m.c.cast<long double>();
  if (K > 0) {
    H.block(0, N, N, K) = A.transpose();
    H.block(N, 0, K, N) = A;
    rd -= A.transpose() * y;
    r.segment(N, K) = -(A * x + m.b.cast<long double>());
  }
  if (M > 0) {
    rd -= Ai.transpose() * z;
    rpi = Ai * x + bi - s;
    for (Index i = 0; i < M; ++i) {
      comp[i] = s[i] * z[i] + (corr.size() ? static_cast<long double>(corr[i]) : 0.0L) - static_cast<long double>(mu);
      sigl[i] = z[i] / s[i];
      H.topLeftCorner(N, N) += sigl[i] * Ai.row(i).transpose() * Ai.row(i);
    }
  }
  r.head(N) = -rd;
  for (Index i = 0; i < M; ++i) r.head(N) -= Ai.row(i).transpose() * (sigl[i] * rpi[i] + comp[i] / s[i]);
  if (!H.allFinite() || !r.allFinite()) return out;
  LVec Dl(N + K);
  for (Index i = 0; i < N; ++i) Dl[i] = 1.0L / std::sqrt(std::max(std::abs(H(i, i)), 1e-300L));
  for (Index i = 0; i < K; ++i) Dl[N + i] = 1.0L / std::max(1e-300L, A.row(i).transpose().cwiseProduct(Dl.head(N)).norm());
  const LMat Hl = Dl.asDiagonal() * H * Dl.asDiagonal();
  const LVec rl = Dl.cwiseProduct(r);
  if (!Hl.allFinite() || !rl.allFinite()) return out;
  const Eigen::PartialPivLU<LMat> lu(Hl);
  LVec sol = lu.solve(rl);
  sol += lu.solve(LVec(rl - Hl * sol));
  if (!sol.allFinite()) return out;
  sol = Dl.cwiseProduct(sol);
  const LVec dx = sol.head(N);
  LVec ds(M), dz(M);
  for (Index i = 0; i < M; ++i) {
    ds[i] = Ai.row(i).dot(dx) + rpi[i];
    dz[i] = -sigl[i] * ds[i] - comp[i] / s[i];
  }
  out.dx = dx.cast<double>();
  out.dy = -sol.tail(K).cast<double>();
  out.dz = dz.cast<double>();
  out.ds = ds.cast<double>();
  // Error bound for the reduced double precision solve: H_r [dx; -dy] = -[r_aug; r_pe].
  MatrixXd Hr = MatrixXd::Zero(N + K, N + K);
  Hr.topLeftCorner(N, N) = m.G;
  VectorXd raug_abs = m.G.cwiseAbs() * st.x.cwiseAbs() + m.c.cwiseAbs();
  VectorXd rpi_abs = VectorXd::Zero(M);
  if (K > 0) {
    Hr.bottomLeftCorner(K, N) = m.A;
    Hr.topRightCorner(N, K) = m.A.transpose();
    raug_abs += m.A.cwiseAbs().transpose() * st.y.cwiseAbs();
  }
  VectorXd sig(M), comp_abs(M);
  for (Index i = 0; i < M; ++i) {
    sig[i] = st.z[i] / st.s[i];
    rpi_abs[i] = m.Ai.row(i).cwiseAbs().dot(st.x.cwiseAbs()) + std::abs(m.bi[i]) + st.s[i];
    comp_abs[i] = st.s[i] * st.z[i] + (corr.size() ? std::abs(corr[i]) : 0) + std::abs(mu);
    Hr.topLeftCorner(N, N) += sig[i] * m.Ai.row(i).transpose() * m.Ai.row(i);
    raug_abs += m.Ai.row(i).cwiseAbs().transpose() * (st.z[i] + sig[i] * rpi_abs[i] + comp_abs[i] / st.s[i]);
  }
  if (!Hr.allFinite()) return out;
  // Symmetric diagonal scaling (the factorization does not care about it, the bound does).
  VectorXd D(N + K);
  for (Index i = 0; i < N; ++i) D[i] = 1.0 / std::sqrt(std::max(std::abs(Hr(i, i)), 1e-300));
  for (Index i = 0; i < K; ++i) D[N + i] = 1.0 / std::max(1e-300, m.A.row(i).transpose().cwiseProduct(D.head(N)).norm());
  const MatrixXd Hs = D.asDiagonal() * Hr * D.asDiagonal();
  if (!Hs.allFinite()) return out;
  const Eigen::SelfAdjointEigenSolver<MatrixXd> es(Hs);
  const VectorXd ev = es.eigenvalues().cwiseAbs();
  out.cond = ev.maxCoeff() / ev.minCoeff();
  VectorXd rhs_abs(N + K);
  rhs_abs.head(N) = raug_abs;
  if (K > 0) rhs_abs.tail(K) = m.A.cwiseAbs() * st.x.cwiseAbs() + m.b.cwiseAbs();
  constexpr double eps = 2.3e-16;
  const double nn = static_cast<double>(N + K + 4);
  const VectorXd e = (8 * eps * nn * out.cond / ev.minCoeff() * D.cwiseProduct(rhs_abs).norm()) * D;
  out.ex = e.head(N);
  out.ey = e.tail(K);
  out.es = VectorXd(M);
  out.ez = VectorXd(M);
  for (Index i = 0; i < M; ++i) {
    out.es[i] = m.Ai.row(i).cwiseAbs().dot(out.ex + 8 * eps * out.dx.cwiseAbs()) + 8 * eps * rpi_abs[i];
    out.ez[i] = sig[i] * out.es[i] + 8 * eps * (sig[i] * std::abs(out.ds[i]) + comp_abs[i] / st.s[i]);
  }
  out.ok = e.allFinite() && out.es.allFinite() && out.ez.allFinite();
  return out;
}

double AlphaStrict(const VectorXd& v, const VectorXd& d, const double tau) {
  double a = 1.0;
  for (Index i = 0; i < v.size(); ++i)
    if (d[i] < 0) a = std::min(a, -tau * v[i] / d[i]);
  return a;
}
double AlphaCode(const VectorXd& v, const VectorXd& d, const double tau) {
  double a = 1.0;
  for (Index i = 0; i < v.size(); ++i)
    if (v[i] + d[i] <= 0 && d[i] < 0) a = std::min(a, -tau * v[i] / d[i]);
  return a;
}

EqMin EqualityMin(const Model& m) {
  EqMin out;
  LMat H = LMat::Zero(m.N + m.K, m.N + m.K);
  LVec r(m.N + m.K);
  H.topLeftCorner(m.N, m.N) = m.G.cast<long double>();
  r.head(m.N) = -m.c.cast<long double>();
  if (m.K > 0) {
    H.topRightCorner(m.N, m.K) = -m.A.transpose().cast<long double>();
    H.bottomLeftCorner(m.K, m.N) = m.A.cast<long double>();
    r.tail(m.K) = -m.b.cast<long double>();
  }
  MatrixXd Hd = H.cast<double>();
  if (m.K > 0) Hd.topRightCorner(m.N, m.K) *= -1.0;
  const Eigen::SelfAdjointEigenSolver<MatrixXd> es(Hd);
  const VectorXd ev = es.eigenvalues().cwiseAbs();
  out.cond = ev.maxCoeff() / ev.minCoeff();
  const Eigen::PartialPivLU<LMat> lu(H);
  LVec sol = lu.solve(r);
  sol += lu.solve(LVec(r - H * sol));
  out.ok = sol.allFinite() && std::isfinite(out.cond);
  if (!out.ok) return out;
  out.x = sol.head(m.N).cast<double>();
  out.y = sol.tail(m.K).cast<double>();
  return out;
}

History Run(const mini_opt::QP& qp, const mini_opt::QPInteriorPointSolver::Params& p,
            const std::optional<VectorXd>& user, const int max_states) {
  History h;
  auto one = [&](int iters, mini_opt::QPInteriorPointSolverOutputs* out, State* st) {
    mini_opt::QPInteriorPointSolver solver(&qp);
    if (user) {
      solver.SetVariables(*user);
    } else {
      solver.SetVariables(VectorXd::Constant(solver.variables().size(), 0.25));
    }
    auto q = p;
    q.max_iterations = iters;
    *out = solver.Solve(q);
    *st = Get(solver);
  };
  State last;
  try {
    one(p.max_iterations, &h.out, &last);
  } catch (const mini_opt::FailedFactorization& e) {
    h.threw = true;
    h.what = std::string("FailedFactorization: ") + e.what();
    return h;
  } catch (const assert::default_error& e) {
    h.threw = true;
    h.what = e.what();
    return h;
  }
  const int n = static_cast<int>(h.out.iterations.size());
  for (int k = 1; k < n && k <= max_states; ++k) {
    mini_opt::QPInteriorPointSolverOutputs o;
    State st;
    one(k, &o, &st);
    h.states.push_back(st);
  }
  h.states.push_back(last);
  return h;
}

std::string Why(const History& h) {
  return "solver threw: " + h.what.substr(0, std::min<std::size_t>(60, h.what.find('\n')));
}

State InitialGuess(const Model& m, const mini_opt::QP& qp, const bool naive, bool* well_conditioned) {
  State st;
  *well_conditioned = true;
  st.x = VectorXd::Zero(m.N);
  st.y = VectorXd::Zero(m.K);
  if (!naive) {
    const EqMin e = EqualityMin(m);
    if (!e.ok || e.cond > 1e8) {
      *well_conditioned = false;
      if (!e.ok) return st;
    }
    st.x = e.x;
    st.y = e.y;
  }
  st.s = VectorXd(m.M);
  st.z = VectorXd(m.M);
  for (const auto& c : qp.constraints) {
    const double bound = -c.b / c.a;
    double& v = st.x[c.variable];
    if (c.a > 0) {
      if (v < bound) v = bound;
    } else {
      if (v > bound) v = bound;
    }
  }
  for (Index i = 0; i < m.M; ++i) {
    const auto& c = qp.constraints[static_cast<std::size_t>(i)];
    st.s[i] = std::max(1e-9, c.a * st.x[c.variable] + c.b);
    st.z[i] = 1.0 / st.s[i];
  }
  return st;
}

bool Near(const double a, const double b, const double rel, const double abs_tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= abs_tol + rel * std::max(std::abs(a), std::abs(b));
}

using LMat_ = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LVec_ = Eigen::Matrix<long double, Eigen::Dynamic, 1>;
ActiveSet Enumerate(const ref::Model& m) {
  ActiveSet best;
  double best_slack = 1e300;
  for (unsigned mask = 0; mask < (1u << m.M); ++mask) {
    std::vector<Index> act;
    for (Index i = 0; i < m.M; ++i)
      if (mask >> i & 1u) act.push_back(i);
    const Index a = static_cast<Index>(act.size()), d = m.N + m.K + a;
    if (m.K + a > m.N) continue;
    LMat_ H = LMat_::Zero(d, d);
    LVec_ rhs = LVec_::Zero(d);
    H.topLeftCorner(m.N, m.N) = m.G.cast<long double>();
    rhs.head(m.N) = -m.c.cast<long double>();
    auto add = [&](Index row, const Eigen::RowVectorXd& v, double b) {
      H.block(row, 0, 1, m.N) = v.cast<long double>();
      H.block(0, row, m.N, 1) = -v.cast<long double>().transpose();
      rhs[row] = -static_cast<long double>(b);
    };
    for (Index k = 0; k < m.K; ++k) add(m.N + k, m.A.row(k), m.b[k]);
    for (Index k = 0; k < a; ++k) add(m.N + m.K + k, m.Ai.row(act[static_cast<std::size_t>(k)]), m.bi[act[static_cast<std::size_t>(k)]]);
    const Eigen::FullPivLU<LMat_> lu(H);
    if (!lu.isInvertible()) continue;
    const LVec_ sol = lu.solve(rhs);
    double worst = 0;  // violation of feasibility or of the sign of the multipliers
    const VectorXd x = sol.head(m.N).cast<double>();
    for (Index i = 0; i < m.M; ++i) worst = std::max(worst, -(m.Ai.row(i).dot(x) + m.bi[i]));
    for (Index k = 0; k < a; ++k) worst = std::max(worst, -static_cast<double>(sol[m.N + m.K + k]));
    if (worst < best_slack) {
      best_slack = worst;
      best.x = x;
      best.y = sol.segment(m.N, m.K).cast<double>();
      best.z = VectorXd::Zero(m.M);
      for (Index k = 0; k < a; ++k) best.z[act[static_cast<std::size_t>(k)]] = static_cast<double>(sol[m.N + m.K + k]);
    }
  }
  best.ok = best_slack < 1e-9;
  return best;
}

}  // namespace ref
