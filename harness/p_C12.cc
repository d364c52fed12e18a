// build: nls plain
// C12: every iteration linearizes the problem at the current variables, and its search direction is the minimizer of the damped quadratic sub-problem.
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>

#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::LMat;
using nls::LVec;
using nls::MatrixXd;
using nls::VectorXd;
using LD = long double;

namespace {

LMat Hessian(const nls::Local& l, const double lambda) {
  LMat G = l.J.transpose() * l.J;
  G.diagonal().array() += static_cast<LD>(lambda);
  return G;
}

// What the log says about the linearization.
void Values(pbt::Case& c, const nls::Random& r, const nls::Iteration& it, const nls::Local& l) {
  const NLSIteration& i = *it.info;
  auto say = [&](const std::string& m) { return [&, m] { return m + ": " + nls::Fmt(it); }; };
  c.require(ref::Near(i.errors_initial.f, nls::D(l.f), 1e-12, 1e-300), say(pbt::str("the cost at the linearization point is ", nls::D(l.f))));
  c.require(ref::Near(i.errors_initial.equality, nls::D(l.eq), 1e-12, 1e-300), say(pbt::str("the L1 norm of the equalities at the linearization point is ", nls::D(l.eq))));
  const LVec dx = it.dx.cast<LD>();
  const LD df = (l.J.transpose() * l.r).dot(dx), df_scale = (l.J.cwiseAbs().transpose() * l.r.cwiseAbs()).dot(dx.cwiseAbs());
  c.require(!std::isfinite(nls::D(df_scale)) || std::abs(static_cast<LD>(i.directional_derivatives.d_f) - df) <= 1e-12L * df_scale,
            say(pbt::str("the slope of the cost along the step is ", nls::D(df))));
  LD de = 0, de_scale = 0;
  const LVec Adx = l.A * dx, Aabs = l.A.cwiseAbs() * dx.cwiseAbs();
  for (Index j = 0; j < l.g.size(); ++j) {
    de += l.g[j] > 0 ? Adx[j] : l.g[j] < 0 ? -Adx[j] : 0.0L;
    de_scale += Aabs[j];
  }
  c.require(!std::isfinite(nls::D(de_scale)) || std::abs(static_cast<LD>(i.directional_derivatives.d_equality) - de) <= 1e-12L * de_scale,
            say(pbt::str("the slope of the L1 norm of the equalities along the step is ", nls::D(de))));
  c.require(i.qp_eigenvalues.has_value() == r.p.log_qp_eigenvalues, say("eigenvalues must be logged exactly when asked for"));
  if (i.qp_eigenvalues) {
    const Eigen::SelfAdjointEigenSolver<MatrixXd> es(Hessian(l, i.lambda).cast<double>());
    const VectorXd& v = es.eigenvalues();
    const double tol = 1e-11 * std::max(std::abs(v[0]), std::abs(v[v.size() - 1])) * static_cast<double>(v.size());
    c.require(std::abs(v[0] - i.qp_eigenvalues->min) <= tol && std::abs(v[v.size() - 1] - i.qp_eigenvalues->max) <= tol &&
                  std::abs(v.cwiseAbs().minCoeff() - i.qp_eigenvalues->abs_min) <= tol,
              say(pbt::str("logged eigenvalues ", i.qp_eigenvalues->min, " ", i.qp_eigenvalues->max, " ", i.qp_eigenvalues->abs_min, " of a Hessian with eigenvalues ",
                           gen::Fmt(v.transpose()))));
    c.label("eigenvalues compared");
  }
}

// Without inequalities the direction is the exact solution of the sub-problem.
void Exact(pbt::Case& c, const nls::Random& r, const nls::Iteration& it, const nls::Local& l) {
  const NLSIteration& i = *it.info;
  auto say = [&](const std::string& m) { return [&, m] { return m + ": " + nls::Fmt(it); }; };
  const LMat G = Hessian(l, i.lambda);
  const LVec dx = it.dx.cast<LD>(), grad = G * dx + l.J.transpose() * l.r;
  const double scale = nls::D(G.norm() * dx.norm() + (l.J.cwiseAbs().transpose() * l.r.cwiseAbs()).norm());
  if (r.spec.eqs.empty()) {
    const Eigen::SelfAdjointEigenSolver<MatrixXd> es(G.cast<double>());
    const VectorXd& v = es.eigenvalues();
    if (v[0] < 1e-8 * v[v.size() - 1]) {
      c.label("singular");
      return;
    }
    c.require(std::holds_alternative<QPInteriorPointSolverOutputs>(i.qp_outputs), say("not the interior point solver"));
    c.require(nls::D(grad.norm()) <= (1e-10 + 1e-14 * v[v.size() - 1] / v[0]) * scale, say(pbt::str("the direction does not minimize the sub-problem, gradient ", gen::Fmt(grad.cast<double>().transpose()))));
    c.label("unconstrained direction");
    c.nontrivial();
    return;
  }
  c.require(std::holds_alternative<QPNullSpaceTerminationState>(i.qp_outputs), say("not the null-space solver"));
  const Eigen::JacobiSVD<MatrixXd> svd(l.A.cast<double>(), Eigen::ComputeFullV);
  const VectorXd& sv = svd.singularValues();
  if (sv[sv.size() - 1] < 1e-6 * sv[0]) {
    c.label("dependent equalities");
    return;
  }
  const LVec lin = l.A * dx + l.g;
  c.require(nls::D(lin.norm()) <= 1e-11 * nls::D(l.A.norm() * dx.norm() + l.g.norm()) * sv[0] / sv[sv.size() - 1],
            say(pbt::str("the direction leaves the linearized equalities with an error of ", gen::Fmt(lin.cast<double>().transpose()))));
  if (l.A.rows() < r.spec.n) {
    const MatrixXd Z = svd.matrixV().rightCols(r.spec.n - l.A.rows());
    const Eigen::SelfAdjointEigenSolver<MatrixXd> es(Z.transpose() * G.cast<double>() * Z);
    const VectorXd& v = es.eigenvalues();
    if (v[0] < 1e-8 * nls::D(G.norm())) {
      c.label("reduced Hessian singular");
      return;
    }
    const VectorXd rg = Z.transpose() * grad.cast<double>();
    c.require(rg.norm() <= (1e-10 + 1e-14 * nls::D(G.norm()) / v[0]) * scale * sv[0] / sv[sv.size() - 1], say(pbt::str("the direction does not minimize the sub-problem on the linearized equalities, reduced gradient ", gen::Fmt(rg.transpose()))));
    c.label("direction on equalities");
  } else {
    c.label("fully determined direction");
  }
  c.nontrivial();
}

void Check(pbt::Case& c, const nls::Random& r) {
  int k = 0;
  double lambda = -1;
  for (const nls::Iteration& it : r.run.its) {
    const nls::Local l = nls::Linearize(r.spec, it.x0);
    c.require(it.info->iteration == k++, "iterations must be numbered");
    Values(c, r, it, l);
    if (it.info->lambda > 0) c.label("damped");
    if (r.spec.bounds.empty() && it.dx.allFinite()) Exact(c, r, it, l);
    if (it.info->lambda != lambda && k > 1) c.label("damping changed");
    lambda = it.info->lambda;
  }
  if (r.run.term() == NLSTerminationState::QP_INDEFINITE) c.label("indefinite");
}
void Run(pbt::Case& c, const nls::Profile p) { Check(c, nls::ProfileRun(c, p)); }

void Bounded(pbt::Case& c) {
  nls::Opts o;
  o.n_usual = 3;
  o.n_large = 5;
  o.p_bounds = 2;
  o.p_eq = 0.3;
  o.nonlinear = c.src.boolean() ? 1.0 : 4.0;
  o.feasible_start = true;
  const nls::Random r = nls::MakeRun(c, o, 3, [&](nls::Spec& s, ConstrainedNonlinearLeastSquares::Params& p) {
    p.termination_kkt_tolerance = 1e-9;
    p.max_qp_iterations = 60;
    while (s.bounds.size() > 6) s.bounds.pop_back();
  });
  for (const nls::Iteration& it : r.run.its) {
    const auto& out = std::get<QPInteriorPointSolverOutputs>(it.info->qp_outputs);
    auto say = [&](const std::string& m) { return [&, m] { return m + ": " + nls::Fmt(it); }; };
    if (out.termination_state != QPInteriorPointTerminationState::SATISFIED_KKT_TOL) {
      c.label("inner solver did not converge");
      if (r.spec.eqs.empty()) c.label("inner solver did not converge, only bounds");
      continue;
    }
    const ref::Model m(nls::SubProblem(r.spec, it.x0, it.info->lambda));
    const Eigen::SelfAdjointEigenSolver<MatrixXd> es(m.G);
    const double g_min = es.eigenvalues()[0], g_max = es.eigenvalues()[m.N - 1];
    if (g_max > 1e6 * g_min) continue;
    for (Index i = 0; i < m.M; ++i) {
      const double v = m.Ai.row(i).dot(it.dx) + m.bi[i];
      c.require(v >= -1e-8 * (1 + std::abs(m.bi[i])), say(pbt::str("the full step violates bound ", i, " by ", -v)));
    }
    if (m.K > 0) c.require((m.A * it.dx + m.b).norm() <= 1e-8 * (1 + m.b.norm()), say("the full step violates the linearized equalities"));
    const ref::ActiveSet e = ref::Enumerate(m);
    if (!e.ok) {
      c.label("no reference");
      continue;
    }
    // g_min d^2 <= M comp_tol + kkt_tol (d + |dz| + |dy|)
    const double yl = out.lagrange_multipliers ? std::sqrt(static_cast<double>(m.K)) * out.lagrange_multipliers->l_infinity : 0.0;
    const double zz = 100 * (1 + e.z.norm()) + (m.G * it.dx + m.c).norm() + (m.K ? m.A.norm() * yl : 0.0);
    const double d = (it.dx - e.x).norm();
    const double allowed = std::sqrt((static_cast<double>(m.M) * 1e-6 + 1e-9 * (d + zz + yl + e.y.norm())) / g_min) + 1e-9 * (1 + e.x.norm()) * g_max / g_min;
    c.worst("distance / allowed", d / allowed);
    c.require(d <= allowed, say(pbt::str("the direction is ", d, " (allowed ", allowed, ") from the minimizer ", gen::Fmt(e.x.transpose()), " of the sub-problem")));
    if (e.z.size() && e.z.maxCoeff() > 1e-6) {
      c.label("active bound");
      c.nontrivial();
    }
    if (!r.spec.eqs.empty()) c.label("with equalities");
  }
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C12";
  p.rule =
      "random nonlinear least squares problems (1-12 variables); at every iteration the linearization is recomputed from the generated "
      "functions in long double and compared with the logged costs, slopes, eigenvalues and the direction handed to the retraction; with "
      "bounds, the minimizer comes from trying every active set. Non-trivial: the direction was compared with the reference";
  p.assumptions = {"sub-problems that are numerically singular only have their logged values compared",
                   "with bounds, only directions the inner solver reports as converged are compared"};
  using P = nls::Profile;
  p.facets = {
      {"any", [](Case& c) { Run(c, P::ANY); }, 100000, 6000000, 0.3},
      {"rough", [](Case& c) { Run(c, P::ROUGH); }, 30000, 2000000, 0.3},
      {"damped", [](Case& c) { Run(c, P::DAMPED); }, 40000, 2000000, 0.3},
      {"deficient", [](Case& c) { Run(c, P::DEFICIENT); }, 60000, 3000000, 0.3},
      {"bounded", Bounded, 40000, 2000000, 0.3},
  };
  return p;
}
