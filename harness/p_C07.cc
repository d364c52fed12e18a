// build: qp plain qp.cc structs.cc
// C07: the null-space solver returns the minimizer, and classifies the reduced Hessian.
#include "ref.hpp"

using namespace mini_opt;
using ref::Index;
using ref::MatrixXd;
using ref::VectorXd;
using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LVec = Eigen::Matrix<long double, Eigen::Dynamic, 1>;

namespace {

struct NS {
  QP qp{};
  MatrixXd A0;      // independent rows
  VectorXd feasible;
  Index rank{0};
  int kind{0};  // what was asked for: 0 definite, 1 indefinite outside the null space only, 2 not definite inside it,
                // 3 exactly zero curvature along some variables that no constraint involves
};

// Orthonormal null space basis, computed by modified Gram-Schmidt in long double.
LMat NullBasis(const MatrixXd& A) {
  const Index n = A.cols();
  std::vector<LVec> basis;
  Index used = 0;
  auto add = [&](LVec v) {
    const long double n0 = v.norm();
    if (n0 == 0) return false;
    for (int pass = 0; pass < 3; ++pass)
      for (const auto& b : basis) v -= b.dot(v) * b;
    if (v.norm() < 1e-9L * n0) return false;
    basis.push_back(v / v.norm());
    return true;
  };
  for (Index i = 0; i < A.rows(); ++i) used += add(A.row(i).transpose().cast<long double>());
  // complete with the unit vectors farthest from the span
  while (static_cast<Index>(basis.size()) < n) {
    Index best = 0;
    long double bn = -1;
    for (Index j = 0; j < n; ++j) {
      LVec e = LVec::Unit(n, j);
      for (int pass = 0; pass < 2; ++pass)
        for (const auto& b : basis) e -= b.dot(e) * b;
      if (e.norm() > bn) bn = e.norm(), best = j;
    }
    add(LVec::Unit(n, best));
  }
  LMat Z(n, n - used);
  for (Index j = used; j < n; ++j) Z.col(j - used) = basis[static_cast<std::size_t>(j)];
  return Z;
}

// marginal: one or two rows in many variables and an exact multiple of one of them, where rank decisions are closest.
NS Make(pbt::Source& s, const bool redundant, const bool marginal = false) {
  NS o;
  const int n = marginal ? s.integer(4, 30) : gen::Size(s, 1, 8, 30);
  const int r = marginal ? s.integer(1, 2) : s.chance(1, 6) ? n : s.integer(redundant ? 0 : 1, n);
  o.rank = r;
  const double scale = s.chance(1, 6) ? s.logreal(1e-4, 1e4) : 1.0;
  o.A0 = gen::FullRowRank(s, r, n) * scale;
  // Variables (the last ones) in which the Hessian and the constraints are exactly zero, so that no rounding can hide it.
  const int flat = !marginal && r < n && s.chance(1, 12) ? s.integer(1, n - r) : 0;
  if (flat > 0) {
    o.A0.setZero();
    o.A0.leftCols(n - flat) = gen::FullRowRank(s, r, n - flat) * scale;
  }
  // Coarse entries, so that sums of rows are exact.
  if (marginal) {
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < n; ++j) o.A0(i, j) = s.real(-1, 1) + (i == j ? 0.5 : 0.0);
  } else if (redundant) {
    o.A0 = (o.A0 * 64.0 / scale).array().round() / 64.0;
  }
  std::vector<VectorXd> rows;
  for (int i = 0; i < r; ++i) rows.push_back(o.A0.row(i).transpose());
  if (redundant) {
    const int extra = marginal ? 1 : s.integer(r == 0 ? 1 : 0, 4);
    for (int e = 0; e < extra; ++e) {
      const int kind = marginal ? s.integer(0, 1) : r == 0 ? 3 : s.integer(0, 3);
      VectorXd v = VectorXd::Zero(n);
      if (kind < 3) {
        const VectorXd a = o.A0.row(s.integer(0, r - 1)).transpose();
        if (kind == 0) v = a;
        if (kind == 1) v = a * (s.boolean() ? -2.0 : 0.5);
        if (kind == 2) v = a + o.A0.row(s.integer(0, r - 1)).transpose();
      }
      rows.insert(rows.begin() + s.integer(0, static_cast<int>(rows.size())), v);
    }
  }
  const Index K = static_cast<Index>(rows.size());
  o.qp.A_eq.resize(K, n);
  for (Index i = 0; i < K; ++i) o.qp.A_eq.row(i) = rows[static_cast<std::size_t>(i)].transpose();
  o.feasible = gen::Vec(s, n, -8, 8);
  if (redundant && !marginal) o.feasible = (o.feasible * 16.0).array().round() / 16.0;
  if (marginal) {
    // b of a multiple of a row has to be the same multiple exactly
    o.qp.b_eq.resize(K);
    for (Index i = 0; i < K; ++i) {
      double sum = 0;
      for (int j = 0; j < n; ++j) sum -= o.qp.A_eq(i, j) * o.feasible[j];
      o.qp.b_eq[i] = sum;
    }
  } else {
    o.qp.b_eq = -(o.qp.A_eq * o.feasible);
  }
  const double g_lo = s.logreal(0.1, 10);
  o.qp.G = gen::PosDef(s, n, g_lo, 20 * g_lo, 1.5);
  o.kind = s.chance(1, 3) ? s.integer(1, 2) : 0;
  if (o.kind == 1) {
    // Negative curvature only across the constraints.
    const double t = s.mag(1.0, 30.0) * g_lo;
    o.qp.G -= t * (o.A0 / scale).transpose() * (o.A0 / scale);
  } else if (o.kind == 2) {
    VectorXd v = gen::Vec(s, n, -1, 1);
    o.qp.G -= (s.mag(0.5, 100.0) * g_lo) * v * v.transpose();
    if (s.chance(1, 4)) o.qp.G = -o.qp.G;
  }
  if (flat > 0) {
    o.kind = 3;
    o.qp.G.rightCols(flat).setZero();
    o.qp.G.bottomRows(flat).setZero();
    if (flat == n - r && s.boolean()) o.qp.G.setZero();
  }
  o.qp.c = gen::Vec(s, n, -10, 10);
  if (s.chance(1, 8)) o.qp.c.setZero();
  if (s.boolean())
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < n; ++j) o.qp.G(i, j) = std::nan("");
  return o;
}

// Returns +1 definite on the null space, -1 clearly not, 0 undecided.
struct Truth {
  int sign{0};
  LMat Z;
  double gmin{0}, gnorm{0};
  MatrixXd G;
};
Truth Classify(const NS& o) {
  Truth t;
  t.G = o.qp.G.selfadjointView<Eigen::Lower>();
  t.Z = NullBasis(o.A0);
  t.gnorm = t.G.norm();
  if (o.kind == 3) {
    t.sign = -1;
    return t;
  }
  if (t.Z.cols() == 0) {
    t.sign = 1;
    t.gmin = 1;
    return t;
  }
  const MatrixXd red = (t.Z.transpose() * t.G.cast<long double>() * t.Z).cast<double>();
  const Eigen::SelfAdjointEigenSolver<MatrixXd> es(red);
  t.gmin = es.eigenvalues().minCoeff();
  t.sign = t.gmin > 1e-6 * t.gnorm ? 1 : t.gmin < -1e-6 * t.gnorm ? -1 : 0;
  return t;
}

void CheckSolve(pbt::Case& c, QPNullSpaceSolver& solver, const NS& o, const Truth& t) {
  QPNullSpaceTerminationState st{};
  try {
    st = solver.Solve(o.qp);
  } catch (const std::exception& e) {
    c.fail(pbt::str("solver threw: ", e.what()));
  }
  if (t.sign < 0) {
    c.require(st == QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE,
              [&] { return pbt::str("SUCCESS although the Hessian has curvature ", t.gmin, " along the constraints"); });
    c.label(o.kind == 3 ? "exactly singular along the constraints" : "not positive definite");
    return;
  }
  if (t.sign == 0) {
    c.label("nearly singular (not judged)");
    return;
  }
  c.require(st == QPNullSpaceTerminationState::SUCCESS,
            [&] { return pbt::str("NOT_POSITIVE_DEFINITE although the smallest curvature along the constraints is ", t.gmin); });
  const VectorXd& x = solver.variables();
  const Index n = o.qp.G.rows();
  c.require(x.size() == n && x.allFinite(), [&] { return pbt::str("solution ", gen::Fmt(x.transpose())); });
  // Constraints hold.
  const double xs = x.norm() + o.feasible.norm();
  const VectorXd e = (o.qp.A_eq.cast<long double>() * x.cast<long double>() + o.qp.b_eq.cast<long double>()).cast<double>();
  const double an = o.qp.A_eq.norm();
  c.worst("constraint error / (eps |A| |x|)", an > 0 && xs > 0 ? e.norm() / (2.2e-16 * an * xs) : 0.0);
  c.require(e.norm() <= 1e-11 * an * xs + 1e-300, [&] { return pbt::str("equality constraints violated by ", e.norm(), " at ", gen::Fmt(x.transpose())); });
  // Stationary along the constraints.
  if (t.Z.cols() > 0) {
    const LVec g = t.G.cast<long double>() * x.cast<long double>() + o.qp.c.cast<long double>();
    const double res = static_cast<double>((t.Z.transpose() * g).norm());
    const double size = t.gnorm * xs + o.qp.c.norm();
    if (size > 0) c.worst("gradient error / (eps size)", res / (2.2e-16 * size));
    c.require(res <= 1e-11 * size,
              [&] { return pbt::str("gradient along the constraints is ", res, " at ", gen::Fmt(x.transpose())); });
  }
  c.nontrivial();
  const bool red = o.qp.A_eq.rows() > o.rank;
  c.label(o.rank == n ? (red ? "fully determined, redundant rows" : "fully determined") : red ? "redundant rows" : "independent rows");
  if (o.kind == 1 && t.Z.cols() < n) c.label("indefinite outside the null space");
}

void One(pbt::Case& c, const bool redundant, const bool marginal = false) {
  const NS o = Make(c.src, redundant, marginal);
  c.describe([&](auto& os) { gen::Describe(os, o.qp); });
  QPNullSpaceSolver solver{};
  CheckSolve(c, solver, o, Classify(o));
}

// One solver object for a sequence of problems of different sizes and kinds.
void Sequence(pbt::Case& c) {
  QPNullSpaceSolver solver{};
  const int len = c.src.integer(2, 5);
  NS o;
  for (int i = 0; i < len; ++i) {
    const bool variant = i > 0 && c.src.boolean();
    if (variant) {
      // the problem before with few entries changed; it is only compared with what a fresh solver finds
      const int n = static_cast<int>(o.qp.G.rows()), K = static_cast<int>(o.qp.A_eq.rows());
      const int a = c.src.integer(0, n - 1), b = c.src.integer(0, n - 1);
      const double d = c.src.chance(1, 3) ? c.src.real(-1e-3, 1e-3) : c.src.real(-2, 2);
      switch (c.src.integer(0, 6)) {
        case 0: {
          const double f = c.src.real(-0.9, 0.9);
          const VectorXd diag = o.qp.G.diagonal();
          o.qp.G *= f;
          o.qp.G.diagonal() = diag;
          break;
        }
        case 1: o.qp.G(a, b) += d, o.qp.G(b, a) = o.qp.G(a, b); break;
        case 2: o.qp.G = -o.qp.G; break;
        case 3: o.qp.c[a] += d; break;
        case 4:
          if (K > 0) o.qp.b_eq[c.src.integer(0, K - 1)] += d;
          break;
        case 5:
          if (K > 1) {
            const int r0 = c.src.integer(0, K - 1), r1 = c.src.integer(0, K - 1);
            o.qp.A_eq.row(r0).swap(o.qp.A_eq.row(r1));
            if (r0 != r1 && c.src.boolean()) std::swap(o.qp.b_eq[r0], o.qp.b_eq[r1]);
          }
          break;
        default:
          if (K > 0) o.qp.A_eq(c.src.integer(0, K - 1), a) += d;
      }
      c.label("variant of the problem before");
    } else {
      o = Make(c.src, c.src.boolean());
    }
    c.describe([&](auto& os) { os << "problem " << i << ": ", gen::Describe(os, o.qp); });
    if (!variant) CheckSolve(c, solver, o, Classify(o));
    QPNullSpaceSolver fresh{};
    const auto b = solver.Solve(o.qp);
    const auto a = fresh.Solve(o.qp);
    c.require(a == b, "a reused solver classifies a problem differently from a fresh one");
    if (a == QPNullSpaceTerminationState::SUCCESS)
      c.require(ref::BitEqual(fresh.variables(), solver.variables()), "a reused solver gives another result than a fresh one");
  }
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C07";
  p.rule =
      "random equality constrained QPs (1-30 variables, any rank, duplicated/scaled/summed/zero rows, Hessians definite, indefinite across "
      "the constraints only, not definite or exactly singular along them, NaN in the unread triangle); optimality conditions evaluated on a null-space basis "
      "from independent Gram-Schmidt in long double. Non-trivial: a minimizer was returned and both conditions checked";
  p.assumptions = {"problems whose smallest curvature along the constraints is within 1e-6 |G| of zero are not judged",
                   "redundant rows are exact (rank decisions on nearly dependent rows are outside the property)"};
  p.facets = {
      {"independent", [](Case& c) { One(c, false); }, 120000, 5000000, 0.0},
      {"redundant", [](Case& c) { One(c, true); }, 120000, 5000000, 0.0},
      {"multiples", [](Case& c) { One(c, true, true); }, 60000, 3000000, 0.0},
      {"sequence", Sequence, 40000, 2000000, 0.0},
  };
  return p;
}
