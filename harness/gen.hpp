// Generators shared by the properties. All randomness goes through pbt::Source.
#pragma once
#include <Eigen/Core>
#include <vector>

#include "engine.hpp"
#include "mini_opt/qp.hpp"

namespace gen {

using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;

VectorXd Vec(pbt::Source& s, Index n, double lo, double hi);

// Symmetric positive definite matrix: D + sum of rank one terms. `d_lo` bounds the smallest
// eigenvalue from below.
MatrixXd PosDef(pbt::Source& s, Index n, double d_lo, double d_hi, double off);

// K x N with full row rank, reasonably conditioned (K <= N).
MatrixXd FullRowRank(pbt::Source& s, Index k, Index n);

// Size of a problem: usually small, sometimes large.
int Size(pbt::Source& s, int lo, int usual, int large);

struct QPCase {
  mini_opt::QP qp{};
  // A point that satisfies the equalities and is strictly inside every inequality.
  VectorXd interior;
  // Known optimum (only if has_optimum).
  bool has_optimum{false};
  VectorXd x, y, z, s;
  double g_min_eig{0};  // lower bound for the smallest eigenvalue of G
  int N() const { return static_cast<int>(qp.G.rows()); }
  int M() const { return static_cast<int>(qp.constraints.size()); }
  int K() const { return static_cast<int>(qp.A_eq.rows()); }
};

struct QPOpts {
  int n_usual = 8, n_large = 30;
  bool inequalities = true;
  bool equalities = true;
  double g_lo = 0.1, g_hi = 10.0;  // eigenvalue floor range of G
  bool known_optimum = false;      // choose c from a known optimum
  bool dirty_upper = false;        // put NaN in the strict upper triangle of G
  bool need_inequality = false;
  double slack_lo = 0.05, slack_hi = 5.0;
  double x_range = 4.0;
  bool wide_range = true;  // sometimes use 25 times x_range
};

QPCase MakeQP(pbt::Source& s, const QPOpts& o);

// Print a QP.
void Describe(std::ostream& os, const mini_opt::QP& qp);
std::string Fmt(const Eigen::Ref<const Eigen::MatrixXd>& m);

mini_opt::QPInteriorPointSolver::Params QPParams(pbt::Source& s, int max_iters_hi);
void Describe(std::ostream& os, const mini_opt::QPInteriorPointSolver::Params& p);

}  // namespace gen
