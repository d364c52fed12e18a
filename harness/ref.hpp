// Independent reference computations for QPs (no code shared with mini_opt's solvers).
#pragma once
#include <Eigen/Dense>
#include <optional>
#include <string>
#include <vector>

#include "gen.hpp"
#include "mini_opt/qp.hpp"

namespace ref {

using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;

// Dense copy of a QP with everything explicit.
struct Model {
  MatrixXd G, A, Ai;
  VectorXd c, b, bi;
  Index N, M, K;
  explicit Model(const mini_opt::QP& qp);
};

struct State {
  VectorXd x, s, y, z;
  bool finite() const { return x.allFinite() && s.allFinite() && y.allFinite() && z.allFinite(); }
  // Norms of the residuals cannot overflow.
  bool tame() const {
    auto ok = [](const VectorXd& v) { return v.allFinite() && (v.size() == 0 || v.cwiseAbs().maxCoeff() < 1e70); };
    return ok(x) && ok(s) && ok(y) && ok(z);
  }
  double mu() const { return s.size() ? s.dot(z) / static_cast<double>(s.size()) : 0.0; }
};

State Get(const mini_opt::QPInteriorPointSolver& solver);
VectorXd Stack(const State& st);
bool BitEqual(const VectorXd& a, const VectorXd& b);
bool BitEqual(const State& a, const State& b);
std::string Fmt(const State& st);

struct Residuals {
  VectorXd dual, comp, eq, ineq;  // comp = s*z - mu
  // Sums of the absolute values of the terms, to bound the rounding error of the norms.
  double dual_scale{0}, comp_scale{0}, eq_scale{0}, ineq_scale{0};
};
Residuals KKT(const Model& m, const State& st, double mu);

// Newton step of the perturbed KKT conditions, solved as one dense system in extended precision.
//   corr: extra term added to s*z - mu (second order correction), may be empty
struct Step {
  VectorXd dx, ds, dy, dz;
  // Componentwise bounds for the error of a double precision solver that eliminates s and z.
  VectorXd ex, ey, es, ez;
  bool ok{false};
  double cond{0};
};
Step Newton(const Model& m, const State& st, double mu, const VectorXd& corr);

// Longest step: the fraction-to-the-boundary rule.
//  strict: every element must keep (1 - tau) of its value (textbook)
//  code:   only elements that would become <= 0 are considered
double AlphaStrict(const VectorXd& v, const VectorXd& d, double tau);
double AlphaCode(const VectorXd& v, const VectorXd& d, double tau);

// Minimizer of the QP without its inequalities (dense full-pivot LU). empty if singular.
struct EqMin {
  VectorXd x, y;
  double cond{0};
  bool ok{false};
};
EqMin EqualityMin(const Model& m);

// Minimizer of a small strictly convex QP, by trying every set of active constraints.
struct ActiveSet {
  VectorXd x, y, z;
  bool ok{false};
};
ActiveSet Enumerate(const Model& m);

// Complete run of the interior point solver: the state after every iteration (obtained by
// re-running with smaller limits) and the log.
struct History {
  std::vector<State> states;  // states[k] is the state after k+1 iterations
  mini_opt::QPInteriorPointSolverOutputs out;
  bool threw{false};
  std::string what;
};
History Run(const mini_opt::QP& qp, const mini_opt::QPInteriorPointSolver::Params& p,
            const std::optional<VectorXd>& user = std::nullopt, int max_states = 1000);

// Short reason a run threw.
std::string Why(const History& h);

// The initial point described by the parameters (not for USER_PROVIDED).
State InitialGuess(const Model& m, const mini_opt::QP& qp, bool naive, bool* well_conditioned);

bool Near(double a, double b, double rel, double abs_tol);

}  // namespace ref
