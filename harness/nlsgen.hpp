// Generated nonlinear least squares problems, their reference evaluation, and a recorder of solver runs.
#pragma once
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "gen.hpp"
#include "mini_opt/nonlinear.hpp"
#include "ref.hpp"

namespace nls {

using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LVec = Eigen::Matrix<long double, Eigen::Dynamic, 1>;

// r_i(p) = a_i + B_i p + k_i/2 (V_i p)^2 + s_i sin(W_i p) + e_i exp(U_i p), optionally undefined (NaN or
// infinite) where dom_i p > limit_i.
struct Function {
  VectorXd a, k, s, e;
  MatrixXd B, V, W, U;
  MatrixXd dom;
  VectorXd limit;
  double undefined{0};  // 0: defined everywhere; otherwise the value (NaN, inf) outside the domain
  Index R() const { return a.size(); }
  Index P() const { return B.cols(); }

  template <typename T>
  Eigen::Matrix<T, Eigen::Dynamic, 1> Value(const Eigen::Matrix<T, Eigen::Dynamic, 1>& p) const {
    Eigen::Matrix<T, Eigen::Dynamic, 1> r(R());
    for (Index i = 0; i < R(); ++i) {
      const T v = Dot<T>(V, i, p), w = Dot<T>(W, i, p), u = Dot<T>(U, i, p);
      r[i] = T(a[i]) + Dot<T>(B, i, p) + T(k[i]) * v * v / 2 + T(s[i]) * std::sin(w) + (e[i] != 0 ? T(e[i]) * std::exp(u) : T(0));
      if (undefined != 0 && Dot<T>(dom, i, p) > T(limit[i])) r[i] = T(undefined);
    }
    return r;
  }
  template <typename T>
  Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> Jac(const Eigen::Matrix<T, Eigen::Dynamic, 1>& p) const {
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> J(R(), P());
    for (Index i = 0; i < R(); ++i) {
      const T v = Dot<T>(V, i, p), w = Dot<T>(W, i, p), u = Dot<T>(U, i, p);
      for (Index j = 0; j < P(); ++j)
        J(i, j) = T(B(i, j)) + T(k[i]) * v * T(V(i, j)) + T(s[i]) * std::cos(w) * T(W(i, j)) + (e[i] != 0 ? T(e[i]) * std::exp(u) * T(U(i, j)) : T(0));
    }
    return J;
  }

 private:
  template <typename T>
  static T Dot(const MatrixXd& m, Index i, const Eigen::Matrix<T, Eigen::Dynamic, 1>& p) {
    T t(0);
    for (Index j = 0; j < p.size(); ++j) t += T(m(i, j)) * p[j];
    return t;
  }
};

// Sees every call of a user function on this thread.
struct Probe {
  virtual ~Probe() = default;
  // term: position among the costs, then the equalities; p: the parameters it was given
  virtual void call(int term, const VectorXd& p, bool jacobian) = 0;
};
extern thread_local Probe* probe;

struct Term {
  std::vector<int> idx;
  Function f;
  bool fixed{false};  // use a compile-time number of parameters where there is one
  int id{-1};         // set by Spec::Build
  std::shared_ptr<const Function> live;  // if set, the built function reads this at every call (data that may change)
  mini_opt::Residual Build() const;
};

struct Spec {
  int n{0};
  std::vector<Term> costs, eqs;
  std::vector<mini_opt::LinearInequalityConstraint> bounds;
  VectorXd x0;
  VectorXd anchor;  // satisfies the equalities, strictly inside the bounds
  mini_opt::Problem Build() const;
  int K() const;
};

// Everything the solver derives from the problem at a point, in long double.
struct Local {
  LVec r, g;        // stacked costs and equality errors
  LMat J, A;        // and their Jacobians
  long double f{0}, eq{0};
};
Local Linearize(const Spec& p, const VectorXd& x);
// Only the values.
mini_opt::Errors Evaluate(const Spec& p, const VectorXd& x);
bool FiniteAt(const Spec& p, const VectorXd& x);

struct Opts {
  int n_usual = 4, n_large = 12;
  bool equalities = true, bounds = true;
  double p_eq = 0.5, p_bounds = 0.5;
  bool full_rank = true;      // add a prior on every variable
  double nonlinear = 1.0;     // scale of the nonlinear parts of the costs
  double eq_nonlinear = 0.5;  // and of the equalities
  bool undefined = false;     // some functions are undefined in a half space
  bool feasible_start = false;
};
Spec Make(pbt::Source& s, const Opts& o);
void Describe(std::ostream& os, const Spec& p);
// Adds, removes or replaces some costs and bounds of a problem, or regroups its equality constraints, in `p` and in
// the problem `built` that was made from it. The number of equality rows stays. Returns what was done.
std::string Edit(pbt::Source& s, Spec* p, mini_opt::Problem* built);

mini_opt::ConstrainedNonlinearLeastSquares::Params NLSParams(pbt::Source& s, int max_iters_hi);
void Describe(std::ostream& os, const mini_opt::ConstrainedNonlinearLeastSquares::Params& p);

struct Trial {
  double alpha;
  VectorXd x;
};
struct Iteration {
  std::optional<mini_opt::NLSIteration> info;
  VectorXd x0, x1, dx;  // variables before and after, search direction
  std::vector<Trial> trials;
};
struct Run {
  std::optional<mini_opt::NLSSolverOutputs> out;
  std::vector<Iteration> its;
  VectorXd x0, x;  // start, result
  bool threw{false};
  std::string what;
  bool callback_stopped{false};
  mini_opt::NLSTerminationState term() const { return out->termination_state; }
};

// Runs the solver, recording every trial point through the retraction hook and every iteration through the callback.
// stop_after: the callback returns false at that iteration (0 based), -1: never
Run Solve(const Spec& spec, const mini_opt::Problem& problem, const mini_opt::ConstrainedNonlinearLeastSquares::Params& p, const VectorXd& x0,
          int stop_after = -1);
// As above with an existing solver object that was made by MakeRecorder.
class Recorder {
 public:
  explicit Recorder(const mini_opt::Problem* problem);
  Run Solve(const mini_opt::ConstrainedNonlinearLeastSquares::Params& p, const VectorXd& x0, int stop_after = -1);
  mini_opt::ConstrainedNonlinearLeastSquares& solver() { return *solver_; }

 private:
  std::vector<Trial> trials_;
  VectorXd dx_;
  std::unique_ptr<mini_opt::ConstrainedNonlinearLeastSquares> solver_;
};

// A random problem with random parameters, solved; discarded if the solver threw.
struct Random {
  Spec spec;
  mini_opt::ConstrainedNonlinearLeastSquares::Params p;
  Run run;
};
Random MakeRun(pbt::Case& c, const Opts& o, int max_iters,
               const std::function<void(Spec&, mini_opt::ConstrainedNonlinearLeastSquares::Params&)>& adjust = {});

// Profiles of problems: ANY, strong nonlinearity with long line searches and many iterations, functions that are
// undefined in places, costs that do not determine every variable (indefinite inner problems), large damping.
enum class Profile { ANY, ROUGH, UNDEFINED, DEFICIENT, DAMPED };
Random ProfileRun(pbt::Case& c, Profile profile);

const char* Name(mini_opt::StepSizeSelectionResult r);
const char* Name(mini_opt::NLSTerminationState r);
std::string Fmt(const Iteration& it);
std::string Why(const Run& r);
bool Same(const mini_opt::NLSIteration& a, const mini_opt::NLSIteration& b);
bool Same(const mini_opt::NLSSolverOutputs& a, const mini_opt::NLSSolverOutputs& b);
bool Same(double a, double b);

inline double D(long double v) { return static_cast<double>(v); }

// QP of the linearization, in double.
mini_opt::QP SubProblem(const Spec& p, const VectorXd& x, double lambda);

}  // namespace nls
