// build: nls plain
// C15: the reported termination state is true, the solver stops as soon as one applies, and the log describes the run.
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>

#include "nlsgen.hpp"

using namespace mini_opt;
using nls::Index;
using nls::LMat;
using nls::LVec;
using nls::MatrixXd;
using nls::VectorXd;
using LD = long double;
using Result = StepSizeSelectionResult;
using Term = NLSTerminationState;

namespace {

struct Slope {
  LD f{0}, eq{0}, f_err{0}, eq_err{0};
};
Slope Slopes(const nls::Local& l, const VectorXd& step) {
  Slope s;
  const LVec dx = step.cast<LD>();
  s.f = (l.J.transpose() * l.r).dot(dx);
  s.f_err = 1e-12L * (l.J.cwiseAbs().transpose() * l.r.cwiseAbs()).dot(dx.cwiseAbs());
  const LVec Adx = l.A * dx, Aabs = l.A.cwiseAbs() * dx.cwiseAbs();
  for (Index j = 0; j < l.g.size(); ++j) s.eq += l.g[j] > 0 ? Adx[j] : l.g[j] < 0 ? -Adx[j] : 0.0L;
  s.eq_err = 1e-12L * Aabs.sum();
  return s;
}

// Damping the next iteration would have used.
double NextLambda(const NLSIteration& i, const OptimizerState before, const ConstrainedNonlinearLeastSquares::Params& p) {
  const bool restoring = before == OptimizerState::ATTEMPTING_RESTORE_LM;
  if (i.step_result == Result::SUCCESS) return std::max(i.lambda * (restoring ? p.lambda_decrease_on_restore : p.lambda_decrease_on_success), p.min_lambda);
  if (i.step_result == Result::MAX_ITERATIONS || i.step_result == Result::POSITIVE_DERIVATIVE)
    return restoring ? i.lambda * 10 : std::max(p.lambda_failure_init, i.lambda * 10);
  return i.lambda;
}

void Check(pbt::Case& c, const nls::Random& r) {
  const auto& p = r.p;
  const NLSSolverOutputs& out = *r.run.out;
  const Term term = out.termination_state;
  auto end = [&](const std::string& m) { return [&, m] { return pbt::str("ended with ", nls::Name(term), " after ", out.iterations.size(), " iterations, ", m, r.run.its.empty() ? "" : ": " + nls::Fmt(r.run.its.back())); }; };
  c.label(nls::Name(term));
  c.require(out.iterations.size() == r.run.its.size(), end("but the callback was called a different number of times"));
  c.require(static_cast<int>(out.iterations.size()) <= p.max_iterations, end("more than allowed"));
  c.require(term != Term::USER_CALLBACK, end("but the callback never asked for it"));
  OptimizerState before = OptimizerState::NOMINAL;
  for (std::size_t k = 0; k < r.run.its.size(); ++k) {
    const nls::Iteration& it = r.run.its[k];
    const NLSIteration& i = *it.info;
    const bool last = k + 1 == r.run.its.size();
    auto say = [&](const std::string& m) { return [&, m] { return pbt::str("iteration ", k, " ", m, " (the run ended with ", nls::Name(term), "): ", nls::Fmt(it)); }; };
    c.require(nls::Same(out.iterations[k], i), say("is logged differently from what the callback saw"));
    c.require(i.iteration == static_cast<int>(k), say("is numbered wrong"));
    // The log is continuous: the errors at the start of an iteration are those the previous one ended with.
    if (k > 0) {
      const NLSIteration& prev = *r.run.its[k - 1].info;
      const Errors& want = prev.step_result == Result::SUCCESS ? prev.line_search_steps.back().errors : prev.errors_initial;
      c.require(ref::Near(i.errors_initial.f, want.f, 1e-12, 1e-300) && ref::Near(i.errors_initial.equality, want.equality, 1e-12, 1e-300),
                say("does not start with the errors the previous one ended with"));
    }
    const bool exits = last && term != Term::MAX_ITERATIONS && term != Term::QP_INDEFINITE;
    const nls::Local l = nls::Linearize(r.spec, it.x0);
    if (i.step_result == Result::SUCCESS) {
      const Errors e0 = nls::Evaluate(r.spec, it.x0), e1 = nls::Evaluate(r.spec, it.x1);
      const LD t0 = static_cast<LD>(e0.f) + static_cast<LD>(i.penalty) * e0.equality, t1 = static_cast<LD>(e1.f) + static_cast<LD>(i.penalty) * e1.equality;
      const LD err = 1e-13L * (t0 + t1);
      const bool may_abs = e1.LInfinity() <= p.absolute_exit_tol * (1 + 1e-12), must_abs = e1.LInfinity() < p.absolute_exit_tol * (1 - 1e-12);
      const LD limit = t0 * (1 - static_cast<LD>(p.relative_exit_tol));
      const bool may_rel = t1 > limit - err, must_rel = t1 > limit + err;
      if (exits) {
        c.require(term == Term::SATISFIED_ABSOLUTE_TOL || term == Term::SATISFIED_RELATIVE_TOL, say("was successful, which cannot cause this exit"));
        c.require(term != Term::SATISFIED_ABSOLUTE_TOL || may_abs, say(pbt::str("left errors (", e1.f, ", ", e1.equality, ") above the absolute tolerance ", p.absolute_exit_tol)));
        c.require(term != Term::SATISFIED_RELATIVE_TOL || may_rel, say(pbt::str("reduced the merit function from ", nls::D(t0), " to ", nls::D(t1), ", more than the relative tolerance")));
        c.require(term != Term::SATISFIED_RELATIVE_TOL || !must_abs, say("satisfied the absolute tolerance, which has precedence"));
      } else if (std::isfinite(nls::D(t0 + t1))) {
        c.require(!must_abs, say(pbt::str("left errors (", e1.f, ", ", e1.equality, ") below the absolute tolerance ", p.absolute_exit_tol, " but did not end the run")));
        c.require(!must_rel, say(pbt::str("reduced the merit function only from ", nls::D(t0), " to ", nls::D(t1), " but did not end the run")));
      }
    } else {
      c.require(!exits || term == Term::SATISFIED_FIRST_ORDER_TOL || term == Term::MAX_LAMBDA, say("was not successful, which cannot cause this exit"));
      const double next = NextLambda(i, before, p);
      if (i.step_result == Result::MAX_ITERATIONS || i.step_result == Result::POSITIVE_DERIVATIVE) {
        const bool may = next > p.max_lambda * (1 - 1e-12), must = next > p.max_lambda * (1 + 1e-12);
        c.require(!exits || term == Term::MAX_LAMBDA, say("failed, which can only cause MAX_LAMBDA"));
        c.require(exits ? may : !must, say(pbt::str("raised the damping to ", next, ", maximum ", p.max_lambda)));
      }
      if (i.step_result == Result::FIRST_ORDER_SATISFIED) {
        c.require(exits && term == Term::SATISFIED_FIRST_ORDER_TOL, say("satisfied the first order tolerance but did not end the run"));
      }
      if (i.step_result == Result::FAILURE_NON_FINITE_COST || i.step_result == Result::FAILURE_INVALID_ALPHA)
        c.require(!exits, say("could not have ended the run"));
    }
    const Slope s = Slopes(l, it.dx);
    const bool last_finite = std::isfinite(i.line_search_steps.back().errors.f) && std::isfinite(i.line_search_steps.back().errors.equality);
    const LD tol = static_cast<LD>(p.absolute_first_derivative_tol);
    if (std::isfinite(nls::D(s.f_err + s.eq_err))) {
      if (exits && term == Term::SATISFIED_FIRST_ORDER_TOL) {
        c.require(std::abs(s.f) < tol + s.f_err && std::abs(s.eq) < tol + s.eq_err,
                  say(pbt::str("has slopes (", nls::D(s.f), ", ", nls::D(s.eq), "), not below the tolerance ", p.absolute_first_derivative_tol)));
        if (r.spec.eqs.empty() && r.spec.bounds.empty()) {
          // The slope along a Newton direction is -g'H^-1 g: the gradient itself must be small.
          LMat H = l.J.transpose() * l.J;
          H.diagonal().array() += static_cast<LD>(i.lambda);
          const LVec g = l.J.transpose() * l.r;
          // With a Hessian singular to working precision the direction is rounding error, and can even come out as zero.
          const LVec ev = Eigen::SelfAdjointEigenSolver<LMat>(H, Eigen::EigenvaluesOnly).eigenvalues();
          if (ev.size() > 0 && ev[0] < 1e-11L * ev[ev.size() - 1]) {
            c.label("singular at the end");
            continue;
          }
          c.require(g.squaredNorm() <= (tol + s.f_err) * H.trace() * 1.001L + 1e-20L * g.cwiseAbs().sum(),
                    say(pbt::str("is not stationary: gradient ", gen::Fmt(g.cast<double>().transpose()))));
          c.label("stationary point verified");
        }
      } else if (last_finite) {
        c.require(!(std::abs(s.f) < tol - s.f_err && std::abs(s.eq) < tol - s.eq_err), say("has slopes below the first order tolerance but did not end the run"));
      }
    }
    before = i.optimizer_state;
  }
  if (term == Term::MAX_ITERATIONS) c.require(static_cast<int>(out.iterations.size()) == p.max_iterations, end("although fewer than allowed"));
  if (term != Term::MAX_ITERATIONS && term != Term::QP_INDEFINITE) c.require(!out.iterations.empty(), end("without an iteration to justify it"));
  if (term == Term::QP_INDEFINITE) {
    c.require(!r.spec.eqs.empty() && r.spec.bounds.empty(), end("which only the null-space solver detects"));
    c.require(static_cast<int>(out.iterations.size()) < p.max_iterations, end("with no iteration left"));
    const nls::Local l = nls::Linearize(r.spec, r.run.x);
    double lambda = p.lambda_initial;
    if (!r.run.its.empty())
      lambda = NextLambda(*r.run.its.back().info, r.run.its.size() > 1 ? r.run.its[r.run.its.size() - 2].info->optimizer_state : OptimizerState::NOMINAL, p);
    const Eigen::JacobiSVD<MatrixXd> svd(l.A.cast<double>(), Eigen::ComputeFullV);
    const MatrixXd Z = svd.matrixV().rightCols(r.spec.n - std::min<Index>(r.spec.n, l.A.rows()));
    LMat G = l.J.transpose() * l.J;
    G.diagonal().array() += static_cast<LD>(lambda);
    const double scale = nls::D(G.norm());
    if (svd.singularValues().minCoeff() > 1e-6 * svd.singularValues().maxCoeff() && std::isfinite(scale)) {
      c.require(Z.cols() > 0, end("although the equalities leave no freedom"));
      const Eigen::SelfAdjointEigenSolver<MatrixXd> es(Z.transpose() * G.cast<double>() * Z);
      c.require(es.eigenvalues()[0] <= 1e-8 * scale, end(pbt::str("although the eigenvalues of the reduced Hessian are ", gen::Fmt(es.eigenvalues().transpose()))));
    }
  }
  if (out.iterations.size() > 1 || term != Term::MAX_ITERATIONS) c.nontrivial();
}

void Run(pbt::Case& c, const nls::Profile p) { Check(c, nls::ProfileRun(c, p)); }

// Tolerances chosen so that the different exits compete.
void Exits(pbt::Case& c) {
  nls::Opts o;
  o.nonlinear = c.src.chance(1, 3) ? 0.0 : 2.0;
  o.n_usual = 2;
  o.n_large = 6;
  const int kind = c.src.integer(0, 3);
  Check(c, nls::MakeRun(c, o, 10, [&](nls::Spec& s, ConstrainedNonlinearLeastSquares::Params& p) {
    if (c.src.boolean()) p.absolute_first_derivative_tol = 0;
    if (kind == 1) {
      // a cost of (nearly) zero can be reached
      const double off = c.src.boolean() ? 0.0 : c.src.logreal(1e-8, 0.1);
      for (auto& t : s.costs) {
        VectorXd q(static_cast<Index>(t.idx.size()));
        for (std::size_t j = 0; j < t.idx.size(); ++j) q[static_cast<Index>(j)] = s.anchor[t.idx[j]];
        t.f.a -= t.f.Value<double>(q);
        t.f.a.array() += off;
      }
      p.absolute_exit_tol = c.src.logreal(1e-14, 1.0);
      p.relative_exit_tol = c.src.boolean() ? 0.0 : c.src.logreal(1e-9, 0.9);
    } else if (kind == 2) {
      p.absolute_exit_tol = c.src.logreal(1e-3, 100.0);
      p.relative_exit_tol = c.src.mag(0.0, 1.0);
    } else if (kind == 3) {
      p.max_lambda = c.src.logreal(1e-3, 10.0);
      p.min_lambda = 0;
      p.lambda_initial = 0;
      p.lambda_failure_init = c.src.chance(1, 4) ? p.max_lambda : c.src.logreal(1e-4, 20.0);
      p.max_line_search_iterations = 0;
    }
  }));
}

// No iterations allowed.
void None(pbt::Case& c) {
  nls::Opts o;
  const nls::Random r = nls::MakeRun(c, o, 3, [](nls::Spec&, ConstrainedNonlinearLeastSquares::Params& p) { p.max_iterations = 0; });
  c.require(r.run.out->iterations.empty() && r.run.term() == Term::MAX_ITERATIONS && r.run.its.empty(), "a run of no iterations must report that it hit the limit");
  c.require(ref::BitEqual(r.run.x, r.spec.x0), "a run of no iterations changed the variables");
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C15";
  p.rule =
      "random nonlinear problems and tolerances, some chosen so that several exits compete; costs, slopes, damping and the reduced Hessian "
      "recomputed from the problem. Non-trivial: the run had more than one iteration or ended before the limit";
  p.assumptions = {"quantities within 1e-12 (relative) of their tolerance may be decided either way"};
  using P = nls::Profile;
  p.facets = {
      {"any", [](Case& c) { Run(c, P::ANY); }, 80000, 6000000, 0.3},
      {"exits", Exits, 150000, 9000000, 0.3},
      {"rough", [](Case& c) { Run(c, P::ROUGH); }, 40000, 2000000, 0.3},
      {"undefined", [](Case& c) { Run(c, P::UNDEFINED); }, 30000, 2000000, 0.3},
      {"damped", [](Case& c) { Run(c, P::DAMPED); }, 40000, 2000000, 0.3},
      {"deficient", [](Case& c) { Run(c, P::DEFICIENT); }, 60000, 3000000, 0.3},
      {"none", None, 2000, 20000, 0.3},
  };
  return p;
}
