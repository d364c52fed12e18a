#pragma once
#include <nlohmann/json.hpp>

#include "iogen.hpp"
#include "mini_opt/serialization.hpp"

namespace c30 {

using namespace mini_opt;
using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;

// What a run leaves behind, as text (bit exact).
inline void Put(std::string& s, const double v) {
  char b[40];
  std::snprintf(b, sizeof b, "%a ", v);
  s += std::isnan(v) ? "nan " : b;
}
inline void Put(std::string& s, const VectorXd& v) {
  for (Index i = 0; i < v.size(); ++i) Put(s, v[i]);
}

inline std::string QPRuns(pbt::Case& c, const gen::QPCase& q, const QPInteriorPointSolver::Params& p, const bool user) {
  std::string r;
  (void)c;
  QPInteriorPointSolver s(&q.qp);
  if (user) {
    s.SetVariables(VectorXd::Ones(q.N() + 2 * q.M() + q.K()));
    s.x_block() = q.interior;
  }
  try {
    const auto out = s.Solve(p);
    for (const auto& it : out.iterations) r += it.ToString(), Put(r, it.kkt_final.r_dual), Put(r, it.ip_outputs.mu), Put(r, it.ip_outputs.alpha.primal), Put(r, it.ip_outputs.alpha_probe.primal), Put(r, it.ip_outputs.mu_affine);
    Put(r, s.variables());
    Put(r, VectorXd(s.s_block()));
    Put(r, VectorXd(s.z_block()));
    Put(r, VectorXd(s.y_block()));
  } catch (const std::exception& e) {
    r += "threw";
  }
  const QPEigenvalues e = q.qp.ComputeEigenvalueStats();
  Put(r, e.min), Put(r, e.max), Put(r, e.abs_min);
  if (q.K() > 0) {
    QPNullSpaceSolver n;
    r += static_cast<char>('0' + static_cast<int>(n.Solve(q.qp)));
    Put(r, n.variables());
    // again, with the storage of the first run
    r += static_cast<char>('0' + static_cast<int>(n.Solve(q.qp)));
    Put(r, n.variables());
  }
  return r;
}

inline std::string NLSRuns(const nls::Spec& spec, const ConstrainedNonlinearLeastSquares::Params& p, const bool color, const bool verbose) {
  std::string r;
  const Problem problem = spec.Build();
  ConstrainedNonlinearLeastSquares s(&problem);
  for (int k = 0; k < 2; ++k) {
    try {
      const NLSSolverOutputs out = s.Solve(p, k == 0 ? spec.x0 : spec.anchor);
      r += out.ToString(color, verbose);
      const nlohmann::json j = out;
      r += j.dump();
      const auto back = j.get<NLSSolverOutputs>();
      r += back.ToString(color, verbose);
      for (const auto& it : out.iterations) {
        Put(r, it.lambda), Put(r, it.penalty), Put(r, it.errors_initial.f), Put(r, it.directional_derivatives.d_f);
        for (const auto& t : it.line_search_steps) Put(r, t.alpha), Put(r, t.errors.f);
      }
    } catch (const std::exception&) {
      r += "threw";
    }
    Put(r, s.variables());
  }
  return r;
}

struct NLSInput {
  nls::Spec spec;
  ConstrainedNonlinearLeastSquares::Params p;
  bool color, verbose;
};
inline NLSInput MakeNLS(pbt::Case& c) {
  nls::Opts o;
  o.full_rank = !c.src.chance(1, 4);
  o.undefined = c.src.chance(1, 6);
  o.nonlinear = c.src.boolean() ? 1.0 : 6.0;
  NLSInput in{nls::Make(c.src, o), nls::NLSParams(c.src, 8), c.src.boolean(), c.src.boolean()};
  c.describe([&](auto& os) { nls::Describe(os, in.spec), nls::Describe(os, in.p); });
  return in;
}

}  // namespace c30
