#pragma once
#include <nlohmann/json.hpp>

#include "iogen.hpp"
#include "mini_opt/serialization.hpp"

namespace c23 {

using namespace mini_opt;
using nlohmann::json;

inline NLSSolverOutputs Get(pbt::Case& c, const json& j, const char* how) {
  try {
    return j.get<NLSSolverOutputs>();
  } catch (const std::exception& e) {
    c.fail(pbt::str("reading ", how, " fails: ", e.what(), " on ", j.dump()));
  }
}

inline void Nan(double& v) {
  if (!std::isfinite(v)) v = std::numeric_limits<double>::quiet_NaN();
}
inline NLSSolverOutputs NonFiniteToNaN(NLSSolverOutputs out) {
  for (NLSIteration& i : out.iterations) {
    Nan(i.lambda), Nan(i.penalty), Nan(i.errors_initial.f), Nan(i.errors_initial.equality);
    Nan(i.directional_derivatives.d_f), Nan(i.directional_derivatives.d_equality);
    if (i.qp_eigenvalues) Nan(i.qp_eigenvalues->min), Nan(i.qp_eigenvalues->max), Nan(i.qp_eigenvalues->abs_min);
    for (auto& s : i.line_search_steps) Nan(s.alpha), Nan(s.errors.f), Nan(s.errors.equality);
    if (auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&i.qp_outputs)) {
      if (ip->lagrange_multipliers) Nan(ip->lagrange_multipliers->min), Nan(ip->lagrange_multipliers->l_infinity);
      for (auto& q : ip->iterations) {
        for (KKTError* k : {&q.kkt_initial, &q.kkt_final}) Nan(k->r_dual), Nan(k->r_comp), Nan(k->r_primal_eq), Nan(k->r_primal_ineq);
        for (AlphaValues* a : {&q.ip_outputs.alpha, &q.ip_outputs.alpha_probe}) Nan(a->primal), Nan(a->dual);
        Nan(q.ip_outputs.mu), Nan(q.ip_outputs.mu_affine);
      }
    }
  }
  return out;
}

}  // namespace c23
