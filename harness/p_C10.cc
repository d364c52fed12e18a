// build: qp plain qp.cc structs.cc
// C10: algebra of linear inequality constraints: feasibility, clamping, shifting, the Var notation, rejected indices.
#include <cmath>

#include "ref.hpp"

using namespace mini_opt;
using LIC = LinearInequalityConstraint;

namespace {

double Coef(pbt::Source& s) {
  switch (s.integer(0, 3)) {
    case 0: return s.boolean() ? -1.0 : 1.0;
    case 1: return s.nonzero(0.1, 10.0);
    case 2: return (s.boolean() ? -1.0 : 1.0) * s.logreal(1e-12, 1e12);
    default: return std::ldexp(s.boolean() ? -1.0 : 1.0, s.integer(-20, 20));
  }
}
double Value(pbt::Source& s) {
  switch (s.integer(0, 4)) {
    case 0: return 0.0;
    case 1: return s.real(-10, 10);
    case 2: return (s.boolean() ? -1.0 : 1.0) * s.logreal(1e-12, 1e12);
    case 3: return static_cast<double>(s.integer(-8, 8));
    default: return s.real(-1e3, 1e3);
  }
}

void Feasible(pbt::Case& c) {
  const LIC k(c.src.integer(0, 5), Coef(c.src), Value(c.src));
  // at the bound, next to it, or anywhere
  double x = Value(c.src);
  const int where = c.src.integer(0, 2);
  const double bound = -k.b / k.a;
  if (where == 1) x = bound;
  if (where == 2) x = bound + c.src.real(-1, 1) * std::max(1e-12, std::abs(bound)) * std::pow(10.0, -c.src.integer(0, 12));
  c.describe([&](auto& os) { os << k.a << " * x + " << k.b << " >= 0 at x=" << x << "\n"; });
  const long double v = static_cast<long double>(k.a) * x + static_cast<long double>(k.b);
  const double err = 4e-16 * (std::abs(k.a * x) + std::abs(k.b));
  if (std::abs(static_cast<double>(v)) > err) {
    c.require(k.IsFeasible(x) == (v > 0), [&] { return pbt::str("IsFeasible is ", k.IsFeasible(x), " but a*x+b=", static_cast<double>(v)); });
    c.nontrivial();
  } else if (std::abs(k.a) == 1.0 && x == bound) {
    c.require(k.IsFeasible(x), "the bound itself must be feasible");
    c.nontrivial();
  }
  // Clamping: feasible up to rounding, unchanged if feasible, otherwise the bound; monotone; idempotent.
  const double y = k.ClampX(x);
  const long double vy = static_cast<long double>(k.a) * y + static_cast<long double>(k.b);
  c.require(vy >= -4e-16L * (std::abs(k.a * y) + std::abs(k.b)), [&] { return pbt::str("ClampX gives ", y, " with a*x+b=", static_cast<double>(vy)); });
  if (v > err) c.require(y == x, [&] { return pbt::str("ClampX moved a feasible value to ", y); });
  if (v < -err)
    c.require(std::abs(y - bound) <= 4e-16 * std::abs(bound), [&] { return pbt::str("ClampX gives ", y, ", the nearest feasible value is ", bound); });
  c.require(k.ClampX(y) == y, [&] { return pbt::str("clamping twice moves ", y, " to ", k.ClampX(y)); });
  const double x2 = x + c.src.mag(0, 5);
  c.require(k.ClampX(x2) >= y, "ClampX is not monotone");
  if (std::abs(k.a) == 1.0) c.require(k.IsFeasible(y), "clamped value of a unit constraint must be feasible");
  c.label(v > 0 ? "feasible" : "infeasible or at the bound");
}

void Shift(pbt::Case& c) {
  const LIC k(c.src.integer(0, 4), Coef(c.src), Value(c.src));
  const double x = Value(c.src), dx = Value(c.src);
  c.describe([&](auto& os) { os << k.a << " * x + " << k.b << " >= 0 shifted to x=" << x << ", dx=" << dx << "\n"; });
  const LIC s = k.ShiftTo(x);
  c.require(s.variable == k.variable && s.a == k.a, "ShiftTo changes the variable or the coefficient");
  const long double want = static_cast<long double>(k.a) * x + static_cast<long double>(k.b);
  c.require(std::abs(static_cast<double>(s.b - want)) <= 4e-16 * (std::abs(k.a * x) + std::abs(k.b)), [&] { return pbt::str("ShiftTo offset ", s.b); });
  const long double v = static_cast<long double>(k.a) * (static_cast<long double>(x) + dx) + static_cast<long double>(k.b);
  const double err = 1e-15 * (std::abs(k.a * x) + std::abs(k.a * dx) + std::abs(k.b));
  if (std::abs(static_cast<double>(v)) > err) {
    c.require(s.IsFeasible(dx) == (v > 0), [&] { return pbt::str("shifted constraint accepts dx=", dx, ": ", s.IsFeasible(dx), "; a*(x+dx)+b=", static_cast<double>(v)); });
    c.nontrivial();
  }
  // The vector form picks its own variable, and refuses indices outside the vector.
  const int n = c.src.integer(1, 6);
  Eigen::VectorXd p(n);
  for (int i = 0; i < n; ++i) p[i] = Value(c.src);
  const int var = c.src.integer(-2, 7);
  const LIC kv(var, k.a, k.b);
  bool threw = false;
  try {
    const LIC sv = kv.ShiftTo(p);
    if (var >= 0 && var < n) {
      const LIC expect = kv.ShiftTo(p[var]);
      c.require(sv.variable == var && sv.a == expect.a && sv.b == expect.b, [&] { return pbt::str("vector ShiftTo of variable ", var, " gives offset ", sv.b); });
    }
  } catch (const assert::default_error&) {
    threw = true;
  }
  c.require(threw == (var < 0 || var >= n), [&] { return pbt::str("index ", var, " into ", n, " variables: ", threw ? "rejected" : "accepted"); });
  c.label(threw ? "index rejected" : "index accepted");
}

// A zero coefficient leaves the sign of the offset; there is nothing to clamp to.
void ZeroCoefficient(pbt::Case& c) {
  const LIC k(c.src.integer(0, 5), c.src.boolean() ? 0.0 : -0.0, Value(c.src));
  const double x = Value(c.src);
  c.describe([&](auto& os) { os << k.a << " * x + " << k.b << " >= 0 at x=" << x << "\n"; });
  c.require(k.IsFeasible(x) == (k.b >= 0), [&] { return pbt::str("IsFeasible is ", k.IsFeasible(x), " but a*x+b=", k.b); });
  const LIC s = k.ShiftTo(x);
  c.require(s.variable == k.variable && s.a == 0 && s.b == k.b, [&] { return pbt::str("ShiftTo gives ", s.a, " * dx + ", s.b); });
  bool threw = false;
  try {
    (void)k.ClampX(x);
  } catch (const assert::default_error&) {
    threw = true;
  }
  c.require(threw, "ClampX accepts a zero coefficient");
  c.nontrivial();
  c.label(k.b >= 0 ? "always satisfied" : "never satisfied");
}

void Notation(pbt::Case& c) {
  const int i = c.src.integer(0, 9);
  const double v = Value(c.src), x = c.src.chance(1, 3) ? v : Value(c.src);
  c.describe([&](auto& os) { os << "Var(" << i << ") <= / >= " << v << " at x=" << x << "\n"; });
  const LIC le = Var(i) <= v, ge = Var(i) >= v;
  c.require(le.variable == i && ge.variable == i, "Var keeps the index");
  c.require(le.IsFeasible(x) == (x <= v), [&] { return pbt::str("Var <= ", v, " accepts ", x, ": ", le.IsFeasible(x)); });
  c.require(ge.IsFeasible(x) == (x >= v), [&] { return pbt::str("Var >= ", v, " accepts ", x, ": ", ge.IsFeasible(x)); });
  c.require(le.ClampX(x) == std::min(x, v) && ge.ClampX(x) == std::max(x, v),
            [&] { return pbt::str("clamping ", x, " gives ", le.ClampX(x), " and ", ge.ClampX(x)); });
  c.nontrivial();
}

// The solvers refuse constraints on variables that do not exist.
void SolverIndices(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 5;
  o.n_large = 12;
  o.need_inequality = true;
  gen::QPCase q = gen::MakeQP(c.src, o);
  const int n = q.N();
  int var = c.src.integer(-3, n + 3);
  if (c.src.chance(1, 10)) var = c.src.boolean() ? -2147483647 - 1 : 2147483647;
  auto& k = q.qp.constraints[static_cast<std::size_t>(c.src.integer(0, q.M() - 1))];
  k = LIC(var, k.a, k.b);
  c.describe([&](auto& os) { gen::Describe(os, q.qp); });
  const bool ok = var >= 0 && var < n;
  bool threw = false;
  try {
    QPInteriorPointSolver s(&q.qp);
  } catch (const assert::default_error&) {
    threw = true;
  }
  c.require(threw != ok, [&] { return pbt::str("constraint on variable ", var, " of ", n, threw ? " rejected" : " accepted"); });
  c.label(ok ? "accepted" : "rejected");
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C10";
  p.rule =
      "constraints with coefficients over 24 orders of magnitude and signs, values at, next to and far from the bound; oracle: a*x+b in long "
      "double with its rounding bound. Non-trivial: the value is far enough from the bound for the verdict to be determined, or exactly at it "
      "for unit coefficients";
  p.assumptions = {"within one rounding error of the bound either verdict is accepted for non-unit coefficients"};
  p.facets = {
      {"feasible", Feasible, 1000000, 60000000, 0.0},
      {"shift", Shift, 600000, 40000000, 0.0},
      {"zero_coefficient", ZeroCoefficient, 100000, 4000000, 0.0},
      {"notation", Notation, 600000, 40000000, 0.0},
      {"solver_indices", SolverIndices, 100000, 4000000, 0.0},
  };
  return p;
}
