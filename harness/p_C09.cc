// build: qp plain qp.cc structs.cc
// C09: a run of the QP solvers is a function of the problem and the parameters: deterministic, prefix-closed in the
// iteration limit, independent of earlier use of the solver object and of entries documented as unread, equivariant
// under renaming of variables and constraints, and it leaves the problem alone.
#include <cstring>

#include "ref.hpp"

using namespace mini_opt;
using Params = QPInteriorPointSolver::Params;
using ref::Index;
using ref::VectorXd;

namespace {

struct Copy {
  Eigen::MatrixXd G, A;
  VectorXd c, b;
  std::vector<LinearInequalityConstraint> k;
  explicit Copy(const QP& q) : G(q.G), A(q.A_eq), c(q.c), b(q.b_eq), k(q.constraints) {}
  bool Same(const QP& q) const {
    auto eq = [](const Eigen::MatrixXd& x, const Eigen::MatrixXd& y) {
      return x.rows() == y.rows() && x.cols() == y.cols() && (x.size() == 0 || std::memcmp(x.data(), y.data(), sizeof(double) * static_cast<std::size_t>(x.size())) == 0);
    };
    if (!eq(G, q.G) || !eq(A, q.A_eq) || !eq(c, q.c) || !eq(b, q.b_eq) || k.size() != q.constraints.size()) return false;
    for (std::size_t i = 0; i < k.size(); ++i)
      if (k[i].variable != q.constraints[i].variable || k[i].a != q.constraints[i].a || k[i].b != q.constraints[i].b) return false;
    return true;
  }
};

bool Same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
bool Same(const AlphaValues& a, const AlphaValues& b) { return Same(a.primal, b.primal) && Same(a.dual, b.dual); }
bool Same(const KKTError& a, const KKTError& b) {
  return Same(a.r_dual, b.r_dual) && Same(a.r_comp, b.r_comp) && Same(a.r_primal_eq, b.r_primal_eq) && Same(a.r_primal_ineq, b.r_primal_ineq);
}
bool Same(const QPInteriorPointIteration& a, const QPInteriorPointIteration& b) {
  return Same(a.kkt_initial, b.kkt_initial) && Same(a.kkt_final, b.kkt_final) && Same(a.ip_outputs.mu, b.ip_outputs.mu) &&
         Same(a.ip_outputs.alpha, b.ip_outputs.alpha) && Same(a.ip_outputs.alpha_probe, b.ip_outputs.alpha_probe) &&
         Same(a.ip_outputs.mu_affine, b.ip_outputs.mu_affine);
}

struct R {
  bool threw{false};
  QPInteriorPointSolverOutputs out;
  ref::State st;
};
R Solve(QPInteriorPointSolver& s, const Params& p, const std::optional<VectorXd>& user) {
  R r;
  if (user) s.SetVariables(*user);
  try {
    r.out = s.Solve(p);
  } catch (const FailedFactorization&) {
    r.threw = true;
  } catch (const assert::default_error&) {
    r.threw = true;
  }
  r.st = ref::Get(s);
  return r;
}
void RequireSame(pbt::Case& c, const R& a, const R& b, const char* what, const bool prefix = false) {
  c.require(a.threw == b.threw, [&] { return pbt::str(what, ": one run threw, the other did not"); });
  if (a.threw) return;
  const std::size_t n = prefix ? std::min(a.out.iterations.size(), b.out.iterations.size()) : a.out.iterations.size();
  if (!prefix)
    c.require(a.out.iterations.size() == b.out.iterations.size() && a.out.termination_state == b.out.termination_state,
              [&] { return pbt::str(what, ": ", a.out.iterations.size(), " and ", b.out.iterations.size(), " iterations"); });
  for (std::size_t i = 0; i < n; ++i)
    c.require(Same(a.out.iterations[i], b.out.iterations[i]), [&] { return pbt::str(what, ": the logs of iteration ", i, " differ"); });
  if (prefix) return;
  c.require(ref::BitEqual(a.st, b.st), [&] { return pbt::str(what, ": results differ: ", ref::Fmt(a.st), " and ", ref::Fmt(b.st)); });
  c.require(a.out.lagrange_multipliers.has_value() == b.out.lagrange_multipliers.has_value(), "multiplier summary present in one run only");
  if (a.out.lagrange_multipliers)
    c.require(Same(a.out.lagrange_multipliers->min, b.out.lagrange_multipliers->min) &&
                  Same(a.out.lagrange_multipliers->l_infinity, b.out.lagrange_multipliers->l_infinity),
              [&] { return pbt::str(what, ": multiplier summaries differ"); });
}

std::optional<VectorXd> MaybeStart(pbt::Source& s, const gen::QPCase& q, Params& p) {
  if (!s.chance(1, 3)) return std::nullopt;
  p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
  const int N = q.N(), M = q.M(), K = q.K();
  VectorXd v(N + 2 * M + K);
  v.head(N) = gen::Vec(s, N, -4, 4);
  for (int i = 0; i < M; ++i) v[N + i] = s.logreal(1e-3, 1e3);
  for (int i = 0; i < K; ++i) v[N + M + i] = s.real(-5, 5);
  for (int i = 0; i < M; ++i) v[N + M + K + i] = s.logreal(1e-3, 1e3);
  return v;
}

gen::QPCase Problem(pbt::Source& s) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 20;
  o.known_optimum = s.chance(1, 4);
  return gen::MakeQP(s, o);
}

// A problem that differs from `q` in little: what a solver might wrongly carry over from one to the next.
void Vary(pbt::Source& s, gen::QPCase& q) {
  const int N = q.N(), K = q.K();
  const int times = s.chance(1, 4) ? 2 : 1;
  for (int t = 0; t < times; ++t) {
    const int M = q.M();
    const int i = s.integer(0, N - 1), j = s.integer(0, N - 1);
    const double d = s.chance(1, 3) ? s.real(-1e-3, 1e-3) : s.real(-2, 2);
    switch (s.integer(0, 9)) {
      case 0: {  // entries of G off the diagonal
        const double f = s.real(-0.9, 0.9);
        for (int a = 0; a < N; ++a)
          for (int b = 0; b < N; ++b)
            if (a != b) q.qp.G(a, b) *= f;
        break;
      }
      case 1: q.qp.G(i, j) += d, q.qp.G(j, i) = q.qp.G(i, j); break;
      case 2: q.qp.G(i, i) += std::abs(d); break;
      case 3: q.qp.c[i] += d; break;
      case 4: q.qp.c.array() += d; break;
      case 5:
        if (K > 0) q.qp.A_eq(s.integer(0, K - 1), i) += d;
        break;
      case 6:
        if (K > 0) q.qp.b_eq[s.integer(0, K - 1)] += d;
        break;
      case 7:
        if (M > 0) {
          auto& k = q.qp.constraints[static_cast<std::size_t>(s.integer(0, M - 1))];
          const int what = s.integer(0, 2);
          if (what == 0) k.b += d;
          if (what == 1) k.a *= s.boolean() ? -1.0 : 2.0;
          if (what == 2) k.variable = i;
        }
        break;
      case 8: {  // another number of constraints, or the same ones in another order
        auto& k = q.qp.constraints;
        if (M > 1 && s.boolean()) std::swap(k[0], k[static_cast<std::size_t>(M - 1)]);
        else if (M > 0 && s.boolean()) k.pop_back();
        else k.emplace_back(i, s.boolean() ? 1.0 : -1.0, s.real(0, 5));
        break;
      }
      default: q.qp.G *= s.real(0.5, 2); break;
    }
  }
}

// Solver objects used for several problems, repeatedly, and with leftover variables.
void Reuse(pbt::Case& c) {
  QPInteriorPointSolver shared;
  const int len = c.src.integer(2, 4);
  std::vector<gen::QPCase> qs;
  qs.reserve(static_cast<std::size_t>(len));
  for (int i = 0; i < len; ++i) {
    const int kind = i == 0 ? 0 : c.src.integer(0, 3);
    if (kind <= 1) {
      qs.push_back(Problem(c.src));
    } else if (kind == 2) {
      qs.push_back(qs.back());
      Vary(c.src, qs.back());
      c.label("variant of the problem before");
    } else {  // the object the solver was set up with before, changed in place
      Vary(c.src, qs.back());
      c.label("changed in place");
    }
    const gen::QPCase& q = qs.back();
    Params p = gen::QPParams(c.src, 15);
    const auto user = MaybeStart(c.src, q, p);
    c.describe([&](auto& os) {
      os << "problem " << i << ": ", gen::Describe(os, q.qp), gen::Describe(os, p);
      if (user) os << "start " << gen::Fmt(user->transpose()) << "\n";
    });
    const Copy before(q.qp);
    shared.Setup(&q.qp);
    if (!user && c.src.boolean()) shared.SetVariables(VectorXd::Constant(q.N() + 2 * q.M() + q.K(), c.src.boolean() ? std::nan("") : -3.0));
    const R a = Solve(shared, p, user);
    c.require(before.Same(q.qp), "the solver changed the problem");
    QPInteriorPointSolver fresh(&q.qp);
    const R b = Solve(fresh, p, user);
    RequireSame(c, a, b, "reused and fresh solver");
    const R again = Solve(shared, p, user);
    RequireSame(c, a, again, "solved twice with the same solver");
    if (a.threw) c.label("refused factorization");
    // Fewer iterations give a prefix of the log, and the limit is respected.
    if (!a.threw) {
      Params less = p;
      less.max_iterations = c.src.integer(1, p.max_iterations);
      const R pre = Solve(shared, less, user);
      c.require(static_cast<int>(pre.out.iterations.size()) == std::min<int>(less.max_iterations, static_cast<int>(a.out.iterations.size())),
                [&] { return pbt::str("limit ", less.max_iterations, " gave ", pre.out.iterations.size(), " iterations; the full run had ", a.out.iterations.size()); });
      RequireSame(c, a, pre, "shorter run", true);
    }
  }
  c.nontrivial();
}

// Solver objects are values: a copy continues on its own.
template <typename S>
void CopiesOf(pbt::Case& c) {
  if constexpr (std::is_copy_constructible_v<S> && std::is_copy_assignable_v<S> && std::is_move_constructible_v<S>) {
    const gen::QPCase q1 = Problem(c.src), q2 = Problem(c.src);
    Params p = gen::QPParams(c.src, 10);
    const auto user = MaybeStart(c.src, q1, p);
    Params p2 = gen::QPParams(c.src, 10);
    p2.initial_guess_method = InitialGuessMethod::NAIVE;
    c.describe([&](auto& os) {
      gen::Describe(os, q1.qp), gen::Describe(os, p), gen::Describe(os, q2.qp), gen::Describe(os, p2);
      if (user) os << "start " << gen::Fmt(user->transpose()) << "\n";
    });
    S a(&q1.qp), f1(&q1.qp), f2(&q2.qp);
    const R want1 = Solve(f1, p, user);
    const R want2 = Solve(f2, p2, std::nullopt);
    const bool first = c.src.boolean();
    if (first) RequireSame(c, Solve(a, p, user), want1, "two fresh solvers");
    const ref::State at = ref::Get(a);
    const int how = c.src.integer(0, 2);
    std::optional<S> b;
    if (how == 0) {
      b.emplace(a);
    } else if (how == 1) {
      b.emplace(&q2.qp);
      if (c.src.boolean()) (void)Solve(*b, p2, std::nullopt);
      *b = a;
    } else {
      S temporary(a);
      b.emplace(std::move(temporary));
    }
    if (first) c.require(ref::BitEqual(ref::Get(*b), at), "a copy has other variables than its original");
    // another problem for the copy: the original must not notice
    b->Setup(&q2.qp);
    RequireSame(c, Solve(*b, p2, std::nullopt), want2, "copied solver set up with another problem, and a fresh one");
    if (first) c.require(ref::BitEqual(ref::Get(a), at), "the original changed when its copy was used");
    const ref::State bt = ref::Get(*b);
    RequireSame(c, Solve(a, p, user), want1, "original after its copy was used, and a fresh one");
    c.require(ref::BitEqual(ref::Get(*b), bt), "the copy changed when its original was used");
    // and a copy that keeps the problem
    S keep(a);
    RequireSame(c, Solve(keep, p, user), want1, "copied and fresh solver");
    c.nontrivial();
    c.label(how == 0 ? "copied" : how == 1 ? "assigned" : "moved");
  } else {
    c.label("solvers cannot be copied");
  }
}
void Copies(pbt::Case& c) { CopiesOf<QPInteriorPointSolver>(c); }

// Only the lower triangle of G is read.
void UpperTriangle(pbt::Case& c) {
  const gen::QPCase q = Problem(c.src);
  Params p = gen::QPParams(c.src, 15);
  const auto user = MaybeStart(c.src, q, p);
  gen::QPCase d = q;
  for (Index i = 0; i < q.N(); ++i)
    for (Index j = i + 1; j < q.N(); ++j) d.qp.G(i, j) = c.src.boolean() ? std::nan("") : c.src.real(-1e6, 1e6);
  c.describe([&](auto& os) { gen::Describe(os, d.qp), gen::Describe(os, p); });
  QPInteriorPointSolver s1(&q.qp), s2(&d.qp);
  RequireSame(c, Solve(s1, p, user), Solve(s2, p, user), "upper triangle of G changed");
  if (q.K() > 0) {
    QPNullSpaceSolver n1{}, n2{};
    c.require(n1.Solve(q.qp) == n2.Solve(d.qp), "null-space verdict depends on the upper triangle of G");
    c.require(ref::BitEqual(n1.variables(), n2.variables()), "null-space result depends on the upper triangle of G");
  }
  const QPEigenvalues e1 = q.qp.ComputeEigenvalueStats(), e2 = d.qp.ComputeEigenvalueStats();
  c.require(Same(e1.min, e2.min) && Same(e1.max, e2.max) && Same(e1.abs_min, e2.abs_min), "eigenvalues depend on the upper triangle of G");
  if (q.N() > 1) c.nontrivial();
}

// Renaming variables, constraints and equality rows renames the result.
void Rename(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 6;
  o.n_large = 16;
  const gen::QPCase q = gen::MakeQP(c.src, o);
  const int N = q.N(), M = q.M(), K = q.K();
  auto perm = [&](int n) {
    std::vector<int> p(static_cast<std::size_t>(n));
    for (int i = 0; i < n; ++i) p[static_cast<std::size_t>(i)] = i;
    for (int i = 0; i + 1 < n; ++i) std::swap(p[static_cast<std::size_t>(i)], p[static_cast<std::size_t>(c.src.integer(i, n - 1))]);
    return p;
  };
  const std::vector<int> pn = perm(N), pm = perm(M), pk = perm(K);  // new index of old element
  QP r;
  r.G = Eigen::MatrixXd::Zero(N, N);
  r.c = VectorXd::Zero(N);
  if (K > 0) {
    r.A_eq.resize(K, N);
    r.b_eq.resize(K);
  }
  auto at = [](const std::vector<int>& p, Index i) { return p[static_cast<std::size_t>(i)]; };
  for (int i = 0; i < N; ++i) {
    r.c[at(pn, i)] = q.qp.c[i];
    for (int j = 0; j < N; ++j) r.G(at(pn, i), at(pn, j)) = q.qp.G(i, j);
    for (int k = 0; k < K; ++k) r.A_eq(at(pk, k), at(pn, i)) = q.qp.A_eq(k, i);
  }
  for (int k = 0; k < K; ++k) r.b_eq[at(pk, k)] = q.qp.b_eq[k];
  r.constraints.assign(static_cast<std::size_t>(M), LinearInequalityConstraint(0, 1, 0));
  for (int i = 0; i < M; ++i) {
    const auto& k = q.qp.constraints[static_cast<std::size_t>(i)];
    r.constraints[static_cast<std::size_t>(at(pm, i))] = LinearInequalityConstraint(at(pn, k.variable), k.a, k.b);
  }
  Params p = gen::QPParams(c.src, 1);
  p.max_iterations = 1;
  p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
  VectorXd v(N + 2 * M + K), w(N + 2 * M + K);
  v.head(N) = gen::Vec(c.src, N, -4, 4);
  for (int i = 0; i < M; ++i) v[N + i] = c.src.logreal(1e-2, 1e2);
  for (int i = 0; i < K; ++i) v[N + M + i] = c.src.real(-5, 5);
  for (int i = 0; i < M; ++i) v[N + M + K + i] = c.src.logreal(1e-2, 1e2);
  for (int i = 0; i < N; ++i) w[at(pn, i)] = v[i];
  for (int i = 0; i < M; ++i) w[N + at(pm, i)] = v[N + i], w[N + M + K + at(pm, i)] = v[N + M + K + i];
  for (int i = 0; i < K; ++i) w[N + M + at(pk, i)] = v[N + M + i];
  c.describe([&](auto& os) { gen::Describe(os, q.qp), os << "renamed: ", gen::Describe(os, r), gen::Describe(os, p), os << gen::Fmt(v.transpose()) << "\n"; });
  QPInteriorPointSolver s1(&q.qp), s2(&r);
  const R a = Solve(s1, p, v), b = Solve(s2, p, w);
  if (a.threw || b.threw) c.discard("threw");
  const ref::Model m(q.qp);
  const ref::Step d = ref::Newton(m, ref::State{v.head(N), v.segment(N, M), v.segment(N + M, K), v.tail(M)}, a.out.iterations[0].ip_outputs.mu, {});
  if (!d.ok || d.cond > 1e8) c.discard("ill-conditioned");
  auto close = [&](double x, double y, double scale) { return std::abs(x - y) <= 1e-6 * (scale + std::abs(x)); };
  const double sc = 1 + a.st.x.cwiseAbs().maxCoeff() + d.dx.cwiseAbs().maxCoeff();
  const double ysc = sc + (K ? a.st.y.cwiseAbs().maxCoeff() + d.dy.cwiseAbs().maxCoeff() : 0.0);
  for (int i = 0; i < N; ++i)
    c.require(close(a.st.x[i], b.st.x[at(pn, i)], sc), [&] { return pbt::str("x[", i, "]: ", a.st.x[i], " renamed: ", b.st.x[at(pn, i)]); });
  for (int i = 0; i < M; ++i) {
    c.require(close(a.st.s[i], b.st.s[at(pm, i)], sc * 10), [&] { return pbt::str("s[", i, "]: ", a.st.s[i], " renamed: ", b.st.s[at(pm, i)]); });
    const double zs = 1 + v[N + M + K + i] / v[N + i] * sc * 10;
    c.require(close(a.st.z[i], b.st.z[at(pm, i)], zs), [&] { return pbt::str("z[", i, "]: ", a.st.z[i], " renamed: ", b.st.z[at(pm, i)]); });
  }
  for (int i = 0; i < K; ++i)
    c.require(close(a.st.y[i], b.st.y[at(pk, i)], ysc), [&] { return pbt::str("y[", i, "]: ", a.st.y[i], " renamed: ", b.st.y[at(pk, i)]); });
  if (N > 1) c.nontrivial();
}

// Eigenvalue summary of G.
void Eigenvalues(pbt::Case& c) {
  const int n = gen::Size(c.src, 1, 8, 25);
  QP qp(n);
  qp.G = gen::PosDef(c.src, n, 0.1, 10.0, 1.5);
  if (c.src.boolean()) qp.G -= c.src.mag(0, 30) * Eigen::MatrixXd::Identity(n, n);
  if (c.src.chance(1, 4)) qp.G = -qp.G;
  const double t = c.src.chance(1, 4) ? c.src.logreal(1e-6, 1e6) : 1.0;
  qp.G *= t;
  c.describe([&](auto& os) { os << "G=" << gen::Fmt(qp.G) << "\n"; });
  const QPEigenvalues e = qp.ComputeEigenvalueStats();
  // Inertia of G - v I by Gaussian elimination decides how many eigenvalues lie below v.
  auto below = [&](double v) {
    Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> a = qp.G.cast<long double>();
    a.diagonal().array() -= static_cast<long double>(v);
    int neg = 0;
    for (Index k = 0; k < n; ++k) {
      long double piv = a(k, k);
      if (piv == 0) piv = 1e-300L;
      neg += piv < 0;
      for (Index i = k + 1; i < n; ++i) {
        const long double f = a(i, k) / piv;
        for (Index j = k + 1; j < n; ++j) a(i, j) -= f * a(k, j);
      }
    }
    return neg;
  };
  const double tol = 1e-10 * qp.G.norm();
  c.require(e.min <= e.max && below(e.min - tol) == 0 && below(e.min + tol) >= 1, [&] { return pbt::str("smallest eigenvalue reported as ", e.min); });
  c.require(below(e.max + tol) == n && below(e.max - tol) < n, [&] { return pbt::str("largest eigenvalue reported as ", e.max); });
  c.require(e.abs_min >= 0 && below(e.abs_min - tol) - below(-e.abs_min + tol) <= 0, [&] { return pbt::str("an eigenvalue is smaller in magnitude than ", e.abs_min); });
  c.require(below(e.abs_min + tol) - below(-e.abs_min - tol) >= 1, [&] { return pbt::str("no eigenvalue has magnitude ", e.abs_min); });
  c.nontrivial();
  c.label(e.min > 0 ? "positive definite" : e.max < 0 ? "negative definite" : "indefinite");
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C09";
  p.rule =
      "random QPs, parameters and starts solved by fresh, reused and repeated solver objects (bitwise comparison of state and log), with "
      "different iteration limits, different unread entries, renamed variables/constraints/rows; eigenvalue summaries against inertia counts. "
      "Non-trivial: every reuse sequence, problems with at least two variables elsewhere";
  p.assumptions = {"renamed problems are compared to 1e-6 (the factorization may round differently)"};
  p.facets = {
      {"reuse", Reuse, 120000, 4000000, 0.0},
      {"copies", Copies, 40000, 2000000, 0.0},
      {"unread", UpperTriangle, 60000, 3000000, 0.0},
      {"rename", Rename, 60000, 4000000, 0.4},
      {"eigenvalues", Eigenvalues, 60000, 4000000, 0.0},
  };
  return p;
}
