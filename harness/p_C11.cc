// build: qp plain residual.cc qp.cc structs.cc
// C11: residuals add exactly their own contribution to the quadratic system, whatever the order of their indices.
#include <array>

#include "mini_opt/residual.hpp"
#include "ref.hpp"

using namespace mini_opt;
using Eigen::Index;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace {

// h(p) = a + B p + sin(C p): value and Jacobian are functions of the gathered parameters.
struct Data {
  VectorXd a;
  MatrixXd B, C;
  template <typename V>
  VectorXd Value(const V& p) const {
    VectorXd r = a;
    for (Index i = 0; i < r.size(); ++i) {
      double l = 0, t = 0;
      for (Index j = 0; j < p.size(); ++j) l += B(i, j) * p[j], t += C(i, j) * p[j];
      r[i] += l + std::sin(t);
    }
    return r;
  }
  template <typename V>
  MatrixXd Jac(const V& p) const {
    MatrixXd J = B;
    for (Index i = 0; i < a.size(); ++i) {
      double t = 0;
      for (Index j = 0; j < p.size(); ++j) t += C(i, j) * p[j];
      J.row(i) += std::cos(t) * C.row(i);
    }
    return J;
  }
};

struct WrongSize : std::logic_error {
  WrongSize() : std::logic_error("the derivative handed to the function has the wrong size") {}
};

template <int R, int P>
Residual Make(const Data& d, const std::vector<int>& idx, const bool init_list) {
  auto f = [d](const Eigen::Matrix<double, P, 1>& p, Eigen::Matrix<double, R, P>* J) -> Eigen::Matrix<double, R, 1> {
    if (J) {
      // The derivative has its size when the function is called, it may be filled entry by entry.
      if (J->rows() != d.B.rows() || J->cols() != d.B.cols()) throw WrongSize();
      const MatrixXd all = d.Jac(p);
      for (Index i = 0; i < all.rows(); ++i)
        for (Index j = 0; j < all.cols(); ++j) (*J)(i, j) = all(i, j);
    }
    return d.Value(p);
  };
  if constexpr (P == Eigen::Dynamic) {
    if (init_list && idx.size() == 2) return MakeResidual<R, P>({idx[0], idx[1]}, f);
    return MakeResidual<R, P>(idx, f);
  } else {
    if constexpr (P == 1) {
      if (init_list) return MakeResidual<R, P>({idx[0]}, f);
    } else if constexpr (P == 2) {
      if (init_list) return MakeResidual<R, P>({idx[0], idx[1]}, f);
    } else if constexpr (P == 3) {
      if (init_list) return MakeResidual<R, P>({idx[0], idx[1], idx[2]}, f);
    }
    std::array<int, static_cast<std::size_t>(P)> a{};
    for (std::size_t i = 0; i < a.size(); ++i) a[i] = idx[i];
    return MakeResidual<R, P>(a, f);
  }
}
template <int R>
Residual MakeP(int p, bool dynamic, const Data& d, const std::vector<int>& idx, bool il) {
  if (dynamic) return Make<R, Eigen::Dynamic>(d, idx, il);
  switch (p) {
    case 1: return Make<R, 1>(d, idx, il);
    case 2: return Make<R, 2>(d, idx, il);
    case 3: return Make<R, 3>(d, idx, il);
    case 4: return Make<R, 4>(d, idx, il);
    default: return Make<R, 6>(d, idx, il);
  }
}

struct Spec {
  int R, P;
  bool dynamic, il;
  std::vector<int> idx;
  Data d;
};
double Scale(pbt::Source& s) { return s.boolean() ? 1.0 : s.boolean() ? std::pow(10.0, -s.integer(0, 60)) : std::pow(10.0, s.integer(0, 60)); }
Spec Draw(pbt::Source& s, const int n) {
  Spec o;
  o.R = s.chance(1, 8) ? 9 : s.integer(1, 4);
  o.dynamic = s.boolean();
  if (o.dynamic) {
    o.P = s.integer(0, s.chance(1, 6) ? n : std::min(n, 7));
  } else {
    std::vector<int> ps;
    for (int p : {1, 2, 3, 4, 6})
      if (p <= n) ps.push_back(p);
    o.P = s.pick(ps);
  }
  o.il = s.boolean();
  std::vector<int> all(static_cast<std::size_t>(n));
  for (int i = 0; i < n; ++i) all[static_cast<std::size_t>(i)] = i;
  for (int i = 0; i < o.P; ++i) {
    const std::size_t j = static_cast<std::size_t>(s.integer(i, n - 1));
    std::swap(all[static_cast<std::size_t>(i)], all[j]);
    o.idx.push_back(all[static_cast<std::size_t>(i)]);
  }
  // a variable may be listed more than once: its derivatives add up
  if (o.P > 1 && s.chance(1, 4)) {
    const int k = s.integer(1, 2);
    for (int i = 0; i < k; ++i) {
      const int to = s.integer(0, o.P - 1), from = s.integer(0, o.P - 1);
      o.idx[static_cast<std::size_t>(to)] = o.idx[static_cast<std::size_t>(from)];
    }
  }
  o.d.a = gen::Vec(s, o.R, -3, 3);
  o.d.B.resize(o.R, o.P);
  o.d.C.resize(o.R, o.P);
  for (int i = 0; i < o.R; ++i)
    for (int j = 0; j < o.P; ++j) {
      o.d.B(i, j) = s.real(-3, 3);
      o.d.C(i, j) = s.chance(1, 2) ? 0.0 : s.real(-2, 2);
    }
  // parameters and rows of very different scales
  if (s.chance(1, 3)) {
    for (int j = 0; j < o.P; ++j) {
      const double f = Scale(s);
      o.d.B.col(j) *= f;
      o.d.C.col(j) *= std::min(f, 1.0);
    }
    for (int i = 0; i < o.R; ++i) {
      const double f = Scale(s);
      o.d.a[i] *= f;
      o.d.B.row(i) *= f;
      o.d.C.row(i) *= std::min(f, 1.0);
    }
  }
  return o;
}
Residual Build(const Spec& o) {
  switch (o.R) {
    case 1: return MakeP<1>(o.P, o.dynamic, o.d, o.idx, o.il);
    case 2: return MakeP<2>(o.P, o.dynamic, o.d, o.idx, o.il);
    case 3: return MakeP<3>(o.P, o.dynamic, o.d, o.idx, o.il);
    case 4: return MakeP<4>(o.P, o.dynamic, o.d, o.idx, o.il);
    default: return MakeP<9>(o.P, o.dynamic, o.d, o.idx, o.il);
  }
}
VectorXd Gather(const VectorXd& x, const std::vector<int>& idx) {
  VectorXd p(static_cast<Index>(idx.size()));
  for (std::size_t i = 0; i < idx.size(); ++i) p[static_cast<Index>(i)] = x[idx[i]];
  return p;
}
void Print(std::ostream& os, const Spec& o) {
  os << "residual R=" << o.R << " P=" << o.P << (o.dynamic ? " (dynamic)" : "") << " indices";
  for (int i : o.idx) os << " " << i;
  os << " a=" << gen::Fmt(o.d.a.transpose()) << " B=" << gen::Fmt(o.d.B) << " C=" << gen::Fmt(o.d.C) << "\n";
}
bool Unordered(const std::vector<int>& idx) {
  for (std::size_t i = 1; i < idx.size(); ++i)
    if (idx[i] < idx[i - 1]) return true;
  return false;
}

bool Repeated(std::vector<int> idx) {
  std::sort(idx.begin(), idx.end());
  return std::adjacent_find(idx.begin(), idx.end()) != idx.end();
}

void Hessian(pbt::Case& c) {
  const int n = gen::Size(c.src, 1, 8, 20);
  const int count = c.src.integer(1, 4);
  std::vector<Spec> specs;
  for (int i = 0; i < count; ++i) specs.push_back(Draw(c.src, n));
  const VectorXd x = gen::Vec(c.src, n, -2, 2);
  MatrixXd H(n, n);
  const bool empty = c.src.boolean();  // no previous content: small contributions show
  VectorXd b = gen::Vec(c.src, n, -5, 5);
  if (empty) b.setZero();
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) H(i, j) = j > i ? 777.0 + i : empty ? 0.0 : c.src.real(-5, 5);
  c.describe([&](auto& os) {
    os << "x=" << gen::Fmt(x.transpose()) << "\n";
    for (const auto& s : specs) Print(os, s);
  });
  MatrixXd want = H, Hsize = H.cwiseAbs();
  VectorXd wb = b, bsize = b.cwiseAbs();  // sums of the magnitudes of the terms, for the rounding
  for (const auto& s : specs) {
    const Residual r = Build(s);
    c.require(r.Dimension() == s.R, "Dimension");
    const VectorXd p = Gather(x, s.idx);
    const VectorXd v = s.d.Value(p);
    const MatrixXd J = s.d.Jac(p);
    const double e = r.UpdateHessian(x, &H, &b);
    c.require(std::abs(e - 0.5 * v.squaredNorm()) <= 1e-13 * v.squaredNorm(), [&] { return pbt::str("UpdateHessian returns ", e, ", half the squared error is ", 0.5 * v.squaredNorm()); });
    // expand the Jacobian to all variables
    MatrixXd full = MatrixXd::Zero(s.R, n), size = full;
    for (int j = 0; j < s.P; ++j) {
      full.col(s.idx[static_cast<std::size_t>(j)]) += J.col(j);
      size.col(s.idx[static_cast<std::size_t>(j)]) += J.col(j).cwiseAbs();
    }
    const MatrixXd JJ = full.transpose() * full;
    want.triangularView<Eigen::Lower>() += JJ;
    wb += full.transpose() * v;
    Hsize += size.transpose() * size;
    bsize += size.transpose() * v.cwiseAbs();
    const double q = r.QuadraticError(x);
    c.require(std::abs(q - 0.5 * v.squaredNorm()) <= 1e-13 * v.squaredNorm(), [&] { return pbt::str("QuadraticError is ", q, " expected ", 0.5 * v.squaredNorm()); });
    if (Unordered(s.idx)) c.label("indices not ascending");
    if (Repeated(s.idx)) c.label("a variable twice");
    c.label(s.dynamic ? "dynamic size" : "fixed size");
    if (s.P == 0) c.label("no parameters");
  }
  for (int i = 0; i < n; ++i) {
    c.require(std::abs(b[i] - wb[i]) <= 1e-14 * bsize[i], [&] { return pbt::str("gradient[", i, "] is ", b[i], " expected ", wb[i]); });
    for (int j = 0; j < n; ++j) {
      if (j > i)
        c.require(H(i, j) == want(i, j), [&] { return pbt::str("entry (", i, ", ", j, ") of the upper triangle was written"); });
      else
        c.require(std::abs(H(i, j) - want(i, j)) <= 1e-14 * Hsize(i, j), [&] { return pbt::str("H(", i, ", ", j, ") is ", H(i, j), " expected ", want(i, j)); });
    }
  }
  if (n > 1) c.nontrivial();
}

void Jacobian(pbt::Case& c) {
  const int n = gen::Size(c.src, 1, 8, 20);
  const int count = c.src.integer(1, 4);
  std::vector<Spec> specs;
  Index rows = 0;
  for (int i = 0; i < count; ++i) {
    specs.push_back(Draw(c.src, n));
    rows += specs.back().R;
  }
  const int pad = c.src.integer(0, 2);
  const VectorXd x = gen::Vec(c.src, n, -2, 2);
  MatrixXd A = MatrixXd::Constant(rows + pad, n, 555.0);
  VectorXd b = VectorXd::Constant(rows + pad, 444.0), e = VectorXd::Constant(rows + pad, 333.0);
  c.describe([&](auto& os) {
    os << "x=" << gen::Fmt(x.transpose()) << "\n";
    for (const auto& s : specs) Print(os, s);
  });
  MatrixXd want = A, size = A;
  VectorXd wb = b, we = e;
  Index row = 0;
  for (const auto& s : specs) {
    const Residual r = Build(s);
    r.UpdateJacobian(x, A.block(row, 0, s.R, n), b.segment(row, s.R));
    r.ErrorVector(x, e.segment(row, s.R));
    const VectorXd p = Gather(x, s.idx);
    const MatrixXd J = s.d.Jac(p);
    for (const int i : s.idx) want.block(row, i, s.R, 1).setZero(), size.block(row, i, s.R, 1).setZero();
    for (int j = 0; j < s.P; ++j) {
      want.block(row, s.idx[static_cast<std::size_t>(j)], s.R, 1) += J.col(j);
      size.block(row, s.idx[static_cast<std::size_t>(j)], s.R, 1) += J.col(j).cwiseAbs();
    }
    wb.segment(row, s.R) = s.d.Value(p);
    we.segment(row, s.R) = s.d.Value(p);
    row += s.R;
    // Wrong block sizes are refused.
    if (c.src.chance(1, 8)) {
      bool threw = false;
      try {
        VectorXd w(s.R + 1);
        r.ErrorVector(x, w.head(s.R + 1));
      } catch (const assert::default_error&) {
        threw = true;
      }
      c.require(threw, "an error block of the wrong size was accepted");
    }
  }
  c.require(((A - want).array().abs() <= 1e-14 * size.array()).all(), [&] { return pbt::str("Jacobian ", gen::Fmt(A), " expected ", gen::Fmt(want)); });
  c.require(((b - wb).array().abs() <= 1e-14 * wb.array().abs()).all(), [&] { return pbt::str("errors with the Jacobian ", gen::Fmt(b.transpose()), " expected ", gen::Fmt(wb.transpose())); });
  c.require(((e - we).array().abs() <= 1e-14 * we.array().abs()).all(), [&] { return pbt::str("errors ", gen::Fmt(e.transpose()), " expected ", gen::Fmt(we.transpose())); });
  // The error vector read without and with the Jacobian is the same, and the Jacobian is its derivative.
  if (n > 1) c.nontrivial();
}

// Indices outside the parameters are refused, also through the public evaluation functions.
void BadIndex(pbt::Case& c) {
  const int n = c.src.integer(1, 6);
  Spec s = Draw(c.src, n);
  if (s.P == 0) c.discard("no parameters");
  const std::size_t at = static_cast<std::size_t>(c.src.integer(0, s.P - 1));
  const int bad = c.src.boolean() ? n + c.src.integer(0, 3) : -1 - c.src.integer(0, 3);
  s.idx[at] = bad;
  c.describe([&](auto& os) { os << "n=" << n << " ", Print(os, s); });
  const Residual r = Build(s);
  const VectorXd x = gen::Vec(c.src, n, -2, 2);
  auto throws = [&](auto&& f) {
    try {
      f();
    } catch (const assert::default_error&) {
      return true;
    }
    return false;
  };
  MatrixXd H = MatrixXd::Zero(n, n), A = MatrixXd::Zero(s.R, n);
  VectorXd b = VectorXd::Zero(n), e = VectorXd::Zero(s.R);
  c.require(throws([&] { (void)r.QuadraticError(x); }), [&] { return pbt::str("QuadraticError accepted index ", bad); });
  c.require(throws([&] { r.ErrorVector(x, e.head(s.R)); }), [&] { return pbt::str("ErrorVector accepted index ", bad); });
  c.require(throws([&] { r.UpdateHessian(x, &H, &b); }), [&] { return pbt::str("UpdateHessian accepted index ", bad); });
  c.require(throws([&] { r.UpdateJacobian(x, A.block(0, 0, s.R, n), e.head(s.R)); }), [&] { return pbt::str("UpdateJacobian accepted index ", bad); });
  c.require(H.isZero(0) && b.isZero(0), "a refused residual changed the system");
  c.nontrivial();
}

// Outputs that do not fit are refused.
void BadOutput(pbt::Case& c) {
  const int n = c.src.integer(1, 6);
  const Spec s = Draw(c.src, n);
  if (s.P == 0) c.discard("no parameters");
  const Residual r = Build(s);
  const VectorXd x = gen::Vec(c.src, n, -2, 2);
  const int kind = c.src.integer(0, 7);
  static const char* names[] = {"no matrix", "no vector", "matrix not square", "vector too long", "system too small", "too many Jacobian rows", "error block too long", "Jacobian too narrow"};
  c.describe([&](auto& os) { os << names[kind] << ", n=" << n << " ", Print(os, s); });
  const int last = *std::max_element(s.idx.begin(), s.idx.end());
  MatrixXd H = MatrixXd::Zero(n, n), J = MatrixXd::Zero(s.R, n);
  VectorXd b = VectorXd::Zero(n), e = VectorXd::Zero(s.R);
  bool threw = false;
  try {
    switch (kind) {
      case 0: r.UpdateHessian(x, nullptr, &b); break;
      case 1: r.UpdateHessian(x, &H, nullptr); break;
      case 2: {
        const int more = c.src.integer(1, 3);
        // the larger dimension in either place, so that a missing check stays inside the memory
        H = c.src.boolean() ? MatrixXd::Zero(n + more, n) : MatrixXd::Zero(n, n + more);
        b = VectorXd::Zero(n + more);
        if (c.src.boolean()) b = VectorXd::Zero(H.rows());
        r.UpdateHessian(x, &H, &b);
        break;
      }
      case 3: b = VectorXd::Zero(n + c.src.integer(1, 3)), r.UpdateHessian(x, &H, &b); break;
      case 4: H = MatrixXd::Zero(last, last), b = VectorXd::Zero(last), r.UpdateHessian(x, &H, &b); break;
      case 5: J = MatrixXd::Zero(s.R + 1, n), r.UpdateJacobian(x, J.block(0, 0, s.R + 1, n), e.head(s.R)); break;
      case 6: e = VectorXd::Zero(s.R + 1), r.UpdateJacobian(x, J.block(0, 0, s.R, n), e.head(s.R + 1)); break;
      default: r.UpdateJacobian(x, J.block(0, 0, s.R, last), e.head(s.R)); break;
    }
  } catch (const assert::default_error&) {
    threw = true;
  }
  c.require(threw, [&] { return pbt::str("accepted: ", names[kind]); });
  c.label(names[kind]);
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C11";
  p.rule =
      "random residuals (1-4 rows, 0-7 parameters, fixed and dynamic size, indices in any order, now and then repeated, array/vector/initializer list) accumulated "
      "into a system with random content; oracle: the Jacobian expanded to all variables. Non-trivial: more than one variable";
  p.facets = {
      {"hessian", Hessian, 800000, 30000000, 0.0},
      {"jacobian", Jacobian, 800000, 30000000, 0.0},
      {"bad_index", BadIndex, 60000, 2000000, 0.3},
      {"bad_output", BadOutput, 60000, 2000000, 0.3},
  };
  return p;
}
