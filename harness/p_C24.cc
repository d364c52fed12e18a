// build: nls plain
// C24: the text report and the counters state exactly what the outputs contain.
#include <cstdio>
#include <set>

#include "iogen.hpp"

using namespace mini_opt;

namespace {

std::string Sci(double v) {
  char b[64];
  std::snprintf(b, sizeof b, "%.16e", v);
  return b;
}
std::string Fix(double v, int digits) {
  char b[400];
  std::snprintf(b, sizeof b, "%.*f", digits, v);
  return b;
}

// A reader of the report: every literal must match, every number must be the shortest or full form of the value.
class Reader {
 public:
  Reader(pbt::Case& c, const std::string& t) : c_(c), t_(t) {}
  void Lit(const std::string& s) {
    c_.require(t_.compare(at_, s.size(), s) == 0, [&] { return "the report should continue with \"" + s + "\" but is \"" + t_.substr(at_, 60) + "\" after\n" + t_.substr(0, at_); });
    at_ += s.size();
  }
  // Any decimal text that reads back as exactly the value.
  void Exact(double v, const char* what) {
    std::size_t end = at_;
    while (end < t_.size() && (std::isalnum(static_cast<unsigned char>(t_[end])) || t_[end] == '.' || t_[end] == '+' || t_[end] == '-')) ++end;
    const std::string tok = t_.substr(at_, end - at_);
    char* stop = nullptr;
    const double got = std::strtod(tok.c_str(), &stop);
    const bool ok = !tok.empty() && *stop == 0 && nls::Same(got, v);
    c_.require(ok, [&] { return pbt::str(what, " is ", v, " but the report says \"", tok, "\" after\n", t_.substr(0, at_)); });
    at_ = end;
  }
  void Text(const std::string& s) { Lit(s); }
  bool Done() const { return at_ == t_.size(); }
  std::string Rest() const { return t_.substr(at_, 80); }

 private:
  pbt::Case& c_;
  const std::string& t_;
  std::size_t at_{0};
};

const std::string kReset = "\x1b[0m";
std::string Colour(int code) { return "\x1b[38;5;" + std::to_string(code) + "m"; }

double Max(const KKTError& k) {
  double m = k.r_dual;
  for (const double v : {k.r_comp, k.r_primal_eq, k.r_primal_ineq}) m = m < v ? v : m;
  return m;
}

void ReadQP(Reader& r, const QPInteriorPointIteration& q) {
  r.Lit("Iteration summary: ||kkt|| max: ");
  r.Exact(Max(q.kkt_initial), "the largest initial KKT error");
  r.Lit(" --> ");
  r.Exact(Max(q.kkt_final), "the largest final KKT error");
  r.Lit(", mu = ");
  r.Exact(q.ip_outputs.mu, "mu");
  r.Lit(", a_p = ");
  r.Exact(q.ip_outputs.alpha.primal, "the primal step");
  r.Lit(", a_d = ");
  r.Exact(q.ip_outputs.alpha.dual, "the dual step");
  r.Lit("\n");
  if (!std::isnan(q.ip_outputs.mu_affine)) {
    r.Lit(" Probe alphas: a_p = ");
    r.Exact(q.ip_outputs.alpha_probe.primal, "the primal probe step");
    r.Lit(", a_d = ");
    r.Exact(q.ip_outputs.alpha_probe.dual, "the dual probe step");
    r.Lit(", mu_affine = ");
    r.Exact(q.ip_outputs.mu_affine, "mu_affine");
    r.Lit("\n");
  }
  r.Lit(" KKT errors, L2:\n");
  const std::pair<const char*, double KKTError::*> parts[] = {
      {"r_dual", &KKTError::r_dual}, {"r_comp", &KKTError::r_comp}, {"r_p_eq", &KKTError::r_primal_eq}, {"r_p_ineq", &KKTError::r_primal_ineq}};
  for (const auto& [name, m] : parts) {
    r.Lit(std::string(" ") + name + " = ");
    r.Exact(q.kkt_initial.*m, name);
    r.Lit(" --> ");
    r.Exact(q.kkt_final.*m, name);
    r.Lit("\n");
  }
}

void ReadIteration(Reader& r, const NLSIteration& i, bool colour, bool qp) {
  r.Lit("Iteration # " + std::to_string(i.iteration) + ", state = " + io::Text(i.optimizer_state) + ", lambda = ");
  r.Exact(i.lambda, "lambda");
  r.Lit("\n  f(0): " + Sci(i.errors_initial.f) + ", c(0): " + Sci(i.errors_initial.equality) +
        ", total: " + Sci(i.errors_initial.f + i.penalty * i.errors_initial.equality) + "\n");
  if (i.qp_eigenvalues) r.Lit("  min, max, |min| eig = " + Sci(i.qp_eigenvalues->min) + ", " + Sci(i.qp_eigenvalues->max) + ", " + Sci(i.qp_eigenvalues->abs_min) + "\n");
  r.Lit("  penalty = " + Fix(i.penalty, 16) + "\n");
  const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&i.qp_outputs);
  if (ip) {
    r.Lit(std::string("  QP-IP: ") + io::Text(ip->termination_state) + ", " + std::to_string(ip->iterations.size()) + "\n");
  } else {
    r.Lit(std::string("  QP: ") + io::Text(std::get<QPNullSpaceTerminationState>(i.qp_outputs)) + "\n");
  }
  r.Lit("  df/dalpha = ");
  r.Exact(i.directional_derivatives.d_f, "the derivative of the cost");
  r.Lit(", dc/dalpha = ");
  r.Exact(i.directional_derivatives.d_equality, "the derivative of the equality error");
  r.Lit("\n  Search result: ");
  if (colour) r.Lit(Colour(i.step_result == StepSizeSelectionResult::SUCCESS ? 112 : 160));
  r.Lit(io::Text(i.step_result));
  if (colour) r.Lit(kReset);
  r.Lit("\n");
  for (std::size_t k = 0; k < i.line_search_steps.size(); ++k) {
    const LineSearchStep& s = i.line_search_steps[k];
    const std::string n = std::to_string(k);
    r.Lit("  f(" + n + "): " + Sci(s.errors.f) + ", c(" + n + "): " + Sci(s.errors.equality) + ", total: " + Sci(s.errors.f + i.penalty * s.errors.equality) +
          ", alpha = " + Fix(s.alpha, 10) + "\n");
  }
  if (ip && qp)
    for (const auto& q : ip->iterations) ReadQP(r, q);
}

void ReadAll(pbt::Case& c, const NLSSolverOutputs& out, bool colour, bool qp) {
  const std::string t = out.ToString(colour, qp);
  Reader r(c, t);
  for (const NLSIteration& i : out.iterations) ReadIteration(r, i, colour, qp);
  r.Lit("  termination = ");
  static const std::set<NLSTerminationState> good = {NLSTerminationState::SATISFIED_ABSOLUTE_TOL, NLSTerminationState::SATISFIED_RELATIVE_TOL,
                                                     NLSTerminationState::SATISFIED_FIRST_ORDER_TOL};
  const bool satisfied = good.count(out.termination_state) > 0;
  if (colour) r.Lit(Colour(satisfied ? 112 : out.termination_state == NLSTerminationState::QP_INDEFINITE ? 160 : 202));
  r.Lit(io::Text(out.termination_state));
  if (colour) r.Lit(kReset);
  r.Lit("\n");
  c.require(r.Done(), [&] { return "the report goes on with \"" + r.Rest() + "\""; });
  c.require(TerminationStateIndicatesSatisfiedTol(out.termination_state) == satisfied, "TerminationStateIndicatesSatisfiedTol is wrong");
  // Each iteration by itself prints its part.
  std::string joined;
  for (const NLSIteration& i : out.iterations) {
    joined += i.ToString(colour, qp);
    c.require(i.ToString() == i.ToString(false, false), "the default report of an iteration is not the plain one");
  }
  c.require(t.compare(0, joined.size(), joined) == 0, "the report of the run is not made of the reports of its iterations");
}

void Check(pbt::Case& c, const NLSSolverOutputs& out) {
  c.describe([&](auto& os) { os << out.ToString(false, true); });
  for (const bool colour : {false, true})
    for (const bool qp : {false, true}) ReadAll(c, out, colour, qp);
  c.require(out.ToString() == out.ToString(false, false), "the default report is not the plain one");
  std::size_t nq = 0, ns = 0, nf = 0;
  for (const NLSIteration& i : out.iterations) {
    if (const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&i.qp_outputs)) {
      nq += ip->iterations.size();
    } else {
      nq += 1;
    }
    ns += i.line_search_steps.size();
    nf += i.step_result == StepSizeSelectionResult::SUCCESS || i.step_result == StepSizeSelectionResult::FIRST_ORDER_SATISFIED ? 0 : 1;
    c.label(io::Text(i.step_result));
  }
  c.require(out.NumQPIterations() == nq, [&] { return pbt::str("NumQPIterations is ", out.NumQPIterations(), " but there are ", nq); });
  c.require(out.NumLineSearchSteps() == ns, [&] { return pbt::str("NumLineSearchSteps is ", out.NumLineSearchSteps(), " but there are ", ns); });
  c.require(out.NumFailedLineSearches() == nf, [&] { return pbt::str("NumFailedLineSearches is ", out.NumFailedLineSearches(), " but there are ", nf); });
  if (!out.iterations.empty()) c.nontrivial();
}

void Random(pbt::Case& c) { Check(c, io::Outputs(c.src, c.src.boolean())); }

void Runs(pbt::Case& c) {
  const nls::Random r = io::RealRun(c);
  if (!r.run.out) c.discard("solver threw");
  Check(c, *r.run.out);
}

template <typename E>
void Name(pbt::Case& c, E v, const char* name) {
  std::ostringstream os;
  os << v;
  c.require(os.str() == name, [&] { return "printed as " + os.str() + " instead of " + name; });
  c.require(fmt::format("{}", v) == name, [&] { return "formatted differently from " + std::string(name); });
}

// The scalar summaries and the names of every state.
void Parts(pbt::Case& c) {
  const bool nf = c.src.chance(1, 3);
  const Errors e{io::Real(c.src, nf), io::Real(c.src, nf)};
  DirectionalDerivatives d;
  d.d_f = io::Real(c.src, nf);
  d.d_equality = io::Real(c.src, nf);
  const double pen = io::Real(c.src, false);
  KKTError k{io::Real(c.src, false), io::Real(c.src, false), io::Real(c.src, false), io::Real(c.src, false)};
  c.describe([&](auto& os) { os << "errors " << e.f << " " << e.equality << " derivatives " << d.d_f << " " << d.d_equality << " penalty " << pen << "\n"; });
  c.require(nls::Same(e.Total(pen), e.f + pen * e.equality), "Errors::Total");
  c.require(nls::Same(d.Total(pen), d.d_f + pen * d.d_equality), "DirectionalDerivatives::Total");
  if (std::isfinite(e.f) && std::isfinite(e.equality)) {
    c.require(e.LInfinity() == (e.f > e.equality ? e.f : e.equality), "Errors::LInfinity");
    c.require(!e.ContainsInvalidValues(), "finite errors are reported as invalid");
  } else {
    c.require(e.ContainsInvalidValues(), "errors with NaN or infinity are reported as valid");
    c.label("invalid");
  }
  if (!std::isnan(d.d_f) && !std::isnan(d.d_equality)) {
    const double a = std::fabs(d.d_f), b = std::fabs(d.d_equality);
    c.require(d.LInfinity() == (a > b ? a : b), "DirectionalDerivatives::LInfinity");
  }
  c.require(k.Max() == Max(k), "KKTError::Max");
  QPInteriorPointIteration q(k, KKTError{io::Real(c.src, false), 0, io::Real(c.src, false), 1}, IPIterationOutputs{});
  const std::string t = q.ToString();
  Reader r(c, t);
  ReadQP(r, q);
  c.require(r.Done(), "the report of a QP iteration is longer than its contents");
  Name(c, InitialGuessMethod::NAIVE, "NAIVE");
  Name(c, InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED, "SOLVE_EQUALITY_CONSTRAINED");
  Name(c, InitialGuessMethod::USER_PROVIDED, "USER_PROVIDED");
  Name(c, LineSearchStrategy::ARMIJO_BACKTRACK, "ARMIJO_BACKTRACK");
  Name(c, LineSearchStrategy::POLYNOMIAL_APPROXIMATION, "POLYNOMIAL_APPROXIMATION");
  for (int i = 0; i < 2; ++i) {
    Name(c, static_cast<OptimizerState>(i), io::Text(static_cast<OptimizerState>(i)));
    Name(c, static_cast<QPInteriorPointTerminationState>(i), io::Text(static_cast<QPInteriorPointTerminationState>(i)));
    Name(c, static_cast<QPNullSpaceTerminationState>(i), io::Text(static_cast<QPNullSpaceTerminationState>(i)));
  }
  for (int i = 0; i < 6; ++i) Name(c, static_cast<StepSizeSelectionResult>(i), io::Text(static_cast<StepSizeSelectionResult>(i)));
  for (int i = 0; i < 7; ++i) {
    const auto s = static_cast<NLSTerminationState>(i);
    Name(c, s, io::Text(s));
    c.require(TerminationStateIndicatesSatisfiedTol(s) == (std::string(io::Text(s)).rfind("SATISFIED_", 0) == 0), "TerminationStateIndicatesSatisfiedTol is wrong");
  }
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C24";
  p.rule =
      "random solver outputs (every state, optional part and QP solver, 0-3 iterations, extreme and non-finite values) and the outputs of real "
      "runs; the report is read back token by token against the outputs, with and without colour and QP details, and every counter and summary "
      "is recomputed. Non-trivial: at least one iteration";
  p.facets = {
      {"random", Random, 20000, 2000000},
      {"runs", Runs, 6000, 600000, 0.3},
      {"parts", Parts, 20000, 2000000},
  };
  return p;
}
