// build: nls plain
// C23: solver outputs survive serialization to JSON and back, and the JSON says what the outputs say.
#include "p_C23.hpp"

namespace {

using namespace c23;

// The document written out again from the outputs, independently of the library.
json Num(double v) { return json(v); }
json Ref(const Errors& e) { return {{"f", Num(e.f)}, {"equality", Num(e.equality)}}; }
json Ref(const AlphaValues& a) { return {{"primal", Num(a.primal)}, {"dual", Num(a.dual)}}; }
json Ref(const KKTError& k) {
  return {{"r_dual", Num(k.r_dual)}, {"r_comp", Num(k.r_comp)}, {"r_primal_eq", Num(k.r_primal_eq)}, {"r_primal_ineq", Num(k.r_primal_ineq)}};
}
json Ref(const QPInteriorPointSolverOutputs& q) {
  json j = json::object();
  j["termination_state"] = io::Text(q.termination_state);
  j["iterations"] = json::array();
  for (const auto& it : q.iterations) {
    const json ip = {{"mu", Num(it.ip_outputs.mu)},
                     {"alpha", Ref(it.ip_outputs.alpha)},
                     {"alpha_probe", Ref(it.ip_outputs.alpha_probe)},
                     {"mu_affine", Num(it.ip_outputs.mu_affine)}};
    j["iterations"].push_back({{"kkt_initial", Ref(it.kkt_initial)}, {"kkt_final", Ref(it.kkt_final)}, {"ip_outputs", ip}});
  }
  j["lagrange_multipliers"] = nullptr;
  if (q.lagrange_multipliers) j["lagrange_multipliers"] = {{"min", Num(q.lagrange_multipliers->min)}, {"l_infinity", Num(q.lagrange_multipliers->l_infinity)}};
  return j;
}
json Ref(const NLSSolverOutputs& out) {
  json j = json::object();
  j["termination_state"] = io::Text(out.termination_state);
  j["iterations"] = json::array();
  for (const NLSIteration& i : out.iterations) {
    json k = json::object();
    k["iteration"] = i.iteration;
    k["optimizer_state"] = io::Text(i.optimizer_state);
    k["lambda"] = Num(i.lambda);
    k["errors_initial"] = Ref(i.errors_initial);
    if (const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&i.qp_outputs)) {
      k["qp_outputs"] = Ref(*ip);
    } else {
      k["qp_outputs"] = io::Text(std::get<QPNullSpaceTerminationState>(i.qp_outputs));
    }
    k["qp_eigenvalues"] = nullptr;
    if (i.qp_eigenvalues) k["qp_eigenvalues"] = {{"min", Num(i.qp_eigenvalues->min)}, {"max", Num(i.qp_eigenvalues->max)}, {"abs_min", Num(i.qp_eigenvalues->abs_min)}};
    k["directional_derivatives"] = {{"d_f", Num(i.directional_derivatives.d_f)}, {"d_equality", Num(i.directional_derivatives.d_equality)}};
    k["penalty"] = Num(i.penalty);
    k["step_result"] = io::Text(i.step_result);
    k["line_search_steps"] = json::array();
    for (const auto& s : i.line_search_steps) k["line_search_steps"].push_back({{"alpha", Num(s.alpha)}, {"errors", Ref(s.errors)}});
    j["iterations"].push_back(k);
  }
  return j;
}

void RoundTrip(pbt::Case& c, const NLSSolverOutputs& out) {
  const json j = out;
  const std::string text = j.dump();
  c.describe([&](auto& os) { os << text << "\n"; });
  const std::string ref = Ref(out).dump();
  c.require(text == ref, [&] { return "the document is\n" + text + "\nand should be\n" + ref; });
  // in memory
  const auto mem = Get(c, j, "from memory");
  c.require(nls::Same(mem, out), [&] { return "reading the document back in memory gives\n" + json(mem).dump() + "\ninstead of\n" + text; });
  // through text, compact or indented
  const std::string sent = c.src.boolean() ? text : j.dump(2);
  const auto got = Get(c, json::parse(sent), "from text");
  const NLSSolverOutputs expect = NonFiniteToNaN(out);
  c.require(nls::Same(got, expect), [&] { return "reading the text back gives\n" + json(got).dump() + "\ninstead of\n" + text; });
  c.require(json(got).dump() == text, [&] { return "writing what was read gives\n" + json(got).dump() + "\ninstead of\n" + text; });
  // through a binary format, which keeps infinities
  const auto bin = Get(c, json::from_cbor(json::to_cbor(j)), "from CBOR");
  c.require(nls::Same(bin, out), [&] { return "reading CBOR back gives\n" + json(bin).dump() + "\ninstead of\n" + text; });
  // an existing object is replaced
  NLSSolverOutputs existing(NLSTerminationState::MAX_LAMBDA, {});
  existing = json::parse(sent).get<NLSSolverOutputs>();
  c.require(nls::Same(existing, expect), "assignment of the result read differs");
  if (text.find("null,") != std::string::npos || text.find("null}") != std::string::npos) c.label("null");
  for (const auto& i : out.iterations) {
    c.label(i.qp_outputs.index() == 0 ? "null space" : "interior point");
    if (i.qp_eigenvalues) c.label("eigenvalues");
  }
  if (!out.iterations.empty()) c.nontrivial();
}

void Random(pbt::Case& c, bool nf) { RoundTrip(c, io::Outputs(c.src, nf)); }

void Runs(pbt::Case& c) {
  const nls::Random r = io::RealRun(c);
  if (!r.run.out) c.discard("solver threw");
  RoundTrip(c, *r.run.out);
}

// A vector of outputs or an object holding them (what a program that logs several runs writes).
void Containers(pbt::Case& c) {
  std::vector<NLSSolverOutputs> v;
  const int n = c.src.integer(0, 3);
  for (int i = 0; i < n; ++i) v.push_back(io::Outputs(c.src, false));
  json j;
  j["runs"] = v;
  c.describe([&](auto& os) { os << j.dump() << "\n"; });
  const auto w = json::parse(j.dump()).at("runs").get<std::vector<NLSSolverOutputs>>();
  c.require(w.size() == v.size(), "different number of outputs");
  for (int i = 0; i < n; ++i) c.require(nls::Same(w[static_cast<std::size_t>(i)], v[static_cast<std::size_t>(i)]), "outputs in a container differ");
  // writing over an existing document leaves nothing of it
  if (n > 1) {
    json k = v[0];
    k = v[1];
    c.require(k.dump() == Ref(v[1]).dump(), "a document that is assigned again keeps old content");
    c.nontrivial();
  }
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C23";
  p.rule =
      "random solver outputs (every state, optional part and QP solver, 0-3 iterations, full precision, extreme and non-finite values) and the "
      "outputs of real runs, written to JSON and read back in memory, through text and through CBOR, compared bit for bit with the original and with "
      "a document written independently; documents with a field removed, a value of the wrong type or damaged text. Non-trivial: at least one iteration";
  p.facets = {
      {"finite", [](Case& c) { Random(c, false); }, 15000, 1500000},
      {"non-finite", [](Case& c) { Random(c, true); }, 15000, 1500000},
      {"runs", Runs, 6000, 600000, 0.3},
      {"containers", Containers, 5000, 500000},
  };
  return p;
}
