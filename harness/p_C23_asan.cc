// build: nls asan
// C23, damaged documents: reading either works or throws, and never accepts a document that lacks a field.
#include "p_C23.hpp"

namespace {

using namespace c23;

// Paths of everything in a document.
void Walk(const json& j, const json::json_pointer& at, std::vector<json::json_pointer>& out) {
  if (j.is_object()) {
    for (auto it = j.begin(); it != j.end(); ++it) {
      out.push_back(at / it.key());
      Walk(it.value(), at / it.key(), out);
    }
  } else if (j.is_array()) {
    for (std::size_t i = 0; i < j.size(); ++i) {
      out.push_back(at / i);
      Walk(j[i], at / i, out);
    }
  }
}
bool IsName(const json& v) { return v.is_string(); }  // every text in a document names a state

NLSSolverOutputs Document(pbt::Case& c) {
  NLSSolverOutputs out = io::Outputs(c.src, c.src.boolean());
  if (out.iterations.empty()) out.iterations.push_back(io::Iteration(c.src, 0, false));
  return out;
}

void Removed(pbt::Case& c) {
  json j = Document(c);
  std::vector<json::json_pointer> all, fields;
  Walk(j, json::json_pointer(), all);
  for (const auto& p : all)
    if (j.at(p.parent_pointer()).is_object()) fields.push_back(p);
  const auto& p = c.src.pick(fields);
  j.at(p.parent_pointer()).erase(p.back());
  c.describe([&](auto& os) { os << "without " << p.to_string() << ": " << j.dump() << "\n"; });
  bool rejected = false;
  try {
    (void)j.get<NLSSolverOutputs>();
  } catch (const std::exception&) {
    rejected = true;
  }
  c.require(rejected, [&] { return "a document without " + p.to_string() + " is accepted"; });
  c.nontrivial();
}

void WrongType(pbt::Case& c) {
  json j = Document(c);
  std::vector<json::json_pointer> all, good;
  Walk(j, json::json_pointer(), all);
  for (const auto& p : all)
    good.push_back(p);
  const auto& p = c.src.pick(good);
  json& v = j.at(p);
  // A number, object or array is replaced by something that cannot be read in its place.
  const json old = v;
  static const std::vector<json> wrong = {json("text"), json::array({1}), json::object({{"x", 1}}), json::array({"a"}), json(true), json(false), json("")};
  v = c.src.pick(wrong);
  if (IsName(old)) {  // an unknown name, a number, no value, or a name of another state
    static const std::vector<json> names = {json(0), json(1), json(-1), json(0.5), json(nullptr), json("success"), json("SUCCES"), json("NOMINAL "), json("CONVERGED"), json("max_iterations")};
    if (c.src.boolean()) v = c.src.pick(names);
    if (c.src.chance(1, 4)) v = old.get<std::string>() + (c.src.boolean() ? "_" : std::string(1, '\0'));
    c.label("state name");
  } else if (p.back() == "iteration" && c.src.boolean()) {
    v = c.src.boolean() ? json(1.5) : json(nullptr);
  }
  // null is also the absent value of the optional parts: any other type is wrong for them too
  if (old.is_array() && v.is_array() && v.dump() == old.dump()) c.discard("same");
  c.describe([&](auto& os) { os << p.to_string() << " = " << v.dump() << ": " << j.dump() << "\n"; });
  bool rejected = false;
  try {
    (void)j.get<NLSSolverOutputs>();
  } catch (const std::exception&) {
    rejected = true;
  }
  c.require(rejected, [&] { return "a document with " + p.to_string() + " = " + v.dump() + " instead of " + old.dump() + " is accepted"; });
  c.nontrivial();
}

// Bytes of the text changed, removed, duplicated, cut.
void Damaged(pbt::Case& c) {
  std::string t = json(Document(c)).dump();
  const int n = c.src.integer(1, 4);
  static const std::string bytes = "{}[],:\"0123456789.eE+-ntruefalsenull \\u\n";
  for (int k = 0; k < n && !t.empty(); ++k) {
    const std::size_t at = c.src.draw(t.size() - 1);
    const std::size_t len = 1 + c.src.draw(std::min<std::size_t>(30, t.size() - at - 1));
    switch (c.src.draw(4)) {
      case 0: t[at] = bytes[c.src.draw(bytes.size() - 1)]; break;
      case 1: t.erase(at, len); break;
      case 2: t.insert(at, t.substr(at, len)); break;
      case 3: t.insert(c.src.draw(t.size() - 1), t.substr(at, len)); break;
      case 4: t = t.substr(0, at); break;
    }
  }
  c.describe([&](auto& os) { os << t << "\n"; });
  try {
    const json j = json::parse(t);
    c.label("still JSON");
    const NLSSolverOutputs out = j.get<NLSSolverOutputs>();
    c.label("still readable");
    // What was read is usable and stable.
    (void)out.ToString(true, true);
    (void)(out.NumQPIterations() + out.NumLineSearchSteps() + out.NumFailedLineSearches());
    const auto again = json::parse(json(out).dump()).get<NLSSolverOutputs>();
    c.require(nls::Same(again, NonFiniteToNaN(out)), "what was read from a damaged document does not round trip");
    c.nontrivial();
  } catch (const std::exception&) {
    c.label("rejected");
  }
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C23";
  p.rule = "damaged documents, under the address sanitizer; non-trivial: a field was removed or replaced, or the damaged text is still accepted";
  p.facets = {
      {"removed_asan", Removed, 4000, 300000},
      {"wrong-type_asan", WrongType, 4000, 300000, 0.3},
      {"damaged_asan", Damaged, 4000, 300000},
  };
  return p;
}
