// Choice-sequence property-based testing engine (no dependency on mini_opt).
//
// Every random decision of a case goes through pbt::Source, which records it as one integer in
// [0, max]. A case is therefore fully described by its vector of choices: that vector is what is
// replayed, what is shrunk and what is written to the replay file. Choice 0 is always the simplest.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

// Thrown by a property to report that the code under test violated it.
struct Failure {
  std::string message;
};
// Thrown by a property to say "this generated case is outside the domain", counted as discarded.
struct Discard {
  std::string why;
};

class Source {
 public:
  explicit Source(uint64_t seed) : random_(true), state_(seed) {}
  explicit Source(std::vector<uint64_t> choices) : random_(false), choices_(std::move(choices)) {}

  // Integer in [0, max]; 0 is simplest.
  uint64_t draw(uint64_t max);
  // Integer in [lo, hi]; lo is simplest.
  int integer(int lo, int hi) {
    return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo)));
  }
  bool boolean() { return draw(1) == 1; }
  // true with probability num/den (false is simplest).
  bool chance(int num, int den) {
    return draw(static_cast<uint64_t>(den - 1)) >= static_cast<uint64_t>(den - num);
  }
  double unit() { return static_cast<double>(draw((1ull << 53) - 1)) / 9007199254740992.0; }
  // Real in [lo, hi] (mix of coarse grid and continuous). lo <= 0 <= hi makes 0 the simplest.
  double real(double lo, double hi);
  // Positive real, log-uniform in [lo, hi]; lo simplest.
  double logreal(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
  // Non-zero real with magnitude in [lo, hi].
  double nonzero(double lo, double hi) {
    const double m = mag(lo, hi);
    return boolean() ? -m : m;
  }
  double mag(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size() - 1)];
  }

  const std::vector<uint64_t>& record() const { return record_; }
  // Also write every choice to buffer[1...] with the count in buffer[0], so that it survives a crash.
  void mirror(uint64_t* buffer, std::size_t capacity) {
    mirror_ = buffer;
    mirror_capacity_ = capacity;
  }
  bool exhausted() const { return !random_ && pos_ > choices_.size(); }

 private:
  bool random_;
  uint64_t state_{0};
  std::vector<uint64_t> choices_;
  std::size_t pos_{0};
  std::vector<uint64_t> record_;
  uint64_t* mirror_{nullptr};
  std::size_t mirror_capacity_{0};
};

class Case {
 public:
  Case(Source& s, bool verbose) : src(s), verbose(verbose) {}
  Source& src;
  bool verbose;  // want a textual description (sample or replay)

  // Count this case under a class.
  void label(const std::string& name) { labels[name] += 1; }
  // Mark as non-trivial by the property's rule.
  void nontrivial() { is_nontrivial = true; }
  template <typename F>
  void describe(F&& f) {
    if (verbose) {
      std::ostringstream s;
      s.precision(17);
      f(s);
      description += s.str();
    }
  }
  [[noreturn]] void fail(const std::string& msg) { throw Failure{msg}; }
  [[noreturn]] void discard(const std::string& why) { throw Discard{why}; }
  void require(bool ok, const std::function<std::string()>& msg) {
    ++assertions;
    if (!ok) fail(msg());
  }
  void require(bool ok, const char* msg) {
    ++assertions;
    if (!ok) fail(msg);
  }
  // The case shows the defect `key`. If /verif/known_findings.txt lists that key for this property it
  // is reported as known and the case goes on; otherwise it is an ordinary failure.
  void known_defect(const std::string& key, const std::string& msg);
  // Track the extreme of a measured quantity (slack to a tolerance), reported with --stats.
  void worst(const std::string& name, double value) {
    auto it = extremes.find(name);
    if (it == extremes.end()) {
      extremes[name] = value;
    } else if (value > it->second || std::isnan(value)) {
      it->second = value;
    }
  }

  std::map<std::string, uint64_t> labels;
  std::map<std::string, double> extremes;
  std::map<std::string, std::string> known;
  bool is_nontrivial{false};
  uint64_t assertions{0};
  std::string description;
};

struct Facet {
  std::string name;
  std::function<void(Case&)> run;
  uint64_t quick_cases;
  uint64_t thorough_cases;
  // A facet that discards more than this fraction of its cases decides nothing: on the unchanged tree
  // the fractions are far lower, so exceeding it means the code under test rejects valid cases.
  double max_discard = 0.5;
};

struct Property {
  std::string id;
  std::string rule;  // how cases are made and what makes one non-trivial
  std::vector<Facet> facets;
  std::vector<std::string> assumptions;
};

// Defined by each property translation unit.
Property make_property();

template <typename... Ts>
std::string str(const Ts&... ts) {
  std::ostringstream s;
  s.precision(17);
  (void)std::initializer_list<int>{((s << ts), 0)...};
  return s.str();
}

}  // namespace pbt
