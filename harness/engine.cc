#include "engine.hpp"

#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>

#include <nlohmann/json.hpp>

namespace pbt {

static uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t Source::draw(const uint64_t max) {
  uint64_t v = 0;
  if (random_) {
    const uint64_t r = splitmix(state_);
    v = max == ~0ull ? r : static_cast<uint64_t>((static_cast<unsigned __int128>(r) * (max + 1)) >> 64);
  } else {
    v = pos_ < choices_.size() ? choices_[pos_] : 0;
    if (v > max) v = max == ~0ull ? v : v % (max + 1);
    ++pos_;
  }
  record_.push_back(v);
  if (mirror_ && mirror_[0] + 1 < mirror_capacity_) mirror_[++mirror_[0]] = v;
  return v;
}

static std::map<std::string, std::string> g_known;  // key -> text, for this property

void Case::known_defect(const std::string& key, const std::string& msg) {
  ++assertions;
  const auto it = g_known.find(key);
  if (it == g_known.end()) fail("[" + key + "] " + msg);
  known[key] = it->second;
  label("known finding " + key);
}

double Source::real(const double lo, const double hi) {
  const uint64_t kind = draw(7);
  if (kind == 0) {
    // small integers around zero (or lo)
    const double k = static_cast<double>(draw(6));
    const double v = (static_cast<int>(k) % 2 ? -1.0 : 1.0) * std::ceil(k / 2);
    return std::min(hi, std::max(lo, v));
  } else if (kind <= 2) {
    // coarse grid
    const double v = lo + (hi - lo) * static_cast<double>(draw(64)) / 64.0;
    return v;
  }
  return lo + (hi - lo) * unit();
}

namespace {

constexpr double kCaseCpuSeconds = 30.0;

enum class Kind : int { PASS = 0, FAIL = 1, CRASH = 2, HANG = 3, DISCARD = 4 };

struct Outcome {
  Kind kind{Kind::PASS};
  std::string message;
  bool killed{false};  // by SIGKILL
  // Could have been caused from outside.
  bool external() const { return kind == Kind::HANG || killed; }
};

uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (const char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  return h;
}
uint64_t hash_vec(const std::vector<uint64_t>& v, uint64_t h) {
  for (uint64_t x : v) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
  }
  return h;
}
uint64_t case_seed(uint64_t seed, const std::string& facet, uint64_t index) {
  uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ hash_str(facet);
  splitmix(s);
  s ^= index * 0xd1342543de82ef95ull;
  splitmix(s);
  return s;
}

// Run one case in this process. C++ exceptions the property did not expect are failures: each
// property catches the ones its contract allows.
Outcome run_case(const Facet& f, Case& c) {
  try {
    f.run(c);
    return {Kind::PASS, ""};
  } catch (const Failure& e) {
    return {Kind::FAIL, e.message};
  } catch (const Discard& e) {
    return {Kind::DISCARD, e.why};
  } catch (const std::exception& e) {
    return {Kind::FAIL, std::string("unexpected exception: ") + e.what()};
  } catch (...) {
    return {Kind::FAIL, "unexpected exception of unknown type"};
  }
}

void arm_cpu_timer() {
  itimerval t{};
  t.it_value.tv_sec = static_cast<time_t>(kCaseCpuSeconds);
  setitimer(ITIMER_PROF, &t, nullptr);
}
void on_cpu_limit(int) { _exit(77); }

struct Shared {
  volatile uint64_t facet;
  volatile uint64_t index;
  volatile uint64_t busy;
};

std::string read_tail(const std::string& path, std::size_t n) {
  std::ifstream in(path, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string s = ss.str();
  // sanitizer headline first
  const auto p = s.find("ERROR: ");
  if (p != std::string::npos) s = s.substr(p);
  const auto q = s.find("runtime error:");
  if (p == std::string::npos && q != std::string::npos) s = s.substr(q);
  if (s.size() > n) s = s.substr(0, n);
  return s;
}

Outcome decode_status(int status, const std::string& errfile) {
  if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
    return {Kind::HANG, "did not terminate within " + std::to_string(kCaseCpuSeconds) +
                            " s of CPU time (a case normally takes milliseconds)"};
  }
  std::string what = WIFSIGNALED(status) ? std::string("killed by signal ") + strsignal(WTERMSIG(status))
                                         : std::string("exit status ") + std::to_string(WEXITSTATUS(status));
  const std::string tail = read_tail(errfile, 1500);
  return {Kind::CRASH, "crashed: " + what + (tail.empty() ? "" : "\n" + tail), WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL};
}

void child_setup(const std::string& errfile) {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  // Unbounded growth becomes std::bad_alloc. Memory is filled with garbage on allocation (a huge
  // positive double), so that reads of uninitialized storage show up in the results.
  rlimit rl{};
  rl.rlim_cur = rl.rlim_max = 3ull << 30;
  setrlimit(RLIMIT_AS, &rl);
  mallopt(M_PERTURB, 0x83);
#endif
  signal(SIGPIPE, SIG_IGN);
  const int fd = open(errfile.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  signal(SIGPROF, on_cpu_limit);
}

std::string g_tmp;

// Execute one choice vector in a forked child, so that crashes and hangs are contained.
Outcome run_isolated(const Facet& f, const std::vector<uint64_t>& choices,
                     std::string* description = nullptr,
                     std::vector<uint64_t>* consumed = nullptr) {
  const std::string out = g_tmp + "/iso.out", err = g_tmp + "/iso.err";
  fflush(nullptr);
  unlink(out.c_str());
  const pid_t pid = fork();
  if (pid == 0) {
    child_setup(err);
    arm_cpu_timer();
    Source src(choices);
    Case c(src, description != nullptr);
    const Outcome o = run_case(f, c);
    std::ofstream os(out, std::ios::binary);
    os << static_cast<int>(o.kind) << "\n" << src.record().size();
    for (uint64_t v : src.record()) os << " " << v;
    os << "\n" << o.message.size() << "\n" << o.message << "\n" << c.description;
    os.close();
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
    return decode_status(status, err);
  }
  std::ifstream in(out, std::ios::binary);
  int kind = 0;
  std::size_t n = 0, len = 0;
  in >> kind >> n;
  std::vector<uint64_t> rec(n);
  for (auto& v : rec) in >> v;
  in >> len;
  in.get();
  Outcome o;
  o.kind = static_cast<Kind>(kind);
  o.message.resize(len);
  in.read(o.message.data(), static_cast<std::streamsize>(len));
  if (consumed) *consumed = rec;
  if (description) {
    in.get();
    std::stringstream ss;
    ss << in.rdbuf();
    *description = ss.str();
  }
  return o;
}

bool bad(const Outcome& o) {
  return o.kind == Kind::FAIL || o.kind == Kind::CRASH || o.kind == Kind::HANG;
}

bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

std::vector<uint64_t> shrink(const Facet& f, std::vector<uint64_t> best, Kind kind, double budget_s) {
  const auto t0 = std::chrono::steady_clock::now();
  int attempts = 0;
  auto out_of_budget = [&] {
    return attempts > 3000 ||
           std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s;
  };
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (out_of_budget()) return false;
    if (!simpler(cand, best)) return false;
    ++attempts;
    std::vector<uint64_t> consumed;
    const Outcome o = run_isolated(f, cand, nullptr, &consumed);
    if (!bad(o) || (kind != Kind::HANG && o.kind == Kind::HANG)) return false;
    if (o.kind == Kind::FAIL && !consumed.empty() && simpler(consumed, cand)) cand = consumed;
    best = std::move(cand);
    return true;
  };
  bool progress = true;
  while (progress && !out_of_budget()) {
    progress = false;
    for (std::size_t chunk : {64u, 16u, 8u, 4u, 2u, 1u}) {
      for (std::size_t i = best.size(); i-- > 0 && !out_of_budget();) {
        if (i + chunk > best.size()) continue;
        std::vector<uint64_t> cand = best;
        cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + chunk));
        if (attempt(cand)) progress = true;
      }
    }
    for (std::size_t chunk : {16u, 4u, 1u}) {
      for (std::size_t i = 0; i + chunk <= best.size() && !out_of_budget(); i += chunk) {
        std::vector<uint64_t> cand = best;
        std::fill(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + chunk), 0);
        if (cand != best && attempt(cand)) progress = true;
      }
    }
    for (std::size_t i = 0; i < best.size() && !out_of_budget(); ++i) {
      uint64_t lo = 0;  // known not failing (or untried)
      for (int it = 0; it < 12 && best[i] > lo + 1 && !out_of_budget(); ++it) {
        std::vector<uint64_t> cand = best;
        cand[i] = lo + (best[i] - lo) / 2;
        if (attempt(cand)) {
          progress = true;
          if (i >= best.size()) break;
        } else {
          lo = lo + (best[i] - lo) / 2;
        }
      }
    }
  }
  return best;
}

struct WorkerResult {
  uint64_t evaluations{0}, nontrivial{0}, discarded{0}, assertions{0};
};

std::string file_name(std::string s) {
  std::replace(s.begin(), s.end(), ' ', '-');
  return s;
}

std::string sanitize(std::string s) {
  for (char& c : s) {
    const auto u = static_cast<unsigned char>(c);
    if (u < 0x20 && c != '\n') c = ' ';
    if (u >= 0x80) c = '?';
  }
  return s;
}

// Body of one worker process.
void worker(const Property& p, const std::vector<std::size_t>& facets, bool thorough, uint64_t seed,
            int w, int W, Shared* sh, double scale, std::chrono::steady_clock::time_point deadline,
            const std::string& out) {
  nlohmann::json res;
  std::map<std::string, std::map<std::string, uint64_t>> labels;
  std::map<std::string, std::map<std::string, double>> extremes;
  std::map<std::string, std::map<std::string, uint64_t>> discards;
  std::map<std::string, uint64_t> per_facet, per_facet_nt;
  std::map<std::string, std::string> known;
  std::map<std::string, std::vector<uint64_t>> first_discard;
  std::vector<uint64_t> hashes;
  nlohmann::json samples = nlohmann::json::array();
  uint64_t evals = 0, discarded = 0, assertions = 0;
  bool truncated = false;
  nlohmann::json failure;
  // interleave facets in slices so that a time cap truncates all of them evenly
  std::vector<uint64_t> total(facets.size()), next(facets.size());
  std::map<std::size_t, int> sampled;
  for (std::size_t k = 0; k < facets.size(); ++k) {
    const Facet& f = p.facets[facets[k]];
    total[k] = std::max<uint64_t>(1, static_cast<uint64_t>(
                                         static_cast<double>(thorough ? f.thorough_cases : f.quick_cases) * scale));
    next[k] = static_cast<uint64_t>(w);
  }
  const uint64_t slices = 64;
  bool stop = false;
  for (uint64_t sl = 1; sl <= slices && !stop; ++sl) {
    for (std::size_t k = 0; k < facets.size() && !stop; ++k) {
      const Facet& f = p.facets[facets[k]];
      const uint64_t until = total[k] * sl / slices;
      for (; next[k] < until && !stop; next[k] += static_cast<uint64_t>(W)) {
        sh->facet = facets[k];
        sh->index = next[k];
        sh->busy = 1;
        arm_cpu_timer();
        Source src(case_seed(seed, f.name, next[k]));
        const bool want = w == 0 && sampled[k] < 1 && next[k] >= static_cast<uint64_t>(5 * W);
        Case c(src, want);
        const Outcome o = run_case(f, c);
        sh->busy = 0;
        ++evals;
        per_facet[f.name]++;
        assertions += c.assertions;
        for (const auto& [n, v] : c.labels) labels[f.name][n] += v;
        for (const auto& [n, v] : c.extremes) {
          auto& e = extremes[f.name];
          auto it = e.find(n);
          if (it == e.end() || v > it->second || std::isnan(v)) e[n] = v;
        }
        for (const auto& [n, v] : c.known) known[n] = v;
        if (o.kind == Kind::DISCARD) {
          ++discarded;
          discards[f.name][o.message]++;
          if (!first_discard.count(f.name)) first_discard[f.name] = src.record();
        }
        if (c.is_nontrivial && o.kind != Kind::DISCARD) {
          hashes.push_back(hash_vec(src.record(), hash_str(f.name)));
          per_facet_nt[f.name]++;
          if (want && !c.description.empty()) {
            std::string d = c.description;
            if (d.size() > 1200) d = d.substr(0, 1200) + "...";
            samples.push_back({{"facet", f.name}, {"index", next[k]}, {"case", sanitize(d)}});
            sampled[k]++;
          }
        }
        if (bad(o)) {
          failure = {{"facet", facets[k]}, {"index", next[k]}, {"message", sanitize(o.message)}, {"choices", src.record()}};
          stop = true;
        }
        if ((evals & 15) == 0 && std::chrono::steady_clock::now() > deadline) {
          truncated = true;
          stop = true;
        }
      }
    }
  }
  res["labels"] = labels;
  nlohmann::json ex = nlohmann::json::object();
  for (auto& [f, m] : extremes)
    for (auto& [n, v] : m) ex[f][n] = str(v);
  res["extremes"] = ex;
  res["discards"] = discards;
  res["known"] = known;
  res["first_discard"] = first_discard;
  res["per_facet"] = per_facet;
  res["per_facet_nt"] = per_facet_nt;
  res["evaluations"] = evals;
  res["discarded"] = discarded;
  res["assertions"] = assertions;
  res["samples"] = samples;
  res["truncated"] = truncated;
  if (!failure.is_null()) res["failure"] = failure;
  std::ofstream os(out);
  os << res.dump();
  os.close();
  std::ofstream hs(out + ".hash", std::ios::binary);
  hs.write(reinterpret_cast<const char*>(hashes.data()), static_cast<std::streamsize>(hashes.size() * 8));
  hs.close();
}

void rm_tmp() {
  if (g_tmp.empty()) return;
  const std::string cmd = "rm -rf '" + g_tmp + "'";
  if (system(cmd.c_str()) != 0) {
  }
}

std::string describe_value(const std::vector<uint64_t>& v) {
  std::ostringstream s;
  for (std::size_t i = 0; i < v.size(); ++i) s << (i ? " " : "") << v[i];
  return s.str();
}

int replay_file(const Property& p, const std::string& path) {
  std::ifstream in(path);
  if (!in) {
    std::cerr << "cannot open replay file " << path << "\n";
    return 2;
  }
  std::string line, facet;
  std::vector<uint64_t> choices;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string key;
    ls >> key;
    if (key == "facet") {
      ls >> facet;
    } else if (key == "choices") {
      uint64_t v;
      while (ls >> v) choices.push_back(v);
    }
  }
  for (const Facet& f : p.facets) {
    if (f.name != facet) continue;
    std::string desc;
    const Outcome o = run_isolated(f, choices, &desc);
    std::cout << "facet " << facet << "\n" << desc << "\n";
    if (bad(o)) {
      std::cout << "FAILS: " << o.message << "\n";
      std::cout << "VIOLATION property=" << p.id << " replay=" << path << "\n";
      return 1;
    }
    std::cout << (o.kind == Kind::DISCARD ? "DISCARDED: " : "PASSES ") << o.message << "\n";
    return 0;
  }
  std::cerr << "no facet " << facet << "\n";
  return 2;
}

int main_impl(int argc, char** argv) {
  const auto t0 = std::chrono::steady_clock::now();
  std::map<std::string, std::string> args;
  for (int i = 1; i + 1 < argc; i += 2) args[argv[i]] = argv[i + 1];
  Property p = make_property();
  const char* td = getenv("TMPDIR");
  std::string tmpl = std::string(td && *td ? td : "/tmp") + "/pbt_XXXXXX";
  if (!mkdtemp(tmpl.data())) {
    perror("mkdtemp");
    return 2;
  }
  g_tmp = tmpl;
  if (args.count("--known")) {
    // lines: "finding: property=<id> key=<key> <text>" (other lines are ignored)
    std::ifstream in(args["--known"]);
    std::string line;
    const std::string head = "finding: property=" + p.id + " key=";
    while (std::getline(in, line)) {
      if (line.compare(0, head.size(), head) != 0) continue;
      const std::string rest = line.substr(head.size());
      const auto sp = rest.find(' ');
      g_known[rest.substr(0, sp)] = sp == std::string::npos ? rest : rest.substr(sp + 1);
    }
  }
  if (args.count("--replay")) {
    const int rc = replay_file(p, args["--replay"]);
    rm_tmp();
    return rc;
  }
  const bool thorough = args["--tier"] == "thorough";
  const uint64_t seed = args.count("--seed") ? strtoull(args["--seed"].c_str(), nullptr, 10) : 1;
  const double scale = args.count("--scale") ? atof(args["--scale"].c_str()) : 1.0;
  const double cap = args.count("--cap") ? atof(args["--cap"].c_str()) : (thorough ? 800.0 : 240.0);
  const int W = args.count("--workers") ? atoi(args["--workers"].c_str()) : 8;
  const std::string replay_dir = args.count("--replay-dir") ? args["--replay-dir"] : ".";
  std::vector<std::size_t> facets;
  for (std::size_t k = 0; k < p.facets.size(); ++k) {
    if (!args.count("--facet") || p.facets[k].name == args["--facet"]) facets.push_back(k);
  }
  const auto deadline = t0 + std::chrono::milliseconds(static_cast<long>(cap * 1000));

  auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * static_cast<std::size_t>(W),
                                       PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids(static_cast<std::size_t>(W));
  fflush(nullptr);
  for (int w = 0; w < W; ++w) {
    const pid_t pid = fork();
    if (pid == 0) {
      child_setup(g_tmp + "/w" + std::to_string(w) + ".err");
      worker(p, facets, thorough, seed, w, W, &sh[w], scale, deadline, g_tmp + "/w" + std::to_string(w) + ".json");
      _exit(0);
    }
    pids[static_cast<std::size_t>(w)] = pid;
  }
  struct Found {
    std::size_t facet;
    uint64_t index;
    Outcome o;
    std::vector<uint64_t> choices;
  };
  std::vector<Found> found;
  std::vector<bool> done(static_cast<std::size_t>(W), false);
  int live = W;
  bool killed = false;
  while (live > 0) {
    int status = 0;
    const pid_t pid = waitpid(-1, &status, 0);
    if (pid < 0) break;
    for (int w = 0; w < W; ++w) {
      if (pids[static_cast<std::size_t>(w)] != pid) continue;
      --live;
      const bool clean = WIFEXITED(status) && WEXITSTATUS(status) == 0;
      if (clean) {
        done[static_cast<std::size_t>(w)] = true;
        // A failing worker stops early; let the others stop too.
        std::ifstream in(g_tmp + "/w" + std::to_string(w) + ".json");
        nlohmann::json j = nlohmann::json::parse(in, nullptr, false);
        if (!j.is_discarded() && j.contains("failure")) {
          Found f;
          f.facet = j["failure"]["facet"].get<std::size_t>();
          f.index = j["failure"]["index"].get<uint64_t>();
          f.o = {Kind::FAIL, j["failure"]["message"].get<std::string>()};
          f.choices = j["failure"]["choices"].get<std::vector<uint64_t>>();
          found.push_back(f);
        }
      } else if (!killed && sh[w].busy) {
        Found f;
        f.facet = sh[w].facet;
        f.index = sh[w].index;
        f.o = decode_status(status, g_tmp + "/w" + std::to_string(w) + ".err");
        found.push_back(f);
      } else if (!killed) {
        std::cerr << "worker " << w << " ended abnormally outside a case, status " << status << "\n"
                  << read_tail(g_tmp + "/w" + std::to_string(w) + ".err", 2000) << "\n";
        for (pid_t q : pids) kill(q, SIGKILL);
        rm_tmp();
        return 2;
      }
      if (!found.empty() && !killed) {
        killed = true;
        // give the others a moment to finish their current case, then stop them
        for (int v = 0; v < W; ++v)
          if (v != w) kill(pids[static_cast<std::size_t>(v)], SIGKILL);
      }
    }
  }

  // Merge.
  uint64_t evals = 0, discarded = 0, assertions = 0;
  std::map<std::string, std::map<std::string, uint64_t>> labels, discards;
  std::map<std::string, std::map<std::string, double>> extremes;
  std::map<std::string, uint64_t> per_facet, per_facet_nt;
  std::set<uint64_t> distinct;
  nlohmann::json samples = nlohmann::json::array();
  bool truncated = false;
  std::map<std::string, std::string> known;
  std::map<std::string, std::vector<uint64_t>> first_discard;
  for (int w = 0; w < W; ++w) {
    if (!done[static_cast<std::size_t>(w)]) continue;
    std::ifstream in(g_tmp + "/w" + std::to_string(w) + ".json");
    nlohmann::json j = nlohmann::json::parse(in, nullptr, false);
    if (j.is_discarded()) continue;
    evals += j["evaluations"].get<uint64_t>();
    discarded += j["discarded"].get<uint64_t>();
    assertions += j["assertions"].get<uint64_t>();
    truncated = truncated || j["truncated"].get<bool>();
    for (auto& [f, m] : j["labels"].items())
      for (auto& [n, v] : m.items()) labels[f][n] += v.get<uint64_t>();
    for (auto& [f, m] : j["discards"].items())
      for (auto& [n, v] : m.items()) discards[f][n] += v.get<uint64_t>();
    for (auto& [f, m] : j["extremes"].items())
      for (auto& [n, v] : m.items()) {
        const double d = strtod(v.get<std::string>().c_str(), nullptr);
        auto& e = extremes[f];
        if (!e.count(n) || d > e[n] || std::isnan(d)) e[n] = d;
      }
    for (auto& [n, v] : j["per_facet"].items()) per_facet[n] += v.get<uint64_t>();
    for (auto& [n, v] : j["per_facet_nt"].items()) per_facet_nt[n] += v.get<uint64_t>();
    for (auto& s : j["samples"]) samples.push_back(s);
    for (auto& [n, v] : j["known"].items()) known[n] = v.get<std::string>();
    for (auto& [n, v] : j["first_discard"].items())
      if (!first_discard.count(n)) first_discard[n] = v.get<std::vector<uint64_t>>();
    std::ifstream hs(g_tmp + "/w" + std::to_string(w) + ".json.hash", std::ios::binary);
    uint64_t h;
    while (hs.read(reinterpret_cast<char*>(&h), 8)) distinct.insert(h);
  }

  int rc = 0;
  int violations = 0, flaky = 0;
  nlohmann::json failures = nlohmann::json::array();
  for (Found& f : found) {
    const Facet& fac = p.facets[f.facet];
    if (f.choices.empty()) {
      // The case died: run it again from its seed, with the choices mirrored to shared memory.
      const std::size_t cap_n = 1 << 22;
      auto* buf = static_cast<uint64_t*>(mmap(nullptr, cap_n * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      fflush(nullptr);
      const pid_t pid = fork();
      if (pid == 0) {
        child_setup(g_tmp + "/rec.err");
        arm_cpu_timer();
        Source src(case_seed(seed, fac.name, f.index));
        src.mirror(buf, cap_n);
        Case c(src, false);
        run_case(fac, c);
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      f.choices.assign(buf + 1, buf + 1 + buf[0]);
      munmap(buf, cap_n * 8);
    }
    int bad_runs = 0;
    const int reps = f.o.kind == Kind::HANG ? 2 : 3;
    for (int r = 0; r < reps; ++r) bad_runs += bad(run_isolated(fac, f.choices)) ? 1 : 0;
    // A process that was killed or ran out of time once may have been the machine's doing: search again.
    if (bad_runs < reps && f.o.external()) {
      ++flaky;
      std::cerr << "not reproducible (" << bad_runs << "/" << reps << "): facet " << fac.name << " index " << f.index << ": "
                << f.o.message << "\n";
      continue;
    }
    // Anything else that fails once is a failure: it depends on the schedule, on memory contents or on earlier cases.
    const bool steady = bad_runs == reps;
    const std::vector<uint64_t> small =
        f.o.kind == Kind::HANG || !steady ? f.choices : shrink(fac, f.choices, f.o.kind, 60.0);
    std::string desc;
    Outcome o = run_isolated(fac, small, &desc);
    if (!steady && !bad(o)) o.message = f.o.message;
    if (!steady) o.message += str("\n(failed in ", bad_runs, " of ", reps, " repetitions by itself: it depends on the schedule, on memory contents or on earlier cases of seed ", seed, ")");
    ++violations;
    mkdir(replay_dir.c_str(), 0755);
    const std::string path = replay_dir + "/" + p.id + "_" + file_name(fac.name) + "_" + std::to_string(seed) + "_" + std::to_string(f.index) + ".replay";
    std::ofstream os(path);
    os << "property " << p.id << "\nfacet " << fac.name << "\nseed " << seed << "\nindex " << f.index
       << "\nchoices " << describe_value(small) << "\n---\n" << o.message << "\n---\n" << desc << "\n";
    os.close();
    std::cout << "facet " << fac.name << ": " << o.message << "\n" << (desc.size() > 3000 ? desc.substr(0, 3000) : desc) << "\n";
    std::cout << "VIOLATION property=" << p.id << " replay=" << path << "\n";
    failures.push_back({{"facet", fac.name}, {"message", sanitize(o.message)}, {"replay", path}});
    rc = 1;
    break;
  }

  if (rc == 0 && flaky > 0) {
    rm_tmp();
    if (args.count("--again")) return 2;
    std::vector<char*> again(argv, argv + argc);
    std::string a = "--again", b = "1";
    again.push_back(a.data());
    again.push_back(b.data());
    again.push_back(nullptr);
    execv("/proc/self/exe", again.data());
    return 2;
  }
  if (rc == 0) {
    for (const Facet& f : p.facets) {
      uint64_t nd = 0;
      for (auto& [r, v] : discards[f.name]) nd += v;
      const uint64_t n = per_facet[f.name];
      if (n < 40 || static_cast<double>(nd) <= f.max_discard * static_cast<double>(n)) continue;
      ++violations;
      mkdir(replay_dir.c_str(), 0755);
      const std::string path = replay_dir + "/" + p.id + "_" + file_name(f.name) + "_" + std::to_string(seed) + "_discards.replay";
      std::ofstream os(path);
      os << "property " << p.id << "\nfacet " << f.name << "\nseed " << seed << "\nchoices "
         << describe_value(first_discard[f.name]) << "\n---\n" << nd << " of " << n
         << " valid cases could not be decided because the code under test rejected them:\n";
      for (auto& [r, v] : discards[f.name]) os << "  " << v << " x " << r << "\n";
      os << "(replaying prints the reason for the first of them)\n";
      os.close();
      const std::string msg = std::to_string(nd) + " of " + std::to_string(n) + " valid cases were rejected by the code under test, e.g. " +
                              discards[f.name].begin()->first;
      std::cout << "facet " << f.name << ": " << msg << "\n";
      std::cout << "VIOLATION property=" << p.id << " replay=" << path << "\n";
      failures.push_back({{"facet", f.name}, {"message", sanitize(msg)}, {"replay", path}});
      rc = 1;
      break;
    }
  }
  for (auto& [k, v] : known) std::cout << "KNOWN-FINDING: property=" << p.id << " " << v << "\n";

  const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  uint64_t nt_total = 0;
  for (auto& [n, v] : per_facet_nt) nt_total += v;
  nlohmann::json ev;
  ev["property"] = p.id;
  ev["tier"] = thorough ? "thorough" : "quick";
  ev["seed"] = seed;
  ev["level"] = "exploration";
  ev["assumptions"] = p.assumptions;
  ev["wall_s"] = wall;
  ev["violations"] = violations;
  nlohmann::json cov;
  cov["evaluations"] = evals;
  cov["distinct_nontrivial"] = distinct.size();
  cov["rule"] = p.rule;
  cov["samples"] = samples;
  cov["oracle_assertions"] = assertions;
  cov["discarded"] = discarded;
  cov["discard_reasons"] = discards;
  cov["cases_per_facet"] = per_facet;
  cov["nontrivial_per_facet"] = per_facet_nt;
  cov["classes"] = labels;
  cov["known_findings_observed"] = known;
  nlohmann::json ex = nlohmann::json::object();
  for (auto& [f, m] : extremes)
    for (auto& [n, v] : m) ex[f][n] = str(v);
  cov["largest_measured"] = ex;
  cov["truncated_by_time_cap"] = truncated;
  cov["not_reproducible_failures"] = flaky;
  cov["exhaustive"] = false;
  if (!failures.empty()) cov["failures"] = failures;
  ev["coverage"] = cov;
  if (args.count("--evidence")) {
    std::ofstream os(args["--evidence"] + ".tmp");
    os << ev.dump(1) << "\n";
    os.close();
    rename((args["--evidence"] + ".tmp").c_str(), args["--evidence"].c_str());
  }
  std::cout << p.id << " " << ev["tier"].get<std::string>() << " seed=" << seed << ": " << evals << " cases, "
            << distinct.size() << " distinct non-trivial, " << discarded << " discarded, " << assertions
            << " oracle assertions, " << violations << " violation(s), " << wall << " s"
            << (truncated ? " (stopped by time cap)" : "") << "\n";
  if (args.count("--stats")) {
    for (auto& [f, n] : per_facet) {
      std::cout << "  " << f << ": " << n << " cases, nontrivial " << per_facet_nt[f] << "\n";
      for (auto& [l, v] : labels[f]) std::cout << "      " << l << ": " << v << "\n";
      for (auto& [l, v] : discards[f]) std::cout << "      (discard) " << l << ": " << v << "\n";
      for (auto& [l, v] : extremes[f]) std::cout << "      (max) " << l << " = " << v << "\n";
    }
  }
  rm_tmp();
  return rc;
}

}  // namespace
}  // namespace pbt

int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
