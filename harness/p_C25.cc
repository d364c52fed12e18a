// build: nls plain
// C25: traces are valid JSON that contains every recorded event, the newest 100000 of them.
#include "p_C25.hpp"

#include <sys/wait.h>

#include <cerrno>
#include <cstdlib>

namespace {

using namespace c25;

// Names for events: identifiers, and any text a literal may hold.
const std::vector<std::string>& Names() {
  // never destroyed: the collector refers to the names until the program has ended
  static const std::vector<std::string>& v = *new std::vector<std::string>{"Solve", "f", "", "operator()", "a::b<c, d>::e", "100% {} {{x}}", "quote \"q\"", "back\\slash", "tab\tnewline\n", "\x01", "unit \xc2\xb5s", "a/b", "\"", "'"};
  return v;
}

std::int64_t Time(pbt::Source& s) {
  switch (s.draw(4)) {
    case 0: return s.integer(0, 10);
    case 1: return static_cast<std::int64_t>(s.draw(1ull << 52));
    case 2: return std::numeric_limits<std::int64_t>::max();
    case 3: return static_cast<std::int64_t>(s.draw(5000));
    default: return 1000000000000000 + s.integer(0, 1000);
  }
}

void Compare(pbt::Case& c, const std::vector<trace_event>& expect, std::size_t skip, trace_collector& col) {
  std::vector<std::string> ns;
  const auto got = Read(c, col.get_trace_json(), ns);
  c.require(got.size() == expect.size() - skip, [&] { return pbt::str("the trace has ", got.size(), " events, ", expect.size() - skip, " were recorded and are kept"); });
  for (std::size_t i = 0; i < got.size(); ++i) {
    const trace_event &a = got[i], &b = expect[i + skip];
    c.require(a.name == b.name && a.ts == b.ts && a.pid == b.pid && a.tid == b.tid && a.dur_ns == b.dur_ns / 1000, [&] {
      return pbt::str("event ", i, " is {", a.name, " ts ", a.ts, " pid ", a.pid, " tid ", a.tid, " dur ", a.dur_ns, " us}, recorded {", b.name, " ts ", b.ts, " pid ", b.pid,
                      " tid ", b.tid, " dur ", b.dur_ns, " ns}");
    });
  }
}

// A history of recording and reading on several collectors.
void History(pbt::Case& c) {
  const int cols = c.src.integer(1, 3);
  std::vector<trace_collector*> col;
  std::vector<std::vector<trace_event>> model(static_cast<std::size_t>(cols));
  for (int i = 0; i < cols; ++i) col.push_back(Collector());
  const int n = c.src.integer(1, 30);
  int events = 0;
  for (int k = 0; k < n; ++k) {
    const auto w = static_cast<std::size_t>(c.src.integer(0, cols - 1));
    if (c.src.chance(1, 4)) {
      Compare(c, model[w], 0, *col[w]);
      c.describe([&](auto& os) { os << "read " << w << "\n"; });
    } else {
      trace_event e{c.src.pick(Names()), Time(c.src), static_cast<std::uint32_t>(c.src.draw(0xffffffffu)), static_cast<std::uint32_t>(c.src.draw(0xffffffffu)), Time(c.src)};
      if (!model[w].empty() && c.src.chance(1, 3)) {  // much in common with the event before
        const trace_event& last = model[w].back();
        const auto keep = c.src.draw(31);
        if (keep & 1) e.name = last.name;
        if (keep & 2) e.ts = last.ts;
        if (keep & 4) e.pid = last.pid;
        if (keep & 8) e.tid = last.tid;
        if (keep & 16) e.dur_ns = last.dur_ns;
        if (keep == 31) c.label("same event twice");
      }
      c.describe([&](auto& os) { os << "submit " << w << " \"" << e.name << "\" " << e.ts << " " << e.pid << " " << e.tid << " " << e.dur_ns << "\n"; });
      col[w]->submit_event(e);
      model[w].push_back(e);
      ++events;
    }
  }
  for (std::size_t w = 0; w < col.size(); ++w) Compare(c, model[w], 0, *col[w]);
  if (events > 1) c.nontrivial();
}

// Scopes that end while static objects are destroyed, after everything else of the program, are recorded as well.
struct AtExit {
  int expect{-1};  // number of events recorded so far by the exiting program, -1: do nothing
  int scopes{0};
  ~AtExit() {
    if (expect < 0) return;
    for (int i = 0; i < scopes; ++i) scoped_trace scope("at exit");
    int status = 1;
    try {
      const json j = json::parse(trace_collector::get_instance()->get_trace_json());
      const json& ev = j.at("traceEvents");
      status = static_cast<int>(ev.size()) == std::min(expect + scopes, 100000) && (scopes == 0 || ev.back().at("name") == "at exit") ? 42 : 2;
    } catch (...) {
    }
    _exit(status);
  }
} at_exit;  // constructed before the collector is first used, destroyed after what is constructed later

void Exit(pbt::Case& c) {
  const int before = c.src.integer(0, 6), scopes = c.src.integer(0, 4);
  c.describe([&](auto& os) { os << before << " scopes before the program exits, " << scopes << " while static objects are destroyed\n"; });
  const pid_t pid = fork();
  if (pid == 0) {
    for (int i = 0; i < before; ++i) scoped_trace scope("main");
    try {
      const json j = json::parse(trace_collector::get_instance()->get_trace_json());
      at_exit.expect = static_cast<int>(j.at("traceEvents").size());
    } catch (...) {
      _exit(3);
    }
    at_exit.scopes = scopes;
    alarm(20);
    exit(0);
  }
  c.require(pid > 0, "fork");
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  c.require(!WIFSIGNALED(status), [&] { return pbt::str("the program was ended by signal ", WTERMSIG(status), " when it recorded a scope during exit"); });
  c.require(WEXITSTATUS(status) == 42, [&] { return pbt::str("scopes that ended during exit are not in the trace (", WEXITSTATUS(status), ")"); });
  if (scopes > 0) c.nontrivial();
}

// More events than are kept.
void Capacity(pbt::Case& c) {
  constexpr std::size_t kKeep = 100000;
  static const std::vector<int> extra = {-1, 0, 1, 2, 100, 5000};
  const int total = static_cast<int>(kKeep) + (c.src.boolean() ? c.src.pick(extra) : c.src.integer(0, 120000));
  c.describe([&](auto& os) { os << total << " events\n"; });
  trace_collector& col = *Collector();
  std::vector<trace_event> model;
  model.reserve(static_cast<std::size_t>(total));
  for (int k = 0; k < total; ++k) {
    const trace_event e{"e", k, 1, 2, 1000 * (k % 977)};
    col.submit_event(e);
    model.push_back(e);
  }
  Compare(c, model, model.size() > kKeep ? model.size() - kKeep : 0, col);
  if (model.size() > kKeep) c.nontrivial();
}

void Spin(int us) {
  const auto until = Clock::now() + std::chrono::microseconds(us);
  while (Clock::now() < until) {
  }
}

// A random tree of scopes, some of them left by an exception, on the global collector.
struct Tree {
  struct Done {
    const std::string* name;
    Clock::time_point a0, a1, b0, b1;  // start in [a0, a1], end in [b0, b1]
  };
  struct Thrown {};
  // Runs scopes when it is destroyed, possibly by an exception that passes.
  struct Cleanup {
    Tree& t;
    int depth;
    Cleanup(Tree& tree, int d) : t(tree), depth(d) {}
    ~Cleanup() {
      if (std::uncaught_exceptions() > 0) t.c.label("scope run while an exception passes");
      try {
        t.Scope(depth);
      } catch (const Thrown&) {
      }
    }
  };
  pbt::Case& c;
  std::vector<Done> done;
  int budget;
  static const std::string* Name(const std::string& s) {
    static std::set<std::string>& pool = *new std::set<std::string>;
    return &*pool.insert(s).first;
  }
  static int& Counter() {
    static int n = 0;
    return n;
  }
  // doomed: an exception thrown inside this scope leaves it
  void Scope(int depth) {
    if (budget-- <= 0) return;
    const std::string* name = Name("s" + std::to_string(Counter()++));
    Done d;
    d.name = name;
    const bool catches = c.src.boolean();
    bool thrown = false;
    d.a0 = Clock::now();
    {
      // The end of the scope is observed by an object that outlives it.
      scoped_trace s(*name);
      d.a1 = Clock::now();
      auto body = [&] {
        std::optional<Cleanup> cleanup;
        if (depth < 4 && c.src.chance(1, 5)) cleanup.emplace(*this, depth + 1);
        if (c.src.chance(1, 4)) Spin(c.src.integer(1, 300));
        const int kids = depth >= 4 ? 0 : c.src.integer(0, 3);
        for (int k = 0; k < kids; ++k) Scope(depth + 1);
        if (c.src.chance(1, 6)) throw Thrown{};
      };
      if (catches) {
        try {
          body();
        } catch (const Thrown&) {
          thrown = true;
        }
      } else {
        body();  // may leave this scope
      }
      d.b0 = Clock::now();
    }
    d.b1 = Clock::now();
    if (thrown) c.label("exception caught inside a scope");
    done.push_back(d);
  }
};

void Scopes(pbt::Case& c) {
  trace_collector* const g = trace_collector::get_instance();
  std::vector<std::string> ns;
  const std::size_t before = Read(c, g->get_trace_json(), ns).size();
  Tree t{c, {}, 25};
  int left = 0;
  const int top = c.src.integer(1, 4);
  for (int k = 0; k < top; ++k) {
    try {
      t.Scope(0);
    } catch (const Tree::Thrown&) {
      ++left;
      c.label("scope left by an exception");
    }
  }
  c.describe([&](auto& os) { os << t.done.size() << " scopes completed, " << left << " top level ones left by an exception\n"; });
  const auto all = Read(c, g->get_trace_json(), ns);
  if (all.size() >= 100000) c.discard("the global trace is full");
  c.require(all.size() == before + t.done.size(), [&] { return pbt::str(all.size() - before, " events for ", t.done.size(), " completed scopes"); });
  for (std::size_t i = 0; i < t.done.size(); ++i) {
    const trace_event& e = all[before + i];
    const Tree::Done& d = t.done[i];
    c.require(e.name == *d.name, [&] { return "event " + std::string(e.name) + " where scope " + *d.name + " ended"; });
    c.require(e.tid == Tid() && e.pid == static_cast<std::uint32_t>(getpid()), "wrong process or thread id");
    c.require(e.ts >= Micros(d.a0) && e.ts <= Micros(d.a1), [&] { return pbt::str("scope started at ", e.ts, ", really within [", Micros(d.a0), ", ", Micros(d.a1), "]"); });
    const auto us = [](auto x) { return std::chrono::duration_cast<std::chrono::microseconds>(x).count(); };
    c.require(e.dur_ns >= us(d.b0 - d.a1) && e.dur_ns <= us(d.b1 - d.a0), [&] { return pbt::str("scope took ", e.dur_ns, " us, really within [", us(d.b0 - d.a1), ", ", us(d.b1 - d.a0), "]"); });
  }
  if (t.done.size() > 1) c.nontrivial();
}

// The same short scope many times: every completion is an event of its own.
void Repeated(pbt::Case& c) {
  trace_collector* const g = trace_collector::get_instance();
  std::vector<std::string> ns;
  const std::size_t before = Read(c, g->get_trace_json(), ns).size();
  const std::string& name = *Tree::Name("again" + std::to_string(c.src.integer(0, 2)));
  const int n = c.src.integer(2, 60);
  const bool nested = c.src.boolean();
  c.describe([&](auto& os) { os << n << (nested ? " nested pairs of" : "") << " scopes " << name << "\n"; });
  const auto t0 = Clock::now();
  for (int k = 0; k < n; ++k) {
    scoped_trace s(name);
    if (nested) scoped_trace inner(name);
  }
  const auto t1 = Clock::now();
  const auto all = Read(c, g->get_trace_json(), ns);
  if (all.size() >= 100000) c.discard("the global trace is full");
  const std::size_t want = static_cast<std::size_t>(n) * (nested ? 2 : 1);
  c.require(all.size() == before + want, [&] { return pbt::str(all.size() - before, " events for ", want, " scopes of one name"); });
  int same = 0;
  std::int64_t total = 0;
  for (std::size_t k = before; k < all.size(); ++k) {
    c.require(all[k].name == name && all[k].ts >= Micros(t0) && all[k].ts <= Micros(t1) && all[k].dur_ns >= 0, "an event of a repeated scope has the wrong name or time");
    if (!nested || (k - before) % 2 == 1) total += all[k].dur_ns;
    same += k > before && all[k].ts == all[k - 1].ts;
  }
  c.require(total <= std::chrono::duration_cast<std::chrono::microseconds>(t1 - t0).count(), "scopes one after the other took longer than all of them");
  if (same > 0) c.nontrivial();
}

// Solver runs record their functions, and recording does not disturb them.
void Solver(pbt::Case& c) {
  trace_collector* const g = trace_collector::get_instance();
  std::vector<std::string> ns;
  const std::size_t before = Read(c, g->get_trace_json(), ns).size();
  const nls::Random r = io::RealRun(c);
  if (!r.run.out) c.discard("solver threw");
  const auto all = Read(c, g->get_trace_json(), ns);
  if (all.size() >= 100000) c.discard("the global trace is full");
  c.require(all.size() > before, "a solver run recorded nothing");
  const trace_event& last = all.back();
  c.require(last.name == "Solve", [&] { return "the last event of a run is " + std::string(last.name); });
  // the events of the run lie within the event of the run
  for (std::size_t i = before; i < all.size(); ++i) {
    const trace_event& e = all[i];
    c.require(!e.name.empty() && e.dur_ns >= 0, "an event without a name or with a negative duration");
    c.require(e.ts >= last.ts && e.ts + e.dur_ns <= last.ts + last.dur_ns + 2, [&] { return "event " + std::string(e.name) + " lies outside the run"; });
  }
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C25";
  p.rule =
      "histories of recording and reading on several collectors against a list, event names with quotes, control characters and braces, up to "
      "220000 events, trees of scopes left normally or by exceptions, solver runs, and threads that record while others read (also under the "
      "thread sanitizer). Non-trivial: more than one event, more than are kept, or a concurrent reader";
  p.assumptions = {"event names are valid UTF-8 and outlive the trace"};
  p.facets = {
      {"history", History, 20000, 2000000},
      {"capacity", Capacity, 16, 300},
      {"exit", Exit, 400, 10000},
      {"scopes", Scopes, 800, 4000, 0.9},
      {"repeated", Repeated, 400, 2000, 0.9},
      {"solver", Solver, 500, 3000, 0.9},
      {"threads", [](Case& c) { Threads(c, 8, 400); }, 150, 2500},
  };
  return p;
}
