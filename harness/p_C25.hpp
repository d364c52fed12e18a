#pragma once
#include <unistd.h>
#include <sys/syscall.h>

#include <atomic>
#include <nlohmann/json.hpp>
#include <set>
#include <thread>

#include "iogen.hpp"
#include "mini_opt/tracing.hpp"

namespace c25 {

using namespace mini_opt;
using nlohmann::json;
using Clock = std::chrono::high_resolution_clock;

// The events of a trace document; fails if the document is not valid.
inline std::vector<trace_event> Read(pbt::Case& c, const std::string& text, std::vector<std::string>& names) {
  json j;
  try {
    j = json::parse(text);
  } catch (const std::exception& e) {
    c.fail(pbt::str("the trace is not valid JSON: ", e.what(), ": ", text.substr(0, 600)));
  }
  try {
    c.require(j.at("displayTimeUnit") == "ns", "displayTimeUnit");
    const json& ev = j.at("traceEvents");
    c.require(ev.is_array(), "traceEvents is not an array");
    std::vector<trace_event> out;
    names.clear();
    names.reserve(ev.size());
    for (const json& e : ev) {
      c.require(e.at("ph") == "X", "not a complete event");
      c.require(e.at("cat").is_string(), "no category");
      c.require(e.at("ts").is_number_integer() && e.at("dur").is_number_integer() && e.at("pid").is_number_unsigned() && e.at("tid").is_number_unsigned(),
                "a field of an event has the wrong type");
      names.push_back(e.at("name").get<std::string>());
      out.push_back({{}, e.at("ts").get<std::int64_t>(), e.at("pid").get<std::uint32_t>(), e.at("tid").get<std::uint32_t>(), e.at("dur").get<std::int64_t>()});
    }
    for (std::size_t i = 0; i < out.size(); ++i) out[i].name = names[i];
    return out;
  } catch (const json::exception& e) {
    c.fail(pbt::str("an event lacks a field: ", e.what(), ": ", text.substr(0, 600)));
  }
}

// A collector of its own. (Only the library can destroy one: it stays.)
inline trace_collector* Collector() { return new trace_collector(); }

inline std::uint32_t Tid() { return static_cast<std::uint32_t>(syscall(SYS_gettid)); }
inline std::int64_t Micros(Clock::time_point t) { return std::chrono::duration_cast<std::chrono::microseconds>(t.time_since_epoch()).count(); }

// Several threads record scopes and events while others read the trace.
inline void Threads(pbt::Case& c, int max_threads, int max_events) {
  const int n = c.src.integer(2, max_threads), readers = c.src.integer(0, 2);
  std::vector<int> count;
  for (int i = 0; i < n; ++i) count.push_back(c.src.integer(1, max_events));
  const int reads = c.src.integer(1, 8);
  const bool scopes = c.src.boolean();
  static std::set<std::string>& pool = *new std::set<std::string>;  // names must outlive the trace
  static int run = 0;
  const int id = run++;
  trace_collector* const col = scopes ? trace_collector::get_instance() : Collector();
  std::vector<std::vector<const std::string*>> names(static_cast<std::size_t>(n));
  for (int t = 0; t < n; ++t)
    for (int k = 0; k < count[static_cast<std::size_t>(t)]; ++k)
      names[static_cast<std::size_t>(t)].push_back(&*pool.insert("r" + std::to_string(id) + " t" + std::to_string(t) + " e" + std::to_string(k)).first);
  c.describe([&](auto& os) { os << n << " threads, " << readers << " readers x " << reads << ", scopes " << scopes << ", events:"; for (int k : count) os << " " << k; os << "\n"; });
  std::atomic<bool> go{false};
  std::vector<std::uint32_t> tids(static_cast<std::size_t>(n));
  std::vector<std::string> texts(static_cast<std::size_t>(readers * reads));
  std::vector<std::thread> threads;
  for (int t = 0; t < n; ++t) {
    threads.emplace_back([&, t] {
      const auto ut = static_cast<std::size_t>(t);
      tids[ut] = Tid();
      while (!go.load()) std::this_thread::yield();
      for (std::size_t k = 0; k < names[ut].size(); ++k) {
        if (scopes) {
          scoped_trace s(*names[ut][k]);
        } else {
          col->submit_event({*names[ut][k], static_cast<std::int64_t>(k), 7u, tids[ut], static_cast<std::int64_t>(1000 * k)});
        }
      }
    });
  }
  for (int t = 0; t < readers; ++t) {
    threads.emplace_back([&, t] {
      while (!go.load()) std::this_thread::yield();
      for (int k = 0; k < reads; ++k) texts[static_cast<std::size_t>(t * reads + k)] = col->get_trace_json();
    });
  }
  go = true;
  for (auto& t : threads) t.join();
  std::vector<std::string> ns;
  for (int t = 0; t < readers; ++t) {
    std::size_t last = 0;
    for (int k = 0; k < reads; ++k) {
      const auto ev = Read(c, texts[static_cast<std::size_t>(t * reads + k)], ns);
      c.require(ev.size() >= last, "a later reading has fewer events");
      last = ev.size();
    }
  }
  // Everything that was recorded is there once, in order within each thread.
  const auto all = Read(c, col->get_trace_json(), ns);
  std::vector<std::size_t> next(static_cast<std::size_t>(n), 0);
  const std::string prefix = "r" + std::to_string(id) + " t";
  for (const trace_event& e : all) {
    if (e.name.substr(0, prefix.size()) != prefix) continue;
    const auto t = static_cast<std::size_t>(std::stoi(std::string(e.name.substr(prefix.size()))));
    c.require(t < names.size() && next[t] < names[t].size() && e.name == *names[t][next[t]],
              [&] { return "event \"" + std::string(e.name) + "\" is out of order or recorded twice"; });
    ++next[t];
    c.require(e.tid == tids[t], [&] { return pbt::str("event of thread ", tids[t], " is attributed to thread ", e.tid); });
    if (scopes) c.require(e.pid == static_cast<std::uint32_t>(getpid()), "wrong process id");
  }
  for (std::size_t t = 0; t < names.size(); ++t)
    c.require(next[t] == names[t].size(), [&] { return pbt::str("thread ", t, " recorded ", names[t].size(), " events, the trace has ", next[t]); });
  if (readers > 0) c.nontrivial();
}

}  // namespace c25
