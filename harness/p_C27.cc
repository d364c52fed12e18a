// build: nls notrace
// C27: exceptions of user functions, callbacks and operators and failed allocations pass through unchanged and leave
// everything usable. The allocator of this program is replaced so that any single allocation can be made to fail.
#include <cerrno>
#include <functional>
#include <ios>
#include <new>
#include <typeinfo>

#include "nlsgen.hpp"

// Single threaded by design: counters are plain.
namespace {
struct Heap {
  long live{0};          // blocks not freed
  long count{0};         // allocations while armed
  long fail_at{-1};      // index of the allocation that fails, -1: none
  bool armed{false};
  bool failed{false};
  bool Fails() {
    if (!armed) return false;
    const bool f = count++ == fail_at;
    failed |= f;
    return f;
  }
} heap;
}  // namespace

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);

void* malloc(size_t n) {
  if (heap.Fails()) return errno = ENOMEM, nullptr;
  void* p = __libc_malloc(n);
  heap.live += p != nullptr;
  return p;
}
void* calloc(size_t n, size_t m) {
  if (heap.Fails()) return errno = ENOMEM, nullptr;
  void* p = __libc_calloc(n, m);
  heap.live += p != nullptr;
  return p;
}
void* realloc(void* q, size_t n) {
  if (heap.Fails()) return errno = ENOMEM, nullptr;
  void* p = __libc_realloc(q, n);
  if (!q) heap.live += p != nullptr;
  else if (n == 0 && !p) --heap.live;
  return p;
}
void* memalign(size_t a, size_t n) {
  if (heap.Fails()) return errno = ENOMEM, nullptr;
  void* p = __libc_memalign(a, n);
  heap.live += p != nullptr;
  return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) {
  void* p = memalign(a, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void free(void* p) {
  heap.live -= p != nullptr;
  __libc_free(p);
}
}

using namespace mini_opt;
using nls::Index;
using nls::VectorXd;
using Params = ConstrainedNonlinearLeastSquares::Params;
using Solver = ConstrainedNonlinearLeastSquares;

namespace {

// What user code throws: anything.
struct Boom {
  long id;
};
struct Odd : std::runtime_error {
  long id;
  explicit Odd(long i) : std::runtime_error("odd"), id(i) {}
};
// Thrown exactly as they are: one might be taken for something else on the way.
enum class Kind { CLASS, RUNTIME, INT, ASSERT, ALLOC, FACTORIZATION, DOMAIN_ERROR, RANGE, OUT_OF_RANGE, INVALID, OVERFLOW_ERROR, UNDERFLOW, LENGTH, LOGIC, FUNCTION, OPTIONAL, VARIANT, EXCEPTION, FAILURE, COUNT };
struct Plain : std::exception {};

[[noreturn]] void Throw(const Kind k, const long id) {
  switch (k) {
    case Kind::CLASS: throw Boom{id};
    case Kind::RUNTIME: throw Odd(id);
    case Kind::INT: throw id;
    case Kind::ASSERT: throw assert::default_error("user " + std::to_string(id));
    case Kind::FACTORIZATION: throw FailedFactorization("user");
    case Kind::DOMAIN_ERROR: throw std::domain_error("user");
    case Kind::RANGE: throw std::range_error("user");
    case Kind::OUT_OF_RANGE: throw std::out_of_range("user");
    case Kind::INVALID: throw std::invalid_argument("user");
    case Kind::OVERFLOW_ERROR: throw std::overflow_error("user");
    case Kind::UNDERFLOW: throw std::underflow_error("user");
    case Kind::LENGTH: throw std::length_error("user");
    case Kind::LOGIC: throw std::logic_error("user");
    case Kind::FUNCTION: throw std::bad_function_call();
    case Kind::OPTIONAL: throw std::bad_optional_access();
    case Kind::VARIANT: throw std::bad_variant_access();
    case Kind::EXCEPTION: throw Plain();
    case Kind::FAILURE: throw std::ios_base::failure("user");
    default: break;
  }
  throw std::bad_alloc();
}
const std::type_info& Type(const Kind k) {
  switch (k) {
    case Kind::FACTORIZATION: return typeid(FailedFactorization);
    case Kind::DOMAIN_ERROR: return typeid(std::domain_error);
    case Kind::RANGE: return typeid(std::range_error);
    case Kind::OUT_OF_RANGE: return typeid(std::out_of_range);
    case Kind::INVALID: return typeid(std::invalid_argument);
    case Kind::OVERFLOW_ERROR: return typeid(std::overflow_error);
    case Kind::UNDERFLOW: return typeid(std::underflow_error);
    case Kind::LENGTH: return typeid(std::length_error);
    case Kind::LOGIC: return typeid(std::logic_error);
    case Kind::FUNCTION: return typeid(std::bad_function_call);
    case Kind::OPTIONAL: return typeid(std::bad_optional_access);
    case Kind::VARIANT: return typeid(std::bad_variant_access);
    case Kind::EXCEPTION: return typeid(Plain);
    case Kind::FAILURE: return typeid(std::ios_base::failure);
    default: return typeid(void);
  }
}
// Runs f, which must leave with exactly that exception.
template <typename F>
bool Leaves(const Kind k, const long id, F&& f, std::string& why) {
  try {
    f();
    why = "nothing was thrown";
    return false;
  } catch (const Boom& b) {
    why = "Boom";
    return k == Kind::CLASS && b.id == id;
  } catch (const Odd& o) {
    why = "Odd";
    return k == Kind::RUNTIME && o.id == id;
  } catch (const long& i) {
    why = "a number";
    return k == Kind::INT && i == id;
  } catch (const assert::default_error& e) {
    why = e.what();
    return k == Kind::ASSERT && why == "user " + std::to_string(id);
  } catch (const std::bad_alloc& e) {
    why = e.what();
    return k == Kind::ALLOC;
  } catch (const std::exception& e) {
    why = std::string(typeid(e).name()) + " " + e.what();
    return typeid(e) == Type(k);
  } catch (...) {
    why = "something else";
    return false;
  }
}

struct Result {
  std::optional<NLSSolverOutputs> out;
  VectorXd x;
  bool threw{false};
};
bool Same(const Result& a, const Result& b) { return a.threw == b.threw && a.out.has_value() == b.out.has_value() && (!a.out || nls::Same(*a.out, *b.out)) && ref::BitEqual(a.x, b.x); }

// A solver whose user code throws at its call number `at`. Calls of functions, of the operator and of the callback count.
struct Faulty : nls::Probe {
  Solver solver;
  long calls{0}, at{-1};
  Kind kind{Kind::INT};
  std::string where;
  std::vector<VectorXd> after;  // variables at each callback
  bool at_callback{false};
  explicit Faulty(const Problem* p) : solver(p, [this](VectorXd& x, ConstVectorBlock dx, double alpha) {
      x += dx * (0.5 * alpha);
      Event("operator");
      x += dx * (alpha - 0.5 * alpha);
    }) {
    solver.SetUserExitCallback([this](const NLSIteration&) {
      after.push_back(solver.variables());
      at_callback = calls == at;
      Event("callback");
      return true;
    });
  }
  void call(int, const VectorXd&, bool jacobian) override { Event(jacobian ? "function with derivative" : "function"); }
  void Event(const char* what) {
    if (calls++ == at) {
      where = what;
      Throw(kind, at);
    }
  }
  Result Go(const Params& p, const VectorXd& x0) {
    calls = 0;
    after.clear();
    at_callback = false;
    nls::probe = this;
    Result r;
    try {
      r.out.emplace(solver.Solve(p, x0));
    } catch (const assert::default_error&) {
      r.threw = true;
    } catch (const FailedFactorization&) {
      r.threw = true;
    } catch (...) {
      nls::probe = nullptr;
      throw;
    }
    nls::probe = nullptr;
    r.x = solver.variables();
    return r;
  }
};

nls::Spec GenSpec(pbt::Case& c) {
  nls::Opts o;
  o.n_usual = 3;
  o.n_large = 8;
  o.nonlinear = c.src.boolean() ? 1.0 : 5.0;
  o.undefined = c.src.chance(1, 6);
  return nls::Make(c.src, o);
}

void UserCode(pbt::Case& c) {
  const nls::Spec spec = GenSpec(c);
  const Params p = nls::NLSParams(c.src, 6);
  const Problem problem = spec.Build();
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p); });
  if (!nls::FiniteAt(spec, spec.x0)) c.discard("cost not finite at the start");
  Faulty fresh(&problem);
  const Result want = fresh.Go(p, spec.x0);
  const long total = fresh.calls;
  const std::vector<VectorXd> after = fresh.after;
  c.require(total > 0, "the user functions were never called");
  Faulty s(&problem);
  const int n = c.src.integer(1, 4);
  bool late = false;
  for (int k = 0; k < n; ++k) {
    s.kind = static_cast<Kind>(c.src.draw(static_cast<uint64_t>(Kind::COUNT) - 1));
    s.at = c.src.boolean() ? total - 1 - static_cast<long>(c.src.draw(static_cast<uint64_t>(total) - 1)) : static_cast<long>(c.src.draw(static_cast<uint64_t>(total) - 1));
    std::string why;
    c.describe([&](auto& os) { os << "throw kind " << static_cast<int>(s.kind) << " at call " << s.at << " of " << total << "\n"; });
    const bool ok = Leaves(s.kind, s.at, [&] {
      // Go() swallows assertion errors: call the solver directly.
      s.calls = 0;
      s.after.clear();
      s.at_callback = false;
      nls::probe = &s;
      try {
        (void)s.solver.Solve(p, spec.x0);
      } catch (...) {
        nls::probe = nullptr;
        throw;
      }
      nls::probe = nullptr;
    }, why);
    c.require(ok, [&] { return "an exception thrown by the " + s.where + " did not reach the caller, but: " + why; });
    c.require(s.calls == s.at + 1, [&] { return pbt::str("user code was called ", s.calls - s.at - 1, " more times after the ", s.where, " had thrown"); });
    // Completed iterations are kept, the interrupted one has no effect.
    const VectorXd& want_x = s.after.empty() ? spec.x0 : s.after.back();
    c.require(ref::BitEqual(s.solver.variables(), want_x), [&] {
      return pbt::str("after an exception from the ", s.where, " in iteration ", s.after.size(), " the variables are ", gen::Fmt(s.solver.variables().transpose()), ", the last completed iteration had ",
                      gen::Fmt(want_x.transpose()));
    });
    for (std::size_t i = 0; i < s.after.size(); ++i) c.require(i < after.size() && ref::BitEqual(s.after[i], after[i]), "iterations before the exception differ from the undisturbed run");
    if (!s.after.empty() && !s.at_callback) late = true;
    c.label(s.where);
  }
  s.at = -1;
  const Result again = s.Go(p, spec.x0);
  c.require(Same(again, want), "a solver interrupted by an exception solves differently afterwards");
  if (late) c.label("later iteration");
  c.nontrivial();
}

// Runs f with allocation number `at` failing (-1: none), says whether std::bad_alloc left it.
// With tracing, the record of a scope may be what no memory is left for: it is dropped and the run goes on.
#ifdef C27_TRACED
constexpr bool kTraced = true;
#else
constexpr bool kTraced = false;
#endif
enum class End { NORMAL, BAD_ALLOC, OTHER };
template <typename F>
End WithHeap(const long at, F&& f) {
  heap.count = 0;
  heap.fail_at = at;
  heap.failed = false;
  End e = End::NORMAL;
  heap.armed = true;
  try {
    f();
  } catch (const std::bad_alloc&) {
    e = End::BAD_ALLOC;
  } catch (...) {
    e = End::OTHER;
  }
  heap.armed = false;
  return e;
}

void NoMemoryNLS(pbt::Case& c) {
  const nls::Spec spec = GenSpec(c);
  const Params p = nls::NLSParams(c.src, 4);
  const Problem problem = spec.Build();
  c.describe([&](auto& os) { nls::Describe(os, spec), nls::Describe(os, p); });
  if (!nls::FiniteAt(spec, spec.x0)) c.discard("cost not finite at the start");
  const bool used = c.src.boolean();  // the solver has solved before
  auto run = [&](Solver& s, std::optional<NLSSolverOutputs>& out) { out.emplace(s.Solve(p, spec.x0)); };
  Solver plain(&problem);
  std::optional<NLSSolverOutputs> want;
  if (used) (void)WithHeap(-1, [&] { run(plain, want); });
  const End normal = WithHeap(-1, [&] { run(plain, want); });
  const long total = heap.count;
  c.require(total > 0, "a solver that allocates nothing");
  const int n = c.src.integer(1, 3);
  for (int k = 0; k < n; ++k) {
    const long at = c.src.boolean() ? total - 1 - static_cast<long>(c.src.draw(static_cast<uint64_t>(total) - 1)) : static_cast<long>(c.src.draw(static_cast<uint64_t>(total) - 1));
    c.describe([&](auto& os) { os << "allocation " << at << " of " << total << " fails\n"; });
    End e = End::NORMAL;
    long leaked = 0;
    bool same = true, failed = false;
    for (int rep = 0; rep < 2; ++rep) {  // twice: what is kept once is a cache, not a leak
      const long live = heap.live;
      {
      Solver s(&problem);
      std::optional<NLSSolverOutputs> out;
      if (used) (void)WithHeap(-1, [&] { run(s, out); });
      out.reset();
      e = WithHeap(at, [&] { run(s, out); });
      failed = heap.failed;
      out.reset();
      const End again = WithHeap(-1, [&] { run(s, out); });
      same = same && again == normal && (normal != End::NORMAL || (nls::Same(*out, *want) && ref::BitEqual(s.variables(), plain.variables())));
      }
      leaked = heap.live - live;
    }
    // A run that throws by itself may do so with the reserve the C++ runtime keeps for exceptions.
    if (failed) c.require(e == End::BAD_ALLOC || (e == End::OTHER && normal == End::OTHER) || (kTraced && e == normal), [&] { return pbt::str("allocation ", at, " failed, but the run ended ", e == End::NORMAL ? "as if nothing had happened" : "with another exception"); });
    c.require(same, [&] { return pbt::str("after allocation ", at, " had failed the solver gives another result"); });
    c.require(leaked == 0 || kTraced, [&] { return pbt::str(leaked, " blocks of memory are lost after allocation ", at, " had failed"); });
    if (failed && at > 0) c.nontrivial();
    c.label(normal == End::NORMAL ? "normal" : "run that throws by itself");
  }
}

void NoMemoryQP(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 5;
  o.n_large = 10;
  const gen::QPCase q = gen::MakeQP(c.src, o);
  const QPInteriorPointSolver::Params p = gen::QPParams(c.src, 6);
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  if (p.initial_guess_method == InitialGuessMethod::USER_PROVIDED) c.discard("user start");
  const bool ns = q.K() > 0 && q.M() == 0 && c.src.boolean();
  const bool used = c.src.boolean();
  struct State {
    QPInteriorPointSolver ip;
    QPNullSpaceSolver ns;
    std::optional<QPInteriorPointSolverOutputs> out;
    std::optional<QPNullSpaceTerminationState> term;
  };
  auto run = [&](State& s) {
    if (ns) {
      s.term = s.ns.Solve(q.qp);
    } else {
      s.ip.Setup(&q.qp);
      s.out.emplace(s.ip.Solve(p));
    }
  };
  State plain;
  if (used) (void)WithHeap(-1, [&] { run(plain); });
  const End normal = WithHeap(-1, [&] { run(plain); });
  const long total = heap.count;
  if (total == 0) c.discard("no allocations");
  const long at = static_cast<long>(c.src.draw(static_cast<uint64_t>(total) - 1));
  c.describe([&](auto& os) { os << "allocation " << at << " of " << total << " fails\n"; });
  long leaked = 0;
  End e = End::NORMAL;
  bool same = true, failed = false;
  for (int rep = 0; rep < 2; ++rep) {
    const long live = heap.live;
    {
    State s;
    if (used) (void)WithHeap(-1, [&] { run(s); });
    e = WithHeap(at, [&] { run(s); });
    failed = heap.failed;
    const End again = WithHeap(-1, [&] { run(s); });
    same = same && again == normal;
    if (same && normal == End::NORMAL) {
      if (ns) {
        same = s.term == plain.term && ref::BitEqual(s.ns.variables(), plain.ns.variables());
      } else {
        same = s.out->termination_state == plain.out->termination_state && s.out->iterations.size() == plain.out->iterations.size() && ref::BitEqual(s.ip.variables(), plain.ip.variables());
      }
    }
    }
    leaked = heap.live - live;
  }
  if (failed) c.require(e == End::BAD_ALLOC || (e == End::OTHER && normal == End::OTHER) || (kTraced && e == normal), [&] { return pbt::str("allocation ", at, " failed, but the run ended ", e == End::NORMAL ? "as if nothing had happened" : "with another exception"); });
  c.require(same, [&] { return pbt::str("after allocation ", at, " had failed the solver gives another result"); });
  c.require(leaked == 0 || kTraced, [&] { return pbt::str(leaked, " blocks of memory are lost after allocation ", at, " had failed"); });
  c.label(ns ? "null space" : "interior point");
  if (failed) c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C27";
  p.rule =
      "random problems in which a random call of a user function, the update operator or the exit callback throws (nineteen types of exceptions), or a "
      "random allocation of the solver fails; the run must end with that exception, the completed iterations be kept, no memory be lost and the same "
      "solver then solve like a new one. Non-trivial: an exception was thrown, an allocation failed";
  p.assumptions = {"without tracing (one set of facets is run with it)", "one allocation fails at a time"};
#ifdef C27_TRACED
  p.facets = {
      {"memory-nls_traced", NoMemoryNLS, 20000, 1000000, 0.3},
      {"memory-qp_traced", NoMemoryQP, 40000, 1500000, 0.5},
      {"user-code_traced", UserCode, 30000, 1000000, 0.3},
  };
  return p;
#endif
  p.facets = {
      {"user-code", UserCode, 200000, 8000000, 0.3},
      {"memory-nls", NoMemoryNLS, 100000, 4000000, 0.3},
      {"memory-qp", NoMemoryQP, 200000, 8000000, 0.5},
  };
  return p;
}
