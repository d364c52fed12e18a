// build: nls plain
// C30: results do not depend on what fresh memory and the stack happen to contain.
#include <cerrno>
#include <cstring>

#include "p_C30.hpp"

namespace {
int fill = -1;  // byte that fresh memory is filled with
}

extern "C" {
void* __libc_malloc(size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);

static void* Filled(void* p, size_t n) {
  if (p && fill >= 0) std::memset(p, fill, n);
  return p;
}
void* malloc(size_t n) { return Filled(__libc_malloc(n), n); }
void* memalign(size_t a, size_t n) { return Filled(__libc_memalign(a, n), n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) {
  void* p = memalign(a, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
}

namespace {

using namespace c30;

__attribute__((noinline)) void Scribble(int byte) {
  char b[100000];
  std::memset(b, byte, sizeof b);
  asm volatile("" : : "r"(b) : "memory");
}

struct Fill {
  explicit Fill(int b) {
    fill = b;
    Scribble(b);
  }
  ~Fill() { fill = -1; }
};

const std::vector<int>& Bytes() {
  static const std::vector<int> v = {0xff, 0x00, 0x3f, 0xc3};  // NaN, 0, 4.8e-4, -2.8e18
  return v;
}

template <typename F>
void Compare(pbt::Case& c, F&& f) {
  std::string first;
  for (const int b : Bytes()) {
    std::string r;
    {
      Fill on(b);
      r = f();
    }
    if (b == Bytes().front()) {
      first = r;
      continue;
    }
    c.require(r == first, [&] {
      std::size_t i = 0;
      while (i < r.size() && i < first.size() && r[i] == first[i]) ++i;
      const std::size_t from = i < 60 ? 0 : i - 60;
      return pbt::str("the result depends on the contents of uninitialized memory: filled with 0xff: ...", first.substr(from, 120), "; with ", b, ": ...", r.substr(from, 120));
    });
  }
}

void QPs(pbt::Case& c) {
  gen::QPOpts o;
  o.n_usual = 5;
  o.n_large = 16;
  const gen::QPCase q = gen::MakeQP(c.src, o);
  QPInteriorPointSolver::Params p = gen::QPParams(c.src, 6);
  const bool user = p.initial_guess_method == InitialGuessMethod::USER_PROVIDED;
  c.describe([&](auto& os) { gen::Describe(os, q.qp), gen::Describe(os, p); });
  Compare(c, [&] { return QPRuns(c, q, p, user); });
  if (q.M() > 0 || q.K() > 0) c.nontrivial();
}

void NLS(pbt::Case& c) {
  const NLSInput in = MakeNLS(c);
  Compare(c, [&] { return NLSRuns(in.spec, in.p, in.color, in.verbose); });
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C30";
  p.rule = "the same runs with fresh memory and the stack filled with different bytes, compared bit by bit";
  p.facets = {
      {"qp_fill", QPs, 40000, 2000000},
      {"nls_fill", NLS, 10000, 600000},
  };
  return p;
}
