// build: bare plain
// C29: an assertion that holds does nothing, one that fails throws an error that says what failed, where and why.
#include <fmt/core.h>

#include <limits>
#include <string>

#include "engine.hpp"
#include "mini_opt/assertions.hpp"

namespace {

enum class Op { EQ, NE, LT, GT, LE, GE };
const char* Text(Op o) {
  static const char* t[] = {"==", "!=", "<", ">", "<=", ">="};
  return t[static_cast<int>(o)];
}
template <typename A, typename B>
bool Holds(Op o, const A& a, const B& b) {
  switch (o) {
    case Op::EQ: return a == b;
    case Op::NE: return a != b;
    case Op::LT: return a < b;
    case Op::GT: return a > b;
    case Op::LE: return a <= b;
    default: return a >= b;
  }
}

struct Thrown {
  bool threw{false};
  std::string what;
  int line{0};
};

// The name of the operands as the assertion sees them is part of what is checked.
template <typename A, typename B, typename... R>
void Assert(Op o, A&& left_operand, B&& right_operand, int& line, R&&... reason) {
  switch (o) {
    case Op::EQ: line = __LINE__; F_ASSERT_EQ(left_operand, right_operand, reason...); break;
    case Op::NE: line = __LINE__; F_ASSERT_NE(left_operand, right_operand, reason...); break;
    case Op::LT: line = __LINE__; F_ASSERT_LT(left_operand, right_operand, reason...); break;
    case Op::GT: line = __LINE__; F_ASSERT_GT(left_operand, right_operand, reason...); break;
    case Op::LE: line = __LINE__; F_ASSERT_LE(left_operand, right_operand, reason...); break;
    case Op::GE: line = __LINE__; F_ASSERT_GE(left_operand, right_operand, reason...); break;
  }
}

template <typename F>
Thrown Run(pbt::Case& c, F&& f) {
  Thrown t;
  try {
    f(t.line);
  } catch (const assert::default_error& e) {
    t.threw = true;
    t.what = e.what();
    const assert::default_error copy(e);
    c.require(t.what == copy.what(), "copying the error changes its message");
    const std::exception& base = e;
    c.require(t.what == base.what(), "the message depends on the type it is caught as");
  } catch (const std::exception& e) {
    c.fail(std::string("an assertion threw something else: ") + e.what());
  }
  return t;
}
void Has(pbt::Case& c, const Thrown& t, const std::string& part) {
  c.require(t.what.find(part) != std::string::npos, [&] { return "the message lacks \"" + part + "\": " + t.what; });
}
void Place(pbt::Case& c, const Thrown& t) {
  Has(c, t, "p_C29.cc");
  Has(c, t, std::to_string(t.line));
}

double Number(pbt::Source& s) {
  static const std::vector<double> v = {0.0, -0.0, 1.0, 1e-9, 0.1, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 5e-324, 1e300};
  return s.boolean() ? s.pick(v) : s.real(-100, 100);
}
// Includes text that would be a format string.
std::string Word(pbt::Source& s) {
  static const std::vector<std::string> v = {"", "a", "b", "two words", "{}", "{0}", "%s", "{", "}}", "\xc2\xb5", "line\nbreak"};
  if (s.chance(1, 16)) return std::string(s.draw(20000), 'x') + s.pick(v);
  return s.pick(v);
}

template <typename A, typename B>
void Compare(pbt::Case& c, Op o, const A& a, const B& b) {
  const bool want = Holds(o, a, b);
  c.describe([&](auto& os) { os << "assert " << fmt::format("{} {} {}", a, Text(o), b) << "\n"; });
  const int form = c.src.integer(0, 2);
  const std::string w = Word(c.src);
  const int i = c.src.integer(-1000, 1000);
  const double d = Number(c.src);
  const Thrown t = Run(c, [&](int& line) {
    if (form == 0) Assert(o, a, b, line);
    else if (form == 1) Assert(o, a, b, line, "plain reason");
    else Assert(o, a, b, line, "reason with {} and {}, {:.3f}", w, i, d);
  });
  c.require(t.threw == !want, [&] { return want ? "an assertion that holds threw: " + t.what : std::string("an assertion that does not hold passed"); });
  c.label(want ? "holds" : "fails");
  if (want) return;
  Place(c, t);
  Has(c, t, Text(o));
  Has(c, t, "left_operand");
  Has(c, t, "right_operand");
  Has(c, t, fmt::format("`left_operand` = {}", a));
  Has(c, t, fmt::format("`right_operand` = {}", b));
  if (form == 1) Has(c, t, "plain reason");
  if (form == 2) Has(c, t, fmt::format("reason with {} and {}, {:.3f}", w, i, d));
  c.nontrivial();
}

void Comparisons(pbt::Case& c) {
  const Op o = static_cast<Op>(c.src.draw(5));
  switch (c.src.draw(3)) {
    case 0: {
      const int a = c.src.integer(-3, 3), b = c.src.boolean() ? a : c.src.integer(-3, 3);
      return Compare(c, o, a, b);
    }
    case 1: {
      const double a = Number(c.src), b = c.src.chance(1, 3) ? a : Number(c.src);
      return Compare(c, o, a, b);
    }
    case 2: {
      const std::string a = Word(c.src), b = c.src.boolean() ? a : Word(c.src);
      return Compare(c, o, a, b);
    }
    default: {
      const long a = static_cast<long>(c.src.draw(1ull << 40)), b = c.src.boolean() ? a : static_cast<long>(c.src.draw(1ull << 40));
      return Compare(c, o, a, b);
    }
  }
}

void Conditions(pbt::Case& c) {
  const bool some_condition = c.src.boolean();
  const bool always = c.src.chance(1, 4);
  const int form = c.src.integer(0, 2);
  const std::string w = Word(c.src);
  const double d = Number(c.src);
  const Thrown t = Run(c, [&](int& line) {
    if (always) {
      if (form <= 1) { line = __LINE__; F_ASSERT_ALWAYS("plain reason"); }
      line = __LINE__; F_ASSERT_ALWAYS("reason {} {}", w, d);
    } else {
      if (form == 0) { line = __LINE__; F_ASSERT(some_condition); }
      else if (form == 1) { line = __LINE__; F_ASSERT(some_condition, "plain reason"); }
      else { line = __LINE__; F_ASSERT(some_condition, "reason {} {}", w, d); }
    }
  });
  c.describe([&](auto& os) { os << (always ? "always" : some_condition ? "true" : "false") << " form " << form << "\n"; });
  const bool want = !always && some_condition;
  c.require(t.threw == !want, [&] { return want ? "an assertion that holds threw: " + t.what : std::string("an assertion that does not hold passed"); });
  if (!want) {
    Place(c, t);
    if (!always) Has(c, t, "some_condition");
    if (form == 1) Has(c, t, "plain reason");
    if (form == 2) Has(c, t, fmt::format("reason {} {}", w, d));
    c.nontrivial();
  }
}

// Used as a statement, operands are evaluated once if the assertion holds, the reason is not.
void Effects(pbt::Case& c) {
  const int a = c.src.integer(-2, 2), b = c.src.integer(-2, 2);
  const Op o = static_cast<Op>(c.src.draw(5));
  int left = 0, right = 0, reason = 0, else_taken = 0;
  auto l = [&] { return ++left, a; };
  auto r = [&] { return ++right, b; };
  auto why = [&] { return ++reason, 7; };
  const bool want = Holds(o, a, b);
  const bool branch = c.src.boolean();
  const Thrown t = Run(c, [&](int&) {
    if (branch)
      switch (o) {
        case Op::EQ: F_ASSERT_EQ(l(), r(), "{}", why()); break;
        case Op::NE: F_ASSERT_NE(l(), r(), "{}", why()); break;
        case Op::LT: F_ASSERT_LT(l(), r(), "{}", why()); break;
        case Op::GT: F_ASSERT_GT(l(), r(), "{}", why()); break;
        case Op::LE: F_ASSERT_LE(l(), r(), "{}", why()); break;
        case Op::GE: F_ASSERT_GE(l(), r(), "{}", why()); break;
      }
    else
      ++else_taken;
    // Expressions of low precedence and without braces around the statement.
    if (!branch)
      F_ASSERT(a < b || a >= b, "{}", why());
    else
      ++else_taken;
  });
  c.describe([&](auto& os) { os << a << " " << Text(o) << " " << b << ", branch " << branch << "\n"; });
  if (branch) {
    c.require(t.threw == !want, "wrong verdict");
    c.require(left >= 1 && right >= 1, "an operand was not evaluated");
    if (want) c.require(left == 1 && right == 1 && reason == 0 && else_taken == 1, "an assertion that holds evaluated an operand twice or its reason");
  } else {
    c.require(!t.threw && else_taken == 1 && left == 0 && right == 0 && reason == 0, "a skipped assertion was evaluated");
  }
  c.nontrivial();
}

struct Pair {
  int first, second;
};

// Conditions whose text looks like a format string or contains quotes, commas and line breaks.
void Texts(pbt::Case& c) {
  const int x = c.src.integer(-3, 3), y = c.src.integer(-3, 3);
  const std::string w = Word(c.src);
  const int k = c.src.integer(0, 9);
  bool want = false;
  std::string text, left, right;
  const Thrown t = Run(c, [&](int& line) {
    switch (k) {
      case 0: want = x == y; text = "(Pair{x, 0}.first)"; left = fmt::format("= {}", x); right = fmt::format("= {}", y); line = __LINE__; F_ASSERT_EQ((Pair{x, 0}.first), y); break;
      case 1: want = x < y; text = "(Pair{0, x}.second)"; left = fmt::format("= {}", x); right = fmt::format("`y` = {}", y); line = __LINE__; F_ASSERT_LT((Pair{0, x}.second), y, "{} {}", w, x); break;
      case 2: want = w == "{}"; text = "w == \"{}\""; line = __LINE__; F_ASSERT(w == "{}"); break;
      case 3: want = w != "{0}"; text = "\"{0}\""; left = "= {0}"; line = __LINE__; F_ASSERT_NE(w, "{0}", "{}", x); break;
      case 4: want = w == "%s"; text = "\"%s\""; left = "= " + w; right = "= %s"; line = __LINE__; F_ASSERT_EQ(w, "%s"); break;
      case 5: want = x == y; text = "[&] { return x; }() == y"; line = __LINE__; F_ASSERT([&] { return x; }() == y, "{}", w); break;
      case 6: want = x >= y; text = "'}'"; left = fmt::format("= {}", x + '}'); right = fmt::format("= {}", y + '}'); line = __LINE__; F_ASSERT_GE(x + '}', y + '}'); break;
      case 7: want = x > y; text = "std::max<int>(x, x)"; left = fmt::format("= {}", x); right = fmt::format("`y` = {}", y); line = __LINE__; F_ASSERT_GT((std::max<int>(x, x)), y, "{{}} {}", w); break;
      case 8: want = x <= y; text = "\"a\\n{b}\""; left = fmt::format("= {}", x); right = fmt::format("= {}", y); line = __LINE__; F_ASSERT_LE(("a\n{b}", x), ("{", y)); break;
      default: want = x != y; text = "x"; left = fmt::format("`x` = {}", x); right = fmt::format("`y` = {}", y); line = __LINE__; F_ASSERT_NE(x, y, "x is {}, {:>5}|", x, y); break;
    }
  });
  c.describe([&](auto& os) { os << "site " << k << " x=" << x << " y=" << y << " w=" << w << "\n"; });
  c.require(t.threw == !want, [&] { return want ? "an assertion that holds threw: " + t.what : std::string("an assertion that does not hold passed"); });
  if (want) return;
  Place(c, t);
  Has(c, t, text);
  Has(c, t, left);
  Has(c, t, right);
  if (k == 1) Has(c, t, fmt::format("{} {}", w, x));
  if (k == 5) Has(c, t, w);
  if (k == 7) Has(c, t, fmt::format("{{}} {}", w));
  if (k == 9) Has(c, t, fmt::format("x is {}, {:>5}|", x, y));
  c.nontrivial();
}

}  // namespace

pbt::Property pbt::make_property() {
  Property p;
  p.id = "C29";
  p.rule =
      "every assertion macro with generated operands (integers, reals with NaN and infinities, strings that look like format strings), with and without "
      "reasons and arguments; verdict and message compared with the values. Non-trivial: the assertion fails, or its effects are counted";
  p.assumptions = {};
  p.facets = {
      {"comparisons", Comparisons, 400000, 20000000},
      {"texts", Texts, 200000, 10000000},
      {"conditions", Conditions, 200000, 10000000},
      {"effects", Effects, 200000, 10000000},
  };
  return p;
}
