// C21: the test macros.  Oracle: an independent decision whether the tested condition holds; the failure and skip counts and both
// streams are observed around each use.
#include "mon.hpp"
#include <climits>
#include <cmath>
#include <limits>
#include <memory>
#include <cstdlib>
#include <iostream>
#include "metaprogramming.hpp"
using Helper::Same; using Helper::First;
template<class T> std::string class_name() { return typeid(T).name(); }
template<class A, class B> struct IsEquivalent { static const bool value = sizeof(A) == sizeof(B); };
#include "test.hpp"

using mon::Rng;
bool has(std::string const& s, std::string const& t) { return s.find(t) != std::string::npos; }
struct Oops { int n; };
struct Custom : std::runtime_error { using std::runtime_error::runtime_error; };
struct Deep : Custom { using Custom::Custom; };

// ------------------------------------------------------------------ observation
struct Seen { int failures = 0, skips = 0, arrived = 0; std::string out, err; int how = 0; };
template<class F> Seen observe(F f) {
    Seen s; int a = HELPER_TEST_FAILURES, b = HELPER_TEST_SKIPPED; std::ostringstream out, err; std::streambuf *o = std::cout.rdbuf(out.rdbuf()), *r = std::cerr.rdbuf(err.rdbuf());
    try { f(s.arrived); } catch (Oops const&) { s.how = 1; } catch (std::exception const&) { s.how = 2; } catch (...) { s.how = 3; }
    std::cout.rdbuf(o); std::cerr.rdbuf(r); mon::Untracked u; s.failures = HELPER_TEST_FAILURES - a; s.skips = HELPER_TEST_SKIPPED - b; s.out = out.str(); s.err = err.str(); return s;
}
// One use of a macro which is to count `failures`
void verdict(Seen const& s, int failures, char const* macro, std::string const& operands, int skips = 0) {
    std::string at = std::string(macro) + " of " + operands + ": "; mon::event(failures ? "failing tests" : "passing tests"); mon::log("%s(%s): %d", macro, operands.c_str(), failures);
    MON_CHECK(s.failures == failures, std::string(failures ? "missed/" : "false/") + macro, at << s.failures << " failures are counted instead of " << failures); MON_CHECK(s.skips == skips, std::string("skips/") + macro, at << s.skips << " skips are counted instead of " << skips);
    MON_CHECK(s.how == 0 && s.arrived == 1, std::string("stops/") + macro, at << "the tests which follow are not executed"); MON_CHECK(!s.out.empty(), std::string("silent/") + macro, at << "nothing is written to the output stream");
    if (failures) { MON_CHECK(has(s.err, "ERROR") && has(s.err, __FILE__), std::string("unreported/") + macro, at << "the failure is not reported with its file on the error stream: " << s.err); MON_CHECK(has(s.out, "ERROR") || has(s.out, "exception"), std::string("unreported/") + macro, at << "the failure is not reported on the output stream: " << s.out); }
    else { MON_CHECK(s.err.find("ERROR") == std::string::npos, std::string("false-report/") + macro, at << "an error is reported: " << s.err); MON_CHECK(s.out.find("ERROR") == std::string::npos, std::string("false-report/") + macro, at << "an error is reported on the output stream: " << s.out); }
}
template<class T> std::string text(T const& t) { std::ostringstream s; s.precision(20); s << t; return s.str(); }
template<class A, class B> std::string text(A const& a, B const& b) { return text(a) + " and " + text(b); }

// ------------------------------------------------------------------ operand types
template<class T> T some(Rng& r);
template<> int some(Rng& r) { return r.chance(1, 8) ? (r.chance(1, 2) ? INT_MIN : INT_MAX) : static_cast<int>(r.range(-3, 3)); }
template<> long some(Rng& r) { return r.chance(1, 8) ? (1l << 40) * r.range(-1, 1) : r.range(-3, 3); }
template<> unsigned char some(Rng& r) { return static_cast<unsigned char>("abc"[r.below(3)]); }
template<> bool some(Rng& r) { return r.chance(1, 2); }
template<> double some(Rng& r) { switch (r.below(8)) { case 0: return std::numeric_limits<double>::quiet_NaN(); case 1: return std::numeric_limits<double>::infinity(); case 2: return -0.0; case 3: return 1 + std::numeric_limits<double>::epsilon() * static_cast<double>(r.below(2)); default: return static_cast<double>(r.range(-3, 3)) / 2; } }
template<> float some(Rng& r) { return static_cast<float>(r.range(-3, 3)) / 2; }
template<> std::string some(Rng& r) { std::string s; for (int n = static_cast<int>(r.below(3)); n > 0; --n) s += "ab"[r.below(2)]; return s; }
struct Odd { int v; Odd(Odd const&) = default; explicit Odd(int x) : v(x) {} bool operator==(Odd const& o) const { return v % 2 == o.v % 2; } bool operator!=(Odd const& o) const { return v != o.v; } bool operator<(Odd const& o) const { return v > o.v; } bool operator<=(Odd const& o) const { return v * 2 <= o.v; } bool operator>(Odd const& o) const { return v > o.v + 1; } bool operator>=(Odd const&) const { return false; } friend std::ostream& operator<<(std::ostream& os, Odd const& o) { return os << "odd" << o.v; } };
template<> Odd some(Rng& r) { return Odd(static_cast<int>(r.range(0, 4))); }
template<class T> T abs_(T t) { return t < 0 ? -t : t; }
bool same(int a, int b) { return a == b; } bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; } bool same(std::string const& a, std::string const& b) { return a.size() == b.size(); } bool same(Odd const& a, Odd const& b) { return a.v == b.v; }

template<class T, class U = T> void compare(Rng& r) {
    T const x = some<T>(r); U const y = some<U>(r); std::string o = text(x, y) + " of type " + typeid(T).name();
    bool const eq = x == y, ne = x != y, lt = x < y, le = x <= y, gt = x > y, ge = x >= y;
    verdict(observe([&](int& n) { HELPER_TEST_EQUAL(x, y); ++n; }), !eq, "HELPER_TEST_EQUAL", o); verdict(observe([&](int& n) { HELPER_TEST_EQUALS(x, y); ++n; }), !eq, "HELPER_TEST_EQUALS", o); verdict(observe([&](int& n) { HELPER_TEST_NOT_EQUAL(x, y); ++n; }), eq, "HELPER_TEST_NOT_EQUAL", o);
    verdict(observe([&](int& n) { HELPER_TEST_CHECK(x, y); ++n; }), !eq, "HELPER_TEST_CHECK", o); verdict(observe([&](int& n) { HELPER_TEST_LESS(x, y); ++n; }), !lt, "HELPER_TEST_LESS", o); verdict(observe([&](int& n) { HELPER_TEST_ASSERT(x == y); ++n; }), !eq, "HELPER_TEST_ASSERT", o + " with ==");
    verdict(observe([&](int& n) { HELPER_TEST_COMPARE(x, ==, y); ++n; }), !eq, "HELPER_TEST_COMPARE", o + " with =="); verdict(observe([&](int& n) { HELPER_TEST_COMPARE(x, !=, y); ++n; }), !ne, "HELPER_TEST_COMPARE", o + " with !="); verdict(observe([&](int& n) { HELPER_TEST_COMPARE(x, <, y); ++n; }), !lt, "HELPER_TEST_COMPARE", o + " with <"); verdict(observe([&](int& n) { HELPER_TEST_COMPARE(x, <=, y); ++n; }), !le, "HELPER_TEST_COMPARE", o + " with <="); verdict(observe([&](int& n) { HELPER_TEST_COMPARE(x, >, y); ++n; }), !gt, "HELPER_TEST_COMPARE", o + " with >"); verdict(observe([&](int& n) { HELPER_TEST_COMPARE(x, >=, y); ++n; }), !ge, "HELPER_TEST_COMPARE", o + " with >=");
    verdict(observe([&](int& n) { HELPER_TEST_RESULT_COMPARE(T, x, <, y); ++n; }), !lt, "HELPER_TEST_RESULT_COMPARE", o + " with <"); verdict(observe([&](int& n) { HELPER_TEST_RESULT_COMPARE(T, x, >=, y); ++n; }), !ge, "HELPER_TEST_RESULT_COMPARE", o + " with >="); verdict(observe([&](int& n) { HELPER_TEST_RESULT_COMPARE(T, x, ==, y); ++n; }), !eq, "HELPER_TEST_RESULT_COMPARE", o + " with ==");
    { Seen s = observe([&](int& n) { HELPER_TEST_CHECK_WARN(x, y); ++n; }); verdict(s, 0, "HELPER_TEST_CHECK_WARN", o); MON_CHECK(has(s.err, "WARNING") == !eq && has(s.out, "WARNING") == !eq, "warning", "HELPER_TEST_CHECK_WARN of " << o << " writes '" << s.out << "' and '" << s.err << "'"); }
    mon::nontrivial();
}
template<class T> void sameness(Rng& r) { T x = some<T>(r), y = some<T>(r); bool eq = same(x, y); verdict(observe([&](int& n) { HELPER_TEST_SAME(x, y); ++n; }), !eq, "HELPER_TEST_SAME", text(x, y)); verdict(observe([&](int& n) { HELPER_TEST_SAME_AS(x, y); ++n; }), !eq, "HELPER_TEST_SAME_AS", text(x, y)); }
MON_SUITE(comparisons, 400, 20000) { compare<int>(rng); compare<long>(rng); compare<int, long>(rng); compare<double>(rng); compare<float, double>(rng); compare<int, double>(rng); compare<unsigned char>(rng); compare<bool>(rng); compare<std::string>(rng); compare<Odd>(rng); sameness<int>(rng); sameness<double>(rng); sameness<std::string>(rng); sameness<Odd>(rng); }
// ------------------------------------------------------------------ operands which are expressions
template<class I> void expressions(Rng& r) {
    I a = static_cast<I>(r.range(-6, 6)), b = static_cast<I>(r.range(-6, 6)), c = static_cast<I>(r.range(-2, 6)); bool p = r.chance(1, 2); std::string o = text(a, b) + ", " + text(c) + ", " + text(p);
#define BOTH(MACRO, X, Y, HOLDS) verdict(observe([&](int& n) { MACRO(X, Y); ++n; }), !(HOLDS), #MACRO, #X " and " #Y " with " + o)
    BOTH(HELPER_TEST_EQUAL, p ? a : b, c, (p ? a : b) == c); BOTH(HELPER_TEST_EQUAL, a & 3, b | 1, (a & 3) == (b | 1)); BOTH(HELPER_TEST_EQUALS, a + b, p ? b : c, (a + b) == (p ? b : c)); BOTH(HELPER_TEST_EQUALS, a < b, b < c, (a < b) == (b < c)); BOTH(HELPER_TEST_NOT_EQUAL, p ? a : b, c, (p ? a : b) != c); BOTH(HELPER_TEST_NOT_EQUAL, a & 3, c & 3, (a & 3) != (c & 3)); BOTH(HELPER_TEST_CHECK, a & 3, c & 3, (a & 3) == (c & 3)); BOTH(HELPER_TEST_CHECK, p ? a : b, c, (p ? a : b) == c); BOTH(HELPER_TEST_LESS, p ? a : b, c, (p ? a : b) < c); BOTH(HELPER_TEST_LESS, a & 3, c & 3, (a & 3) < (c & 3));
    auto is = [&](auto x) { return x == c; }; auto less = [](auto x, auto y) { return x < y; };
    BOTH(HELPER_TEST_UNARY_PREDICATE, is, p ? a : b, is(p ? a : b)); BOTH(HELPER_TEST_UNARY_PREDICATE, is, a & 3, is(a & 3)); verdict(observe([&](int& n) { HELPER_TEST_BINARY_PREDICATE(less, p ? a : b, c & 3); ++n; }), !less(p ? a : b, c & 3), "HELPER_TEST_BINARY_PREDICATE", o); verdict(observe([&](int& n) { HELPER_TEST_BINARY_PREDICATE(less, a, b); ++n; }), !(a < b), "HELPER_TEST_BINARY_PREDICATE", o);
    verdict(observe([&](int& n) { HELPER_TEST_COMPARE(p ? a : b, <, c & 3); ++n; }), !((p ? a : b) < (c & 3)), "HELPER_TEST_COMPARE", o); verdict(observe([&](int& n) { HELPER_TEST_COMPARE(a | 1, !=, p ? b : c); ++n; }), !((a | 1) != (p ? b : c)), "HELPER_TEST_COMPARE", o); verdict(observe([&](int& n) { HELPER_TEST_RESULT_COMPARE(double, p ? a : b, <=, c & 3); ++n; }), !((p ? a : b) <= (c & 3)), "HELPER_TEST_RESULT_COMPARE", o); verdict(observe([&](int& n) { HELPER_TEST_RESULT_COMPARE(int, static_cast<double>(a) / 4, ==, b); ++n; }), !(static_cast<int>(static_cast<double>(a) / 4) == b), "HELPER_TEST_RESULT_COMPARE", o);
    verdict(observe([&](int& n) { HELPER_TEST_ASSERT(a < b || c == 2); ++n; }), !(a < b || c == 2), "HELPER_TEST_ASSERT", o); verdict(observe([&](int& n) { HELPER_TEST_ASSERT(a & 2); ++n; }), !(a & 2), "HELPER_TEST_ASSERT", o); verdict(observe([&](int& n) { HELPER_TEST_ASSERT(p ? a : 0); ++n; }), !(p ? a : 0), "HELPER_TEST_ASSERT", o);
    int* q = p ? reinterpret_cast<int*>(&o) : nullptr; verdict(observe([&](int& n) { HELPER_TEST_ASSERT(q); ++n; }), !p, "HELPER_TEST_ASSERT", "a pointer"); double d = p ? 0.25 : 0.0; verdict(observe([&](int& n) { HELPER_TEST_ASSERT(d); ++n; }), !p, "HELPER_TEST_ASSERT", "0.25 or 0"); std::unique_ptr<int> u = p ? std::make_unique<int>(0) : nullptr; verdict(observe([&](int& n) { HELPER_TEST_ASSERT(u); ++n; }), !p, "HELPER_TEST_ASSERT", "a unique pointer"); long l = p ? 1l << 40 : 0; verdict(observe([&](int& n) { HELPER_TEST_ASSERT(l); ++n; }), !p, "HELPER_TEST_ASSERT", "2^40 or 0");
    // names like the macros' own
    { bool ok = p; verdict(observe([&](int& n) { HELPER_TEST_EQUAL(ok, true); ++n; }), !p, "HELPER_TEST_EQUAL", "a variable named ok"); verdict(observe([&](int& n) { HELPER_TEST_ASSERT(ok); ++n; }), !p, "HELPER_TEST_ASSERT", "a variable named ok"); verdict(observe([&](int& n) { HELPER_TEST_CHECK(ok, true); ++n; }), !p, "HELPER_TEST_CHECK", "a variable named ok"); verdict(observe([&](int& n) { HELPER_TEST_COMPARE(ok, ==, true); ++n; }), !p, "HELPER_TEST_COMPARE", "a variable named ok"); auto yes = [](bool b) { return b; }; verdict(observe([&](int& n) { HELPER_TEST_UNARY_PREDICATE(yes, ok); ++n; }), !p, "HELPER_TEST_UNARY_PREDICATE", "a variable named ok"); verdict(observe([&](int& n) { HELPER_TEST_NOT_EQUAL(ok, false); ++n; }), !p, "HELPER_TEST_NOT_EQUAL", "a variable named ok"); verdict(observe([&](int& n) { HELPER_TEST_EQUALS(ok, true); ++n; }), !p, "HELPER_TEST_EQUALS", "a variable named ok"); }
    { I result = a; verdict(observe([&](int& n) { HELPER_TEST_ASSERT(result); ++n; }), !a, "HELPER_TEST_ASSERT", "a variable named result"); verdict(observe([&](int& n) { HELPER_TEST_RESULT_COMPARE(I, result, ==, b); ++n; }), a != b, "HELPER_TEST_RESULT_COMPARE", "a variable named result"); verdict(observe([&](int& n) { HELPER_TEST_EQUAL(result, b); ++n; }), a != b, "HELPER_TEST_EQUAL", "a variable named result"); I error = b; verdict(observe([&](int& n) { HELPER_TEST_WITHIN(a, error, 1); ++n; }), !(abs_(a - b) <= 1), "HELPER_TEST_WITHIN", "a variable named error"); verdict(observe([&](int& n) { HELPER_TEST_WITHIN(a, b, error); ++n; }), !(abs_(a - b) <= b), "HELPER_TEST_WITHIN", "a tolerance named error"); }
    mon::nontrivial();
}
MON_SUITE(expressions, 250, 12000) { expressions<int>(rng); expressions<long>(rng); }
// ------------------------------------------------------------------ tolerances
struct Vec { double x; friend Vec operator-(Vec a, Vec b) { return {a.x - b.x}; } friend Vec abs(Vec v) { return {v.x < 0 ? -v.x : v.x}; } friend bool operator<=(Vec a, double t) { return a.x <= t; } friend std::ostream& operator<<(std::ostream& os, Vec v) { return os << "v" << v.x; } };
template<class T> void within(Rng& r) {
    T x, y, t; auto num = [&] { return std::is_integral_v<T> ? static_cast<T>(r.range(-20, 20)) : static_cast<T>(r.range(-20, 20)) / static_cast<T>(1u << r.below(8)); }; x = num(); t = r.chance(1, 4) ? T(0) : num() / (r.chance(1, 2) ? T(4) : T(1)); if (r.chance(4, 5)) t = abs_(t);
    switch (r.below(4)) { case 0: y = x + t; break; case 1: y = x - t; break; case 2: y = x + (r.chance(1, 2) ? T(1) : T(-1)) * (t + (std::is_integral_v<T> ? T(1) : static_cast<T>(1e-3))); break; default: y = num(); }
    if constexpr (std::is_floating_point_v<T>) if (r.chance(1, 10)) (r.chance(1, 2) ? x : t) = std::numeric_limits<T>::quiet_NaN(); T d = x - y; bool ok = abs_(d) <= t; std::string o = text(x, y) + " within " + text(t) + " of type " + typeid(T).name();
    verdict(observe([&](int& n) { HELPER_TEST_WITHIN(x, y, t); ++n; }), !ok, "HELPER_TEST_WITHIN", o); if (!std::isnan(static_cast<double>(x)) ) { verdict(observe([&](int& n) { HELPER_TEST_WITHIN(x + 0, y - 1 + 1, t + t - t); ++n; }), !(abs_(x + 0 - (y - 1 + 1)) <= t + t - t), "HELPER_TEST_WITHIN", "sums " + o); bool p = r.chance(1, 2); verdict(observe([&](int& n) { HELPER_TEST_WITHIN(p ? x : y, y, p ? t : t); ++n; }), !(p ? ok : T(0) <= t), "HELPER_TEST_WITHIN", "choices " + o); }
    if constexpr (std::is_same_v<T, double>) { Vec a{x}, b{y}; verdict(observe([&](int& n) { HELPER_TEST_WITHIN(a, b, t); ++n; }), !(abs(Vec{x - y}).x <= t), "HELPER_TEST_WITHIN", "vectors " + o); }
    mon::nontrivial();
}
MON_SUITE(tolerances, 600, 30000) { within<double>(rng); within<float>(rng); within<int>(rng); within<long>(rng); within<long double>(rng); }
// ------------------------------------------------------------------ exceptions
struct Abstract { virtual ~Abstract() = default; virtual int code() const = 0; }; struct Concrete : Abstract { int code() const override { return 3; } }; struct Fixed : std::runtime_error { Fixed() : std::runtime_error("f") {} };
enum Kind { none, custom, deep, runtime, logic, integer, literal, abstract, KIND };
void raise(int k) { switch (k) { case custom: throw Custom("c"); case deep: throw Deep("d"); case runtime: throw std::runtime_error("r"); case logic: throw std::logic_error("l"); case integer: throw 5; case literal: throw "literal"; case abstract: throw Concrete(); default: break; } }
int raise_value(int k, int v) { raise(k); return v; }
struct Built { int v; Built(int k, int x) : v(x) { raise(k); } static Built make(int k, int x) { return Built(k, x); } friend std::ostream& operator<<(std::ostream& os, Built const& b) { return os << "built" << b.v; } };
MON_SUITE(exceptions, 400, 20000) {
    mon::nontrivial(); for (int i = 0; i < 4; ++i) { int k = static_cast<int>(rng.below(KIND)); int v = static_cast<int>(rng.below(50)); std::string o = "exception kind " + std::to_string(k); int ran = 0; bool any = k != none, cust = k == custom || k == deep, run = cust || k == runtime, std_ = run || k == logic;
        verdict(observe([&](int& n) { HELPER_TEST_THROWS(++ran; raise(k), Custom); ++n; }), !cust, "HELPER_TEST_THROWS", "Custom, " + o); verdict(observe([&](int& n) { HELPER_TEST_THROWS(raise(k), std::runtime_error); ++n; }), !run, "HELPER_TEST_THROWS", "runtime_error, " + o); verdict(observe([&](int& n) { HELPER_TEST_THROWS(raise(k), std::exception); ++n; }), !std_, "HELPER_TEST_THROWS", "exception, " + o); verdict(observe([&](int& n) { HELPER_TEST_THROWS(raise(k), std::logic_error); ++n; }), k != logic, "HELPER_TEST_THROWS", "logic_error, " + o); verdict(observe([&](int& n) { HELPER_TEST_THROWS(raise(k), int); ++n; }), k != integer, "HELPER_TEST_THROWS", "int, " + o); verdict(observe([&](int& n) { HELPER_TEST_THROWS(raise(k), Deep); ++n; }), k != deep, "HELPER_TEST_THROWS", "Deep, " + o);
        verdict(observe([&](int& n) { HELPER_TEST_THROWS(raise(k), Abstract); ++n; }), k != abstract, "HELPER_TEST_THROWS", "Abstract, " + o); verdict(observe([&](int& n) { HELPER_TEST_THROWS(raise(k), Concrete); ++n; }), k != abstract, "HELPER_TEST_THROWS", "Concrete, " + o);
        verdict(observe([&](int& n) { HELPER_TEST_FAIL(raise(k)); ++n; }), !any, "HELPER_TEST_FAIL", o); verdict(observe([&](int& n) { HELPER_TEST_FAIL(int x = raise_value(k, 3); (void)x); ++n; }), !any, "HELPER_TEST_FAIL", o);
        verdict(observe([&](int& n) { HELPER_TEST_TRY(++ran; raise(k)); ++n; }), any, "HELPER_TEST_TRY", o); { Seen s = observe([&](int& n) { HELPER_TEST_EVALUATE(raise_value(k, 7000 + v)); ++n; }); verdict(s, any, "HELPER_TEST_EVALUATE", o); MON_CHECK(any || has(s.out, std::to_string(7000 + v)), "value", "HELPER_TEST_EVALUATE does not write the value"); }
        { int x = -1; Seen s = observe([&](int& n) { HELPER_TEST_ASSIGN(x, raise_value(k, v)); ++n; }); verdict(s, any, "HELPER_TEST_ASSIGN", o); MON_CHECK(x == (any ? -1 : v), "assigned", "after HELPER_TEST_ASSIGN of " << v << " the variable is " << x); bool p = v % 2; s = observe([&](int& n) { HELPER_TEST_ASSIGN(x, p ? v : 3); ++n; }); verdict(s, 0, "HELPER_TEST_ASSIGN", "a choice"); MON_CHECK(x == (p ? v : 3), "assigned", "after HELPER_TEST_ASSIGN of a choice the variable is " << x); }
        verdict(observe([&](int& n) { HELPER_TEST_CALL(++ran; raise(k)); ++n; }), any, "HELPER_TEST_CALL", o); MON_CHECK(ran == 3, "runs", "statements given to HELPER_TEST_THROWS, TRY and CALL were executed " << ran << " times in all"); ran = 0; verdict(observe([&](int& n) { HELPER_TEST_SKIP(++ran; raise(k)); ++n; }), 0, "HELPER_TEST_SKIP", o, 1); MON_CHECK(ran == 0, "skip-runs", "a skipped test was executed");
        { int built = 0; Seen s = observe([&](int& n) { HELPER_TEST_ASSIGN_CONSTRUCT(Built, b, Built(none, v)); built = b.v; HELPER_TEST_NAMED_CONSTRUCT(Built, c, make(none, v + 1)); built += c.v; HELPER_TEST_CONSTRUCT(Built, d, (none, v + 2)); built += d.v; ++n; }); verdict(s, 0, "HELPER_TEST_CONSTRUCT", o); MON_CHECK(built == 3 * v + 3, "constructed", "constructed objects have other values"); } 
        { Seen s = observe([&](int& n) { try { HELPER_TEST_ASSIGN_CONSTRUCT(Built, b, Built(k, v)); } catch (...) {} ++n; }); verdict(s, any, "HELPER_TEST_ASSIGN_CONSTRUCT", o); s = observe([&](int& n) { try { HELPER_TEST_NAMED_CONSTRUCT(Built, b, make(k, v)); } catch (...) {} ++n; }); verdict(s, any, "HELPER_TEST_NAMED_CONSTRUCT", o); }
        { int done = 0; verdict(observe([&](int& n) { HELPER_TEST_EXECUTE(++done); ++n; }), 0, "HELPER_TEST_EXECUTE", ""); MON_CHECK(done == 1, "runs", "HELPER_TEST_EXECUTE executes its statement " << done << " times"); Seen s = observe([&](int& n) { HELPER_TEST_PRINT(v % 2 ? 12345 : 54321); ++n; }); verdict(s, 0, "HELPER_TEST_PRINT", ""); MON_CHECK(has(s.out, v % 2 ? "12345" : "54321"), "value", "HELPER_TEST_PRINT does not write the value"); }
        // an exception in an operand is left to the enclosing call
        { int later = 0; verdict(observe([&](int& n) { HELPER_TEST_CALL(HELPER_TEST_EQUAL(raise_value(k, 3), 3); ++later); ++n; }), any, "HELPER_TEST_CALL", "an operand which throws, " + o); MON_CHECK(later == !any, "operand", "after an operand which " << (any ? "throws" : "does not throw") << " the called test went on " << later << " times"); }
    }
}
// ------------------------------------------------------------------ types, notices, classes and sequences
template<bool B> struct Constant { static const bool value = B; };
template<class A, class B> void types(bool equal) {
    verdict(observe([&](int& n) { HELPER_TEST_SAME_TYPE(A, B); ++n; }), !equal, "HELPER_TEST_SAME_TYPE", text(typeid(A).name(), typeid(B).name())); verdict(observe([&](int& n) { HELPER_TEST_STATIC_ASSERT(std::is_same<A, B>); ++n; }), !equal, "HELPER_TEST_STATIC_ASSERT", text(typeid(A).name(), typeid(B).name())); verdict(observe([&](int& n) { HELPER_TEST_CONCEPT(Same<A, B>); ++n; }), !equal, "HELPER_TEST_CONCEPT", text(typeid(A).name(), typeid(B).name()));
    verdict(observe([&](int& n) { HELPER_TEST_STATIC_ASSERT(Constant<sizeof(A) == 1 || sizeof(B) == 8>); ++n; }), !(sizeof(A) == 1 || sizeof(B) == 8), "HELPER_TEST_STATIC_ASSERT", "sizes"); verdict(observe([&](int& n) { HELPER_TEST_CONCEPT(sizeof(A) == 1 || sizeof(B) == 8); ++n; }), !(sizeof(A) == 1 || sizeof(B) == 8), "HELPER_TEST_CONCEPT", "sizes"); verdict(observe([&](int& n) { HELPER_TEST_EQUIVALENT_TYPE(A, B); ++n; }), sizeof(A) != sizeof(B), "HELPER_TEST_EQUIVALENT_TYPE", "sizes");
}
struct Tested { int& done; int failing; void test() { for (int i = 0; i < failing; ++i) { HELPER_TEST_ASSERT(i < 0); } HELPER_TEST_ASSERT(failing >= 0); ++done; } };
MON_SUITE(others, 150, 6000) {
    mon::nontrivial(); types<int, int>(true); types<int, long>(false); types<int, int const>(false); types<char, char&>(false); types<std::string, std::string>(true); types<Odd&, Odd&>(true);
    std::string m = "message " + std::to_string(rng.below(1000)); { Seen s = observe([&](int& n) { HELPER_TEST_WARN("w " << m); ++n; }); verdict(s, 0, "HELPER_TEST_WARN", m); MON_CHECK(has(s.out, "w " + m) && has(s.err, "w " + m), "warning", "a warning is not written to both streams"); s = observe([&](int& n) { HELPER_TEST_NOTIFY("n " << m); ++n; }); verdict(s, 0, "HELPER_TEST_NOTIFY", m); MON_CHECK(has(s.out, "n " + m) && has(s.err, "n " + m), "warning", "a notification is not written to both streams"); }
    { Seen s = observe([&](int& n) { HELPER_PRINT_TEST_CASE_TITLE("t " << m); HELPER_PRINT_TEST_COMMENT("c " << m); ++n; }); verdict(s, 0, "HELPER_PRINT_TEST_COMMENT", m); MON_CHECK(has(s.out, "t " + m) && has(s.out, "c " + m), "comment", "titles or comments are lost"); }
    { int done = 0, f = static_cast<int>(rng.below(5)); verdict(observe([&](int& n) { HELPER_TEST_CLASS(Tested, (Tested{done, f})); ++n; }), f, "HELPER_TEST_CLASS", std::to_string(f)); MON_CHECK(done == 1, "runs", "HELPER_TEST_CLASS runs the tests " << done << " times"); }
    // a random sequence of tests in called functions: all are executed and counted
    int want = 0, skips = 0, ran = 0, wanted_runs = 0, cut = 0; std::vector<std::pair<int, int>> plan; long n = rng.range(1, 12); for (long i = 0; i < n; ++i) plan.push_back({static_cast<int>(rng.below(6)), static_cast<int>(rng.below(2))});
    for (auto [k, fails] : plan) { mon::log("%d%d", k, fails); if (k == 5) { ++skips; continue; } ++wanted_runs; want += fails; if (k == 4 && fails) ++cut; }
    Seen s = observe([&](int& arrived) { for (auto [k, fails] : plan) switch (k) { case 0: HELPER_TEST_CALL(HELPER_TEST_ASSERT(!fails); ++ran); break; case 1: HELPER_TEST_CALL(HELPER_TEST_EQUAL(fails, 0); ++ran); break; case 2: HELPER_TEST_CALL(HELPER_TEST_THROWS(raise(fails ? none : custom), Custom); ++ran); break; case 3: HELPER_TEST_CALL(HELPER_TEST_TRY(raise(fails ? integer : none)); ++ran); break; case 4: HELPER_TEST_CALL(raise(fails ? literal : none); ++ran); break; default: HELPER_TEST_SKIP(++ran); } ++arrived; });
    MON_CHECK(s.failures == want && s.skips == skips && s.how == 0 && s.arrived == 1 && ran == wanted_runs - cut, "sequence", "a sequence of " << n << " tests counted " << s.failures << " failures and " << s.skips << " skips, and ran " << ran << ", instead of " << want << ", " << skips << " and " << wanted_runs - cut);
}
// ------------------------------------------------------------------ counts do not depend on the streams
struct Mute : std::streambuf { size_t left; explicit Mute(size_t n) : left(n) {} int_type overflow(int_type c) override { return left ? (--left, c) : traits_type::eof(); } };
MON_SUITE(broken_streams, 150, 6000) {
    mon::nontrivial(); int a = static_cast<int>(rng.range(0, 3)), b = static_cast<int>(rng.range(0, 3)), want = 0, ran = 0, how = static_cast<int>(rng.below(4)), before = HELPER_TEST_FAILURES, skipped = HELPER_TEST_SKIPPED; double x = a / 2.0, y = b / 2.0; std::string s(static_cast<size_t>(a), 'a'), t(static_cast<size_t>(b), 'a'); bool eq = a == b; mon::log("streams %d: %d %d", how, a, b);
    Mute mo(how == 2 ? rng.below(3000) : 0), me(how == 2 ? rng.below(1000) : 0); std::streambuf *o = std::cout.rdbuf(&mo), *r = std::cerr.rdbuf(&me); if (how == 0) { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); } if (how == 1) std::cout.setstate(std::ios::badbit); if (how == 3) std::cerr.setstate(std::ios::eofbit);
    std::string bad; auto now = [&](char const* m, bool fails) { want += fails; if (HELPER_TEST_FAILURES - before != want && bad.empty()) { mon::Untracked u; bad = m; } ++ran; };
    HELPER_TEST_EQUAL(a, b); now("HELPER_TEST_EQUAL", !eq); HELPER_TEST_EQUALS(x, y); now("HELPER_TEST_EQUALS", !eq); HELPER_TEST_NOT_EQUAL(s, t); now("HELPER_TEST_NOT_EQUAL", eq); HELPER_TEST_CHECK(s, t); now("HELPER_TEST_CHECK", !eq); HELPER_TEST_LESS(a, b); now("HELPER_TEST_LESS", !(a < b)); HELPER_TEST_ASSERT(eq); now("HELPER_TEST_ASSERT", !eq); HELPER_TEST_COMPARE(x, <=, y); now("HELPER_TEST_COMPARE", !(a <= b)); HELPER_TEST_RESULT_COMPARE(int, a, >, b); now("HELPER_TEST_RESULT_COMPARE", !(a > b));
    HELPER_TEST_CHECK_WARN(a, b); now("HELPER_TEST_CHECK_WARN", false); HELPER_TEST_WITHIN(x, y, 0.5); now("HELPER_TEST_WITHIN", abs_(x - y) > 0.5); HELPER_TEST_SAME(a, b); now("HELPER_TEST_SAME", !eq); HELPER_TEST_SAME_AS(a, b); now("HELPER_TEST_SAME_AS", !eq); auto odd = [](int i) { return i % 2 == 1; }; auto less = [](int i, int j) { return i < j; }; HELPER_TEST_UNARY_PREDICATE(odd, a); now("HELPER_TEST_UNARY_PREDICATE", a % 2 == 0); HELPER_TEST_BINARY_PREDICATE(less, a, b); now("HELPER_TEST_BINARY_PREDICATE", a >= b);
    HELPER_TEST_THROWS(raise(eq ? custom : none), Custom); now("HELPER_TEST_THROWS", !eq); HELPER_TEST_THROWS(raise(eq ? custom : integer), Custom); now("HELPER_TEST_THROWS", !eq); HELPER_TEST_FAIL(raise(eq ? literal : none)); now("HELPER_TEST_FAIL", !eq); HELPER_TEST_TRY(raise(eq ? none : integer)); now("HELPER_TEST_TRY", !eq); HELPER_TEST_CALL(raise(eq ? none : runtime)); now("HELPER_TEST_CALL", !eq); HELPER_TEST_EVALUATE(raise_value(eq ? none : logic, 1)); now("HELPER_TEST_EVALUATE", !eq); int v = -1; HELPER_TEST_ASSIGN(v, a + b); now("HELPER_TEST_ASSIGN", v != a + b); HELPER_TEST_SKIP(++v); now("HELPER_TEST_SKIP", false); HELPER_TEST_SAME_TYPE(int, long); now("HELPER_TEST_SAME_TYPE", true); HELPER_TEST_STATIC_ASSERT(std::is_same<int, int>); now("HELPER_TEST_STATIC_ASSERT", false); HELPER_TEST_CONCEPT(sizeof(char) == 2); now("HELPER_TEST_CONCEPT", true); HELPER_TEST_PRINT(a); HELPER_TEST_WARN("w"); HELPER_TEST_NOTIFY("n"); now("HELPER_TEST_WARN", false);
    std::cout.clear(); std::cerr.clear(); std::cout.rdbuf(o); std::cerr.rdbuf(r); std::cout.clear(); std::cerr.clear();
    MON_CHECK(bad.empty() && HELPER_TEST_SKIPPED - skipped == 1 && v == a + b, "broken-streams", "on streams which cannot be written to, with operands " << a << " and " << b << ", " << bad << " counts wrongly, or " << HELPER_TEST_SKIPPED - skipped << " skips are counted"); mon::event("broken streams");
}
struct Fresh { static inline int made = 0, gone = 0, refuse = 0; int v = 42; Fresh() { if (refuse) throw Custom("refused"); ++made; } Fresh(Fresh const& o) : v(o.v) { ++made; } ~Fresh() { ++gone; } friend std::ostream& operator<<(std::ostream& os, Fresh const& f) { return os << "fresh" << f.v; } };
MON_SUITE(declarations, 100, 3000) {
    mon::nontrivial(); mon::log("%llu", static_cast<unsigned long long>(rng.s)); Fresh::made = Fresh::gone = Fresh::refuse = 0; int d = 0;
    { Seen s = observe([&](int& n) { HELPER_TEST_DECLARE(Fresh, f); f.v += 1; d = f.v; HELPER_TEST_DEFAULT_CONSTRUCT(Fresh, g); g.v += 2; d += g.v; ++n; }); verdict(s, 0, "HELPER_TEST_DECLARE", "an object"); MON_CHECK(d == 87 && has(s.out, "fresh42"), "declared", "declared objects have other values, or are not written: " << s.out); MON_CHECK(Fresh::made == Fresh::gone, "declared", Fresh::made << " objects are made and " << Fresh::gone << " destroyed"); }
    { Fresh::refuse = 1; Seen s = observe([&](int& n) { try { HELPER_TEST_DECLARE(Fresh, f); f.v = 0; d = -1; } catch (Custom const&) {} ++n; }); verdict(s, 1, "HELPER_TEST_DECLARE", "an object which refuses"); MON_CHECK(d == 87, "declared", "a refused object is used"); Fresh::refuse = 0; }
    { std::vector<Fresh*> v; Fresh::made = Fresh::gone = 0; size_t k = rng.chance(1, 5) ? rng.edge(300) : rng.below(8); for (size_t i = 0; i < k; ++i) { mon::log("%d", 1); v.push_back(rng.chance(1, 4) ? nullptr : new Fresh()); } Seen s = observe([&](int& n) { HELPER_CLEAN_TEST_VECTOR(v); ++n; }); bool ok = v.size() == k; for (Fresh* f : v) ok = ok && !f; MON_CHECK(ok && Fresh::made == Fresh::gone && s.failures == 0 && s.how == 0, "cleaned", "cleaning a vector of " << k << " objects, " << Fresh::made << " not null, destroys " << Fresh::gone << (ok ? "" : ", and leaves pointers")); HELPER_CLEAN_TEST_VECTOR(v); MON_CHECK(Fresh::made == Fresh::gone, "cleaned", "cleaning again destroys again"); mon::event("cleaned vectors"); }
}
// ------------------------------------------------------------------ iteration over the nodes of a grid tree
struct GridTreeSubpaving {
    std::vector<int> nodes;
    struct ConstIterator { std::vector<int>::const_iterator i; int operator*() const { return *i; } ConstIterator& operator++() { ++i; return *this; } ConstIterator operator++(int) { ConstIterator o = *this; ++i; return o; } bool operator==(ConstIterator const& o) const { return i == o.i; } bool operator!=(ConstIterator const& o) const { return i != o.i; } };
    ConstIterator begin() const { return {nodes.begin()}; } ConstIterator end() const { return {nodes.end()}; }
};
MON_SUITE(grid_trees, 600, 20000) {
    mon::nontrivial(); GridTreeSubpaving tree; std::vector<int*> expected; size_t n = rng.chance(1, 20) ? rng.below(300) : rng.below(7); for (size_t i = 0; i < n; ++i) { int k = static_cast<int>(rng.range(0, 3)); tree.nodes.push_back(k); mon::log("%d", k); }
    size_t number = rng.chance(1, 2) ? n : rng.below(n + 4), wrong = 0; for (size_t i = 0; i < number; ++i) { int k = i < n ? tree.nodes[i] : 9; if (rng.chance(1, 6)) k += static_cast<int>(rng.below(2)) * 2 - 1; expected.push_back(new int(k)); if (i < n && k != tree.nodes[i]) ++wrong; mon::log("%d", k); }
    Seen s = observe([&](int& arrived) { HELPER_TEST_GRID_TREE_SUBPAVING_ITERATOR(expected, tree, number); ++arrived; });
    verdict(s, static_cast<int>(wrong) + (number != n), "HELPER_TEST_GRID_TREE_SUBPAVING_ITERATOR", std::to_string(n) + " nodes of which " + std::to_string(number) + " are expected");
    Seen c = observe([&](int& arrived) { HELPER_CLEAN_TEST_VECTOR(expected); ++arrived; }); verdict(Seen{c.failures, c.skips, c.arrived, "-", c.err, c.how}, 0, "HELPER_CLEAN_TEST_VECTOR", "the expected nodes");
}
int main(int c, char** v) { mon::require("failing tests", 20000); mon::require("passing tests", 20000); return mon::main(c, v); }
