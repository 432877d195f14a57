// C20: assertion, error and notice macros.  Oracle: what each use was given: the truth of its condition, its text, place and explanation.
#include "mon.hpp"
#include <limits>
#include <functional>
#include <memory>
#include <thread>
#include <typeinfo>
#include <cstdlib>
#include <iostream>
#include "macros.hpp"

using mon::Rng;
#ifdef NDEBUG
constexpr bool debugging = false;
#else
constexpr bool debugging = true;
#endif
#define TEXT_(...) #__VA_ARGS__
#define TEXT(...) TEXT_(__VA_ARGS__)

struct Custom : std::runtime_error { using std::runtime_error::runtime_error; };
struct Bare { std::string text; explicit Bare(std::string const& s) : text(s) {} };
struct Interrupt { int n; };
// ------------------------------------------------------------------ the environment of one use
struct E {
    bool truth = true; int evaluated = 0, formatted = 0, arrived = 0, left = 0; int line = 0; std::string text, function, note, left_text, right_text; bool go = true, interrupt = false, interrupt_format = false; int value_a = 0, value_b = 0;
    void here(int l, std::string const& f) { line = l; function = f; ++arrived; }
    void after() { ++left; }
    bool eval() { ++evaluated; if (interrupt) throw Interrupt{1}; return truth; }
    bool cond() { return eval(); }
    bool neither() { return !eval(); }
    int number() { return eval() ? 256 : 0; }
    long big() { return eval() ? 1l << 40 : 0; }
    double fraction() { return eval() ? 0.25 : 0.0; }
    double nan() { return eval() ? __builtin_nan("") : -0.0; }
    char const* pointer() { return eval() ? "" : nullptr; }
    std::unique_ptr<int> owner() { return eval() ? std::make_unique<int>(0) : nullptr; }
    struct Explicit { bool b; explicit operator bool() const { return b; } Explicit(bool x) : b(x) {} Explicit(Explicit const&) = delete; };
    Explicit object() { return Explicit(eval()); }
    int a() { ++evaluated; return value_a; }
    int b() { ++evaluated; return value_b; }
};
struct Note { E& e; }; std::ostream& operator<<(std::ostream& os, Note const& n) { ++n.e.formatted; if (n.e.interrupt_format) throw Interrupt{2}; return os << n.e.note; }
struct Operand { E* e; int v; }; bool operator==(Operand const& x, Operand const& y) { ++x.e->evaluated; if (x.e->interrupt) throw Interrupt{1}; return x.v == y.v; } std::ostream& operator<<(std::ostream& os, Operand const& x) { ++x.e->formatted; if (x.e->interrupt_format) throw Interrupt{2}; return os << "operand-" << x.v; }

// ------------------------------------------------------------------ every use in every context
typedef void (*Site)(E&);
struct Use { char const* macro; std::string condition; bool debug, explained; Site site; std::string context; bool equal = false; };
std::vector<Use>& uses() { static std::vector<Use>* u = [] { mon::Untracked m; return new std::vector<Use>; }(); return *u; }
struct Add { Add(char const* m, char const* c, bool d, bool x, std::vector<std::pair<char const*, Site>> s, bool eq = false) { mon::Untracked u; for (auto& p : s) uses().push_back({m, c, d, x, p.second, p.first, eq}); } };
#define SITES(ID, USE)                                                                                                                          \
    void ID##_free(E& e) { e.here(__LINE__, #ID "_free"); USE; e.after(); }                                                                    \
    void ID##_unbraced(E& e) { e.here(__LINE__, #ID "_unbraced"); if (e.go) USE; e.after(); }                                                   \
    void ID##_nested(E& e) { for (int k = 0; k < 1; ++k) if (k == 0) while (e.left == 0) { e.here(__LINE__, #ID "_nested"); USE; e.after(); } }  \
    struct ID##_Class { E& e; int k; explicit ID##_Class(E& x) : e(x), k(1) { e.here(__LINE__, #ID "_Class"); USE; e.after(); } ID##_Class(E& x, int) : e(x), k(2) {} void method() const { e.here(__LINE__, "method"); USE; e.after(); } static void fixed(E& e) { e.here(__LINE__, "fixed"); USE; e.after(); } template<class T> void generic(T) { e.here(__LINE__, "generic"); USE; e.after(); } }; \
    template<class T> void ID##_template(E& e, T) { e.here(__LINE__, #ID "_template"); switch (sizeof(T)) { case 1: default: USE; } e.after(); } \
    std::vector<std::pair<char const*, Site>> ID##_all() { return {{"function", ID##_free}, {"unbraced if", ID##_unbraced}, {"nested statements", ID##_nested}, {"constructor", [](E& e) { ID##_Class c(e); }}, {"method", [](E& e) { ID##_Class c(e, 1); c.method(); }}, {"static method", ID##_Class::fixed}, {"generic method", [](E& e) { ID##_Class c(e, 1); c.generic(2.0); }}, {"template", [](E& e) { ID##_template(e, 1L); }}, \
        {"lambda", [](E& e) { auto f = [&e] { e.here(__LINE__, ""); USE; e.after(); }; f(); }}, {"handler", [](E& e) { try { throw Interrupt{9}; } catch (Interrupt const&) { e.here(__LINE__, ""); USE; e.after(); } }}}; }
#define ONE(ID, MACRO, DEBUG, COND) SITES(ID, MACRO(COND)) static Add ID##_add(#MACRO, #COND, DEBUG, false, ID##_all());
#define MSG(ID, MACRO, DEBUG, COND) SITES(ID, MACRO(COND, "note " << Note{e} << " and " << 5 << false << 0.5)) static Add ID##_add(#MACRO, #COND, DEBUG, true, ID##_all());
#define CONDS(GEN, ID, MACRO, DEBUG) GEN(ID##0, MACRO, DEBUG, e.cond()) GEN(ID##1, MACRO, DEBUG, e.number()) GEN(ID##2, MACRO, DEBUG, e.fraction()) GEN(ID##3, MACRO, DEBUG, e.pointer()) GEN(ID##4, MACRO, DEBUG, e.owner()) GEN(ID##5, MACRO, DEBUG, e.object()) GEN(ID##6, MACRO, DEBUG, e.value_a == e.value_a && e.cond()) \
    GEN(ID##7, MACRO, DEBUG, e.go ? e.big() : 1) GEN(ID##8, MACRO, DEBUG, !e.go || e.cond()) GEN(ID##9, MACRO, DEBUG, e.nan()) GEN(ID##A, MACRO, DEBUG, ([&] { return e.cond(); }())) GEN(ID##B, MACRO, DEBUG, e.cond() & 1) GEN(ID##C, MACRO, DEBUG, e.cond() == e.go) \
    GEN(ID##D, MACRO, DEBUG, e.number() == 256) GEN(ID##E, MACRO, DEBUG, e.big() > 1) GEN(ID##F, MACRO, DEBUG, e.number() & 256) GEN(ID##G, MACRO, DEBUG, !e.neither()) GEN(ID##H, MACRO, DEBUG, e.big() | 0)
#if PART == 0
CONDS(ONE, as, HELPER_ASSERT, false)
CONDS(ONE, pr, HELPER_PRECONDITION, false)
CONDS(ONE, dp, HELPER_DEBUG_PRECONDITION, true)
CONDS(ONE, da, HELPER_DEBUG_ASSERT, true)
#else
CONDS(MSG, am, HELPER_ASSERT_MSG, false)
CONDS(MSG, dm, HELPER_DEBUG_ASSERT_MSG, true)
CONDS(MSG, pm, HELPER_PRECONDITION_MSG, false)
#endif

std::string shown(E const& e) { return "the condition is " + std::string(e.truth ? "true" : "false") + ", evaluated " + std::to_string(e.evaluated) + " times, the explanation formatted " + std::to_string(e.formatted) + " times"; }
struct Streams { std::ostringstream out, err; std::streambuf *o, *r; Streams() : o(std::cout.rdbuf(out.rdbuf())), r(std::cerr.rdbuf(err.rdbuf())) {} ~Streams() { std::cout.rdbuf(o); std::cerr.rdbuf(r); } };
struct Ending { enum { normal, runtime, interrupt, other } how = normal; std::string what, type; };
template<class F> Ending ending(F&& f) { Ending x; try { f(); } catch (std::runtime_error const& e) { mon::Untracked u; x.how = typeid(e) == typeid(std::runtime_error) ? Ending::runtime : Ending::other; x.what = e.what(); x.type = typeid(e).name(); } catch (Interrupt const& i) { x.how = Ending::interrupt; } catch (mon::CaseAbort const&) { throw; } catch (std::exception const& e) { mon::Untracked u; x.how = Ending::other; x.type = typeid(e).name(); x.what = e.what(); } catch (...) { x.how = Ending::other; x.type = "?"; } return x; }
bool has(std::string const& s, std::string const& t) { return s.find(t) != std::string::npos; }
void judge(Use const& u, E const& e, Ending const& x, std::string const& out, std::string const& err) {
    std::string at = std::string(u.macro) + "(" + u.condition + ") in a " + u.context + ": "; bool active = !u.debug || debugging; mon::event("uses");
    if (!active) { MON_CHECK(e.evaluated == 0 && e.formatted == 0, "release-evaluates", at << "in a release build " << shown(e)); MON_CHECK(x.how == Ending::normal && e.left == 1 && out.empty() && err.empty(), "release-acts", at << "has an effect in a release build"); return; }
    if (e.interrupt) { MON_CHECK(x.how == Ending::interrupt && e.left == 0 && e.evaluated == 1, "interrupted", at << "the exception thrown by the condition is lost"); mon::event("interrupted"); return; }
    if (e.truth) { MON_CHECK(x.how == Ending::normal, "true-throws", at << shown(e) << " and " << x.type << " was thrown: " << x.what); MON_CHECK(e.left == 1, "true-skips", at << "the statements after it were executed " << e.left << " times"); MON_CHECK(e.evaluated == 1, "evaluations", at << shown(e)); MON_CHECK(e.formatted == 0, "formatted", at << shown(e)); MON_CHECK(out.empty() && err.empty(), "true-writes", at << "writes '" << out << err << "'"); return; }
    MON_CHECK(e.left == 0, "false-passes", at << shown(e) << " and the statements after it were executed"); if (e.interrupt_format && u.explained) { MON_CHECK(x.how == Ending::interrupt, "interrupted", at << "the exception thrown by the explanation is lost"); return; }
    MON_CHECK(x.how == Ending::runtime, "false-type", at << shown(e) << " and it ended by " << (x.how == Ending::normal ? "returning" : x.type)); if (!u.equal) MON_CHECK(e.evaluated == 1, "evaluations", at << shown(e));
    MON_CHECK(has(x.what, u.condition), "text", at << "the message does not contain the condition: " << x.what); MON_CHECK(has(x.what, __FILE__), "file", at << "the message does not contain the file: " << x.what); MON_CHECK(has(x.what, ":" + std::to_string(e.line) + ":"), "line", at << "the message does not contain the line " << e.line << ": " << x.what);
    MON_CHECK(has(x.what, e.function), "function", at << "the message does not contain the function " << e.function << ": " << x.what);
    if (u.explained) { MON_CHECK(has(x.what, "note " + e.note + " and 500.5"), "explanation", at << "the message does not contain the explanation: " << x.what); MON_CHECK(e.formatted == 1, "formatted", at << shown(e)); }
    mon::event("failures");
}
std::string words(Rng& r) { std::string s; int n = static_cast<int>(r.chance(1, 12) ? r.below(r.chance(1, 8) ? 70000 : 5000) : r.below(30)); for (int i = 0; i < n; ++i) s += "abc \n%s`'\"<>{}\\\t"[r.below(16)]; return s; }
void run(Use const& u, E& e) { mon::log("%s(%s) in %s: %d%s", u.macro, u.condition.c_str(), u.context.c_str(), e.truth, e.interrupt ? " interrupted" : ""); std::string out, err; Ending x; { Streams s; x = ending([&] { u.site(e); }); mon::Untracked q; out = s.out.str(); err = s.err.str(); } judge(u, e, x, out, err); }
MON_SUITE(conditions, 60, 700) {  // every use, in every context, with a random truth
    mon::nontrivial(); for (Use const& u : uses()) { if (u.equal) continue; int n = 1 + static_cast<int>(rng.below(2)); for (int k = 0; k < n; ++k) { E e; e.truth = rng.chance(1, 2); if (u.condition == "e.nan()") e.truth = rng.chance(1, 2); e.interrupt = rng.chance(1, 12); e.interrupt_format = !e.interrupt && rng.chance(1, 12); e.note = words(rng); run(u, e); } }
}
MON_SUITE(repeated, 3, 12) {  // one use, failing and passing in turn, many times over
    mon::nontrivial(); auto& all = uses(); int times = rng.chance(1, 3) ? 700 : 300; for (int q = 0; q < 6; ++q) { Use const& u = all[rng.below(all.size())]; if (u.equal || u.condition == "e.nan()") continue; for (int k = 0; k < times; ++k) { E e; e.truth = k % 3 == 1; e.note = "n" + std::to_string(k); run(u, e); } }
}
MON_SUITE(skipped, 4, 40) { mon::nontrivial(); for (Use const& u : uses()) if (u.context == "unbraced if") { E e; e.truth = false; e.go = false; u.site(e); MON_CHECK(e.evaluated == 0 && e.left == 1, "unbraced", u.macro << " in an unbraced if which is not taken has an effect"); } }

#if PART == 0
// ------------------------------------------------------------------ equality
template<class A, class B> struct Pair { E& e; A a; B b; };
#define EQUALS(ID, X, Y) SITES(ID, HELPER_ASSERT_EQUAL(X, Y)) static Add ID##_add("HELPER_ASSERT_EQUAL", #X "==" #Y, false, false, ID##_all(), true);
EQUALS(eq0, e.a(), e.b())
EQUALS(eq1, (Operand{&e, e.value_a}), (Operand{&e, e.value_b}))
EQUALS(eq2, e.a() & 255, e.b() | 0)
EQUALS(eq3, e.go ? e.a() : 0, e.go && e.go ? e.b() : 1)
EQUALS(eq4, e.a() + 1, 1 + e.b())
EQUALS(eq5, std::to_string(e.a()), std::to_string(e.b()))
EQUALS(eq6, double(e.a()) / 4, e.b() * 0.25)
EQUALS(eq7, e.a() == 7, e.b() == 7)
MON_SUITE(equality, 60, 3000) {
    mon::nontrivial(); for (Use const& u : uses()) { if (!u.equal) continue; E e; e.value_a = static_cast<int>(rng.below(256)); e.value_b = rng.chance(1, 2) ? e.value_a : static_cast<int>(rng.below(256)); bool seven = has(u.condition, "== 7"); if (seven && rng.chance(1, 2)) e.value_a = 7; e.truth = seven ? (e.value_a == 7) == (e.value_b == 7) : e.value_a == e.value_b; bool op = has(u.condition, "Operand"); if (op) e.interrupt = rng.chance(1, 10);
        std::string out, err; Ending x; mon::log("%s in %s: %d %d", u.condition.c_str(), u.context.c_str(), e.value_a, e.value_b); { Streams s; x = ending([&] { u.site(e); }); mon::Untracked q; out = s.out.str(); err = s.err.str(); }
        if (e.truth && !e.interrupt) { int want = op ? 1 : 2; MON_CHECK(e.evaluated == want, "evaluations", u.condition << " in a " << u.context << ": the operands which are equal are evaluated " << e.evaluated << " times instead of " << want); e.evaluated = 1; MON_CHECK(e.formatted == 0, "formatted", u.condition << ": equal operands are formatted"); }
        judge(u, e, x, out, err); if (e.truth || e.interrupt) continue;
        auto text = [&](int v) { std::ostringstream s; if (op) s << "operand-" << v; else if (has(u.condition, "+ 1")) s << v + 1; else if (has(u.condition, "/ 4")) s << v / 4.0; else if (seven) s << (v == 7); else s << v; return s.str(); };
        MON_CHECK(has(x.what, text(e.value_a) + " != " + text(e.value_b)), "operands", u.condition << " in a " << u.context << ": the message does not contain the operands " << text(e.value_a) << " and " << text(e.value_b) << ": " << x.what); }
}
// operands whose == and != are not the negation of each other, and answer by a type of their own
struct Answer { bool yes; explicit operator bool() const { return yes; } };
struct Vague { int v; bool unequal; Answer operator==(Vague const& o) const { return {v == o.v}; } Answer operator!=(Vague const&) const { return {unequal}; } friend std::ostream& operator<<(std::ostream& os, Vague const& x) { return os << "vague-" << x.v; } };
MON_SUITE(vague_equality, 40, 400) {
    Vague a{static_cast<int>(rng.below(4)), rng.chance(1, 2)}, b{static_cast<int>(rng.below(4)), rng.chance(1, 2)}; Vague const& c = b; mon::log("%d %d", a.v, b.v); Ending x = ending([&] { HELPER_ASSERT_EQUAL(a, c); });
    MON_CHECK((x.how == Ending::normal) == (a.v == b.v), "equality", "operands which are " << (a.v == b.v ? "" : "not ") << "equal, and by != are " << (a.unequal ? "" : "not ") << "unequal, " << (x.how == Ending::normal ? "pass" : "fail")); if (a.v != b.v) MON_CHECK(has(x.what, "vague-" + std::to_string(a.v) + " != vague-" + std::to_string(b.v)), "operands", x.what);
    double n = std::numeric_limits<double>::quiet_NaN(); x = ending([&] { HELPER_ASSERT_EQUAL(n, n); }); MON_CHECK(x.how != Ending::normal, "equality", "a number which does not equal itself passes"); double z = 0.0; x = ending([&] { HELPER_ASSERT_EQUAL(z, -z); }); MON_CHECK(x.how == Ending::normal, "equality", "zero does not equal negative zero"); mon::event("vague operands"); mon::nontrivial();
}
// ------------------------------------------------------------------ names the user may have used as well
template<class F> void expect(bool truth, std::string const& text, char const* what, F f) { Ending x = ending(f); MON_CHECK((x.how == Ending::normal) == truth, "own-names", what << ": " << (truth ? "a true condition fails" : "a false condition passes")); if (!truth) MON_CHECK(has(x.what, text), "own-names", what << ": the message does not contain the explanation '" << text << "': " << x.what); mon::event("own names"); }
MON_SUITE(own_names, 40, 2000) {
    mon::nontrivial(); for (int k = 0; k < 12; ++k) { bool t = rng.chance(1, 2); mon::log("%d", t);
        volatile char noise[256]; for (int i = 0; i < 256; ++i) noise[i] = static_cast<char>(t ? 0 : 1);
        { bool result = t; expect(t, "result", "HELPER_ASSERT(result)", [&] { HELPER_ASSERT(result); }); expect(t, "result", "HELPER_PRECONDITION(result)", [&] { HELPER_PRECONDITION(result); }); if (debugging) { expect(t, "result", "HELPER_DEBUG_PRECONDITION(result)", [&] { HELPER_DEBUG_PRECONDITION(result); }); expect(t, "result", "HELPER_DEBUG_ASSERT(result)", [&] { HELPER_DEBUG_ASSERT(result); }); } expect(t, "result", "HELPER_ASSERT_EQUAL(result, true)", [&] { HELPER_ASSERT_EQUAL(result, true); }); }
        { bool assertion_result = t; expect(t, "assertion_result", "HELPER_ASSERT(assertion_result)", [&] { HELPER_ASSERT(assertion_result); }); expect(t, "", "HELPER_ASSERT_MSG(assertion_result)", [&] { HELPER_ASSERT_MSG(assertion_result, "x"); }); expect(t, "1 != ", "HELPER_ASSERT_EQUAL(1, assertion_result)", [&] { HELPER_ASSERT_EQUAL(1, static_cast<int>(assertion_result)); }); expect(t, "assertion", "HELPER_PRECONDITION(assertion_result)", [&] { HELPER_PRECONDITION(assertion_result); }); }
        { std::ostringstream ss; ss << "own text " << k; std::string s = ss.str(); expect(t, "<<" + s + ">>", "an explanation from a stream named ss", [&] { HELPER_ASSERT_MSG(t, "<<" << ss.str() << ">>"); }); expect(t, s, "a precondition explained from a stream named ss", [&] { HELPER_PRECONDITION_MSG(t, ss.str()); }); expect(false, s, "a failure explained from a stream named ss", [&] { HELPER_FAIL_MSG(ss.str()); }); expect(false, s, "an exception explained from a stream named ss", [&] { HELPER_THROW(std::runtime_error, "f", ss.str()); }); }
        { std::string error = "an error text", msg = "a message", expression = "an expression"; expect(t, error + msg + expression, "an explanation from error, msg and expression", [&] { HELPER_ASSERT_MSG(t, error << msg << expression); }); std::string func = "g", except = "h"; expect(false, func + except, "an exception explained from func and except", [&] { HELPER_THROW(std::runtime_error, func, func << except); }); }
        // assertions within assertions
        int inner = 0; expect(t, "inner", "an assertion within a condition", [&] { HELPER_ASSERT(([&] { ++inner; HELPER_ASSERT(inner == 1); return t; }())); }); expect(false, "deep", "an assertion within an explanation", [&] { HELPER_ASSERT_MSG(t && false, [&]() -> std::string { HELPER_ASSERT_MSG(false, "deep"); return "shallow"; }()); });
    }
}
// ------------------------------------------------------------------ unconditional errors
void not_implemented_here(E& e) { e.here(__LINE__, "not_implemented_here"); HELPER_NOT_IMPLEMENTED; }
struct Unfinished { int method() const { HELPER_NOT_IMPLEMENTED; } template<class T> T generic() { HELPER_NOT_IMPLEMENTED; } };
int maybe_implemented(bool b) { if (b) HELPER_NOT_IMPLEMENTED; return 4; }
void failing(E& e) { e.here(__LINE__, "failing"); HELPER_FAIL_MSG("note " << Note{e} << 5); e.after(); }
void maybe_failing(E& e, bool b) { if (b) HELPER_FAIL_MSG("note " << Note{e} << 5); e.after(); }
MON_SUITE(unconditional, 60, 3000) {
    mon::nontrivial(); E e; e.note = words(rng); std::string m = e.note; int v = static_cast<int>(rng.below(1000)); mon::log("%d", v);
    auto is = [&](Ending const& x, std::string const& text, char const* what) { MON_CHECK(x.how == Ending::runtime, "unconditional-type", what << " ends by " << (x.how == Ending::normal ? "returning" : x.type)); MON_CHECK(has(x.what, text), "unconditional-text", what << ": the message does not contain '" << text << "': " << x.what); mon::event("errors"); };
    is(ending([&] { not_implemented_here(e); }), "not_implemented_here", "HELPER_NOT_IMPLEMENTED"); is(ending([&] { Unfinished().method(); }), "method", "HELPER_NOT_IMPLEMENTED in a method"); is(ending([&] { Unfinished().generic<long>(); }), "generic", "HELPER_NOT_IMPLEMENTED in a template"); is(ending([&] { maybe_implemented(true); }), "maybe_implemented", "HELPER_NOT_IMPLEMENTED in an unbraced if"); MON_CHECK(maybe_implemented(false) == 4, "unbraced", "HELPER_NOT_IMPLEMENTED in an unbraced if which is not taken has an effect");
    { E f; f.note = m; Ending x = ending([&] { failing(f); }); is(x, "note " + m + "5", "HELPER_FAIL_MSG"); MON_CHECK(has(x.what, __FILE__) && has(x.what, ":" + std::to_string(f.line) + ":") && has(x.what, "failing") && f.formatted == 1 && f.left == 0, "unconditional-text", "HELPER_FAIL_MSG does not say where it is: " << x.what); E g; maybe_failing(g, false); MON_CHECK(g.left == 1 && g.formatted == 0, "unbraced", "HELPER_FAIL_MSG in an unbraced if which is not taken has an effect"); }
    { Ending x = ending([&] { HELPER_THROW(std::runtime_error, "some_function" << v, "note " << m << v); }); is(x, "note " + m + std::to_string(v), "HELPER_THROW"); MON_CHECK(has(x.what, "some_function" + std::to_string(v)) && has(x.what, "runtime_error"), "throw-text", "HELPER_THROW does not name the type and the function: " << x.what); }
    std::string what; int which = 0; try { HELPER_THROW(Custom, "f", "note " << m); } catch (Custom const& c) { which = typeid(c) == typeid(Custom) ? 1 : 2; what = c.what(); } catch (...) { which = 3; } MON_CHECK(which == 1 && has(what, "note " + m) && has(what, "Custom"), "throw-type", "HELPER_THROW(Custom) throws another type or message: " << what);
    which = 0; try { HELPER_THROW(std::out_of_range, "f", "note " << m); } catch (std::out_of_range const& c) { which = 1; what = c.what(); } catch (...) { which = 3; } MON_CHECK(which == 1 && has(what, "note " + m), "throw-type", "HELPER_THROW(out_of_range) throws another type or message: " << what);
    which = 0; try { HELPER_THROW(Bare, __FUNCTION__, "note " << m); } catch (Bare const& c) { which = 1; what = c.text; } catch (...) { which = 3; } MON_CHECK(which == 1 && has(what, "note " + m), "throw-type", "HELPER_THROW of a type which is no exception throws another type or message: " << what); mon::event("errors", 3);
}
// ------------------------------------------------------------------ notices
struct Once { int calls = 0, formatted = 0; };
int once_formatted = 0; struct Tell { std::string s; }; std::ostream& operator<<(std::ostream& os, Tell const& t) { ++once_formatted; return os << t.s; }
template<int N> void warn_once(std::string const& m, int& after) { HELPER_WARN_ONCE("once " << Tell{m} << " " << N); ++after; }
template<int N> void warn_once_if(bool b, std::string const& m, int& after) { if (b) HELPER_WARN_ONCE("sometimes " << Tell{m} << " " << N); ++after; }
template<int N> void deprecated_call(int& after) { HELPER_DEPRECATED(deprecated_call, "use another one"); ++after; }
template<int N> struct Site2 { static void twice(int& after) { HELPER_WARN_ONCE("first of two " << N); HELPER_WARN_ONCE("second of two " << N); ++after; } static void loop(int& after) { for (int k = 0; k < 5; ++k) { HELPER_WARN_ONCE("in a loop " << N); ++after; } } };
int count(std::string const& s, std::string const& t) { int n = 0; for (size_t k = s.find(t); k != std::string::npos; k = s.find(t, k + 1)) ++n; return n; }
template<int N> void once_case(Rng& r) {
    std::string m = "text" + std::to_string(r.below(1000)); int after = 0, calls = static_cast<int>(N % 25 == 7 ? r.range(250, 600) : N == 50 ? 70000 : r.range(1, 6)); once_formatted = 0; mon::log("%d calls at site %d", calls, N); std::string out, err;
    bool ever = false; std::vector<bool> taken; struct Leaving { std::function<void()> f; ~Leaving() { f(); } }; { Streams s; for (int k = 0; k < calls; ++k) { auto give = [&] { warn_once<N>(m, after); deprecated_call<N>(after); Site2<N>::twice(after); }; if (k < 4 && r.chance(1, 3)) { std::thread t(give); t.join(); mon::event("notices from another thread"); } else switch (r.below(4)) { case 0: try { Leaving l{give}; throw 1; } catch (int) {} mon::event("notices while unwinding"); break; case 1: try { throw 1; } catch (int) { give(); } break; default: give(); } taken.push_back(r.chance(1, 2)); ever = ever || taken.back(); warn_once_if<N>(taken.back(), m, after); Site2<N>::loop(after); } mon::Untracked u; out = s.out.str(); err = s.err.str(); }
    MON_CHECK(after == calls * 9, "once-flow", "after notices given once the statements which follow were executed " << after << " instead of " << calls * 9 << " times"); MON_CHECK(out.empty(), "once-stream", "notices go to the output stream");
    auto is = [&](std::string const& t, int n) { MON_CHECK(count(err, t) == n, "once", "'" << t << "' was written " << count(err, t) << " instead of " << n << " times in " << calls << " calls: " << err); }; std::string e = " " + std::to_string(N) + "\n"; is("once " + m + e, 1); is("sometimes " + m + e, ever); is("deprecated_call", 1); is("use another one", 1); is("first of two" + e, 1); is("second of two" + e, 1); is("in a loop" + e, 1); MON_CHECK(once_formatted == 1 + ever, "once-formatted", "the messages of notices given once were formatted " << once_formatted << " times"); mon::event("notices", 6);
}
template<int... N> void once_all(Rng& r, long which, std::integer_sequence<int, N...>) { ((which == N ? once_case<N>(r) : void()), ...); }
MON_SUITE_NOLEAK(once, 100, 100) { mon::nontrivial(); static std::vector<bool> used(100); long n = static_cast<long>(mon::st().case_no); if (used[n]) return; used[n] = true; once_all(rng, n, std::make_integer_sequence<int, 100>()); }
void warn_if(bool b, std::string const& m, int& after) { if (b) HELPER_WARN("w " << Tell{m}); if (b) HELPER_NOTIFY("n " << Tell{m}); if (b) HELPER_ERROR("e " << Tell{m}); ++after; }
MON_SUITE(notices, 60, 3000) {
    mon::nontrivial(); std::string m = words(rng), out, err; if (rng.chance(1, 4)) m.insert(rng.below(m.size() + 1), 1, '\0'); int after = 0, calls = static_cast<int>(rng.range(1, 5)), taken = 0; once_formatted = 0; mon::log("%d calls", calls); Ending x; { Streams s; x = ending([&] { for (int k = 0; k < calls; ++k) { bool b = rng.chance(2, 3); taken += b; warn_if(b, m, after); } }); mon::Untracked u; out = s.out.str(); err = s.err.str(); }
    MON_CHECK(x.how == Ending::normal && after == calls, "notice-flow", "warnings, notices and errors change the flow of control"); MON_CHECK(out.empty(), "notice-stream", "notices go to the output stream: " << out); for (char const* k : {"w ", "n ", "e "}) MON_CHECK(count(err, k + m + "\n") >= taken && has(err, k) == (taken > 0), "notice-text", "of " << taken << " notices " << k << m << " these were written: " << err); MON_CHECK(once_formatted == 3 * taken, "notice-formatted", "the messages were formatted " << once_formatted << " times for " << 3 * taken << " notices"); mon::event("notices", 3);
    MON_CHECK(count(err, "\n") == 3 * taken + 3 * taken * count(m, "\n"), "notice-lines", "the notices are not one line each: " << err);
}
#endif
int main(int c, char** v) {
    mon::require("uses", 10000); mon::require("failures", PART == 0 || debugging ? 2000 : 1000);
#if PART == 0
    mon::require("own names", 500); mon::require("errors", 300); mon::require("notices", 300); mon::require("notices from another thread", 20);
#endif
    return mon::main(c, v);
}
