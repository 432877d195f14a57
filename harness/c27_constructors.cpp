// C27: classes which take over the constructors of their base with HELPER_USING_CONSTRUCTORS.
#include <array>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include "macros.hpp"
#include "probe.hpp"
using mon::Rng;
struct Refused : std::runtime_error { Refused() : std::runtime_error("refused") {} };
template<class A, class B> constexpr bool conv = std::is_convertible_v<A, B>;

// ------------------------------------------------------------------ a base with many constructors
struct Tag {}; struct Other {}; struct Odd { int v; }; enum Colour { red, green }; struct ToInt { int v; operator int() const { return v; } };
struct Many {
    std::string made; std::unique_ptr<int> held;
    Many() : made("default") {}
    Many(int i) : made("int" + std::to_string(i)) {}
    explicit Many(double d) : made("double" + std::to_string(d)) {}
    Many(std::string const& s) : made("copied" + s) {}
    Many(std::string&& s) : made("moved" + std::move(s)) { s = "taken"; }
    Many(char const* s) : made(std::string("text") + s) {}
    Many(std::unique_ptr<int> p) : made("owner"), held(std::move(p)) {}
    explicit Many(Odd& o) : made("odd" + std::to_string(o.v)) { ++o.v; }
    Many(Odd const& o) : made("constodd" + std::to_string(o.v)) {}
    Many(int i, int j) : made("two" + std::to_string(i) + "," + std::to_string(j)) {}
    Many(std::string& s, int i) : made("changing" + s) { s += std::to_string(i); }
    Many(std::string const& s, long i) : made("reading" + s + std::to_string(i)) {}
    Many(std::string&& s, std::unique_ptr<int>&& p, std::vector<int> v) : made("three" + std::to_string(v.size())), held(std::move(p)) { made += std::move(s); s = "gone"; }
    explicit Many(std::vector<int> v) : made("vector" + std::to_string(v.size())) { if (v.size() == 3) throw Refused(); }
    Many(Many const& o) : made(o.made), held(o.held ? std::make_unique<int>(*o.held) : nullptr) {}
    Many(Many&& o) noexcept : made(std::move(o.made)), held(std::move(o.held)) { o.made = "moved from"; }
    Many& operator=(Many const& o) { made = o.made; held = o.held ? std::make_unique<int>(*o.held) : nullptr; return *this; }
    Many& operator=(Many&& o) noexcept { made = std::move(o.made); held = std::move(o.held); return *this; }
};
struct Plain : Many { HELPER_USING_CONSTRUCTORS(Plain, Many) int own = 7; std::string name = "own"; mon::Probe probe{3}; };
template<class Number> struct Templated : Many { HELPER_USING_CONSTRUCTORS(Templated, Many) Number own = 7; std::string name = "own"; mon::Probe probe{3}; };
struct Again : Plain { HELPER_USING_CONSTRUCTORS(Again, Plain) int more = 8; };
struct Inheriting : Plain { using Plain::Plain; int more = 8; };
template<class BaseClass> struct OnTop : BaseClass { HELPER_USING_CONSTRUCTORS(OnTop, BaseClass) int own = 7; std::string name = "own"; mon::Probe probe{3}; };
template<class D> bool fresh(D const& d) { return d.own == 7 && d.name == "own" && d.probe.v == 3; }
std::string state(Many const& m) { mon::Untracked u; return m.made + (m.held ? "/" + std::to_string(*m.held) : std::string()); }

// ------------------------------------------------------------------ the same base object
template<class D, class Make> void both(char const* what, Make make) {
    mon::event("constructions compared"); std::optional<Many> b; std::optional<D> d; std::string sb, sd, after_b, after_d;
    { int how_b = 0, how_d = 0; try { after_b = make.template operator()<Many>(b); } catch (Refused const&) { how_b = 1; } try { after_d = make.template operator()<D>(d); } catch (Refused const&) { how_d = 1; } MON_CHECK(how_b == how_d, "refused", what << ": the class " << (how_d ? "refuses" : "accepts") << " what its base " << (how_b ? "refuses" : "accepts")); if (how_b) { mon::event("refused constructions"); return; } }
    sb = state(*b); sd = state(*d); MON_CHECK(sb == sd, "base-object", what << ": the base is " << sd << " instead of " << sb); MON_CHECK(after_b == after_d, "arguments", what << ": the arguments become " << after_d << " instead of " << after_b); MON_CHECK(fresh(*d), "own-members", what << ": the own members do not have their initial values");
}
template<class D> void same_bases(Rng& r) {
    mon::nontrivial(); int i = static_cast<int>(r.range(-9, 9)), j = static_cast<int>(r.range(0, 5)); std::string s(r.below(40), 'x'); mon::log("%s %d %d %zu", typeid(D).name(), i, j, s.size());
    both<D>("no arguments", [&]<class X>(std::optional<X>& x) { x.emplace(); return std::string(); });
    both<D>("an int", [&]<class X>(std::optional<X>& x) { int k = i; x.emplace(k); return std::to_string(k); });
    both<D>("a constant int", [&]<class X>(std::optional<X>& x) { int const k = i; x.emplace(k); return std::string(); });
    both<D>("a temporary int", [&]<class X>(std::optional<X>& x) { x.emplace(i + 1); return std::string(); });
    both<D>("a short", [&]<class X>(std::optional<X>& x) { short k = static_cast<short>(i); x.emplace(k); return std::string(); });
    both<D>("a bool", [&]<class X>(std::optional<X>& x) { x.emplace(i > 0); return std::string(); });
    both<D>("an enumerator", [&]<class X>(std::optional<X>& x) { x.emplace(i > 0 ? red : green); return std::string(); });
    both<D>("a convertible object", [&]<class X>(std::optional<X>& x) { X y(ToInt{i}); x.emplace(std::move(y)); return std::string(); });
    both<D>("a double", [&]<class X>(std::optional<X>& x) { double const k = i / 2.0; x.emplace(k); return std::string(); });
    both<D>("a temporary double", [&]<class X>(std::optional<X>& x) { x.emplace(i / 4.0); return std::string(); });
    both<D>("a float", [&]<class X>(std::optional<X>& x) { float k = static_cast<float>(i) / 2; x.emplace(k); return std::string(); });
    both<D>("a string", [&]<class X>(std::optional<X>& x) { std::string k = s; x.emplace(k); return k; });
    both<D>("a constant string", [&]<class X>(std::optional<X>& x) { std::string const k = s; x.emplace(k); return k; });
    both<D>("a moved string", [&]<class X>(std::optional<X>& x) { std::string k = s; x.emplace(std::move(k)); return k; });
    both<D>("a moved constant string", [&]<class X>(std::optional<X>& x) { std::string const k = s; x.emplace(std::move(k)); return k; });
    both<D>("a text", [&]<class X>(std::optional<X>& x) { X y("abc"); x.emplace(std::move(y)); return std::string(); });
    both<D>("a C string", [&]<class X>(std::optional<X>& x) { char const* k = s.c_str(); x.emplace(k); return std::string(); });
    both<D>("an owner", [&]<class X>(std::optional<X>& x) { auto k = std::make_unique<int>(i); x.emplace(std::move(k)); return std::string(k ? "kept" : "taken"); });
    both<D>("a temporary owner", [&]<class X>(std::optional<X>& x) { x.emplace(std::make_unique<int>(i)); return std::string(); });
    both<D>("a null owner", [&]<class X>(std::optional<X>& x) { x.emplace(std::unique_ptr<int>()); return std::string(); });
    both<D>("an object to change", [&]<class X>(std::optional<X>& x) { Odd k{i}; x.emplace(k); return std::to_string(k.v); });
    both<D>("a constant object", [&]<class X>(std::optional<X>& x) { Odd const k{i}; x.emplace(k); return std::to_string(k.v); });
    both<D>("a temporary object", [&]<class X>(std::optional<X>& x) { x.emplace(Odd{i}); return std::string(); });
    both<D>("two ints", [&]<class X>(std::optional<X>& x) { int k = i; x.emplace(k, j + 1); return std::to_string(k); });
    both<D>("an int and a short", [&]<class X>(std::optional<X>& x) { short const k = 3; x.emplace(i, k); return std::string(); });
    both<D>("a string to change and an int", [&]<class X>(std::optional<X>& x) { std::string k = s; x.emplace(k, j); return k; });
    both<D>("a constant string and a long", [&]<class X>(std::optional<X>& x) { std::string const k = s; long l = j; x.emplace(k, l); return k; });
    both<D>("three", [&]<class X>(std::optional<X>& x) { std::string k = s; auto p = std::make_unique<int>(i); std::vector<int> v(static_cast<size_t>(j) + 4); x.emplace(std::move(k), std::move(p), v); return k + std::to_string(v.size()) + (p ? "kept" : "taken"); });
    both<D>("three, the vector moved", [&]<class X>(std::optional<X>& x) { std::string k = s; std::vector<int> v(static_cast<size_t>(j)); x.emplace(std::move(k), nullptr, std::move(v)); return k + std::to_string(v.size()); });
    both<D>("a vector", [&]<class X>(std::optional<X>& x) { std::vector<int> v(static_cast<size_t>(j)); x.emplace(v); return std::to_string(v.size()); });
    both<D>("a moved vector", [&]<class X>(std::optional<X>& x) { std::vector<int> v(static_cast<size_t>(j)); x.emplace(std::move(v)); return std::to_string(v.size()); });
    both<D>("an implicit int", [&]<class X>(std::optional<X>& x) { X y = i; x.emplace(std::move(y)); return std::string(); });
    both<D>("an implicit string", [&]<class X>(std::optional<X>& x) { std::string k = s; auto f = [](X y) { return y; }; x.emplace(f(std::move(k))); return k; });
    both<D>("a base", [&]<class X>(std::optional<X>& x) { Many k(std::as_const(s), static_cast<long>(i)); x.emplace(k); return state(k); });
    both<D>("a constant base", [&]<class X>(std::optional<X>& x) { Many const k(std::make_unique<int>(i)); x.emplace(k); return state(k); });
    both<D>("a moved base", [&]<class X>(std::optional<X>& x) { Many k(std::make_unique<int>(i)); x.emplace(std::move(k)); return state(k); });
    both<D>("an implicit base", [&]<class X>(std::optional<X>& x) { Many k(i, j); X y = k; x.emplace(std::move(y)); return state(k); });
    both<D>("returned", [&]<class X>(std::optional<X>& x) { auto f = [&]() -> X { return i; }; x.emplace(f()); return std::string(); });
    both<D>("on the heap", [&]<class X>(std::optional<X>& x) { auto p = std::make_unique<X>(std::make_unique<int>(j)); x.emplace(std::move(*p)); return std::string(); });
}
MON_SUITE(same_bases, 500, 20000) { same_bases<Plain>(rng); same_bases<Templated<int>>(rng); same_bases<Templated<double>>(rng); same_bases<Again>(rng); same_bases<Inheriting>(rng); same_bases<OnTop<Many>>(rng); }

// ------------------------------------------------------------------ every argument arrives with its category, as itself
struct Seen { void const* at; int category; };
struct Recorder { std::vector<Seen> args; template<class... A> explicit Recorder(Tag, A&&... a) : args{Seen{&a, (std::is_lvalue_reference_v<A> ? 0 : 1) + (std::is_const_v<std::remove_reference_t<A>> ? 2 : 0)}...} {} };
struct Recording : Recorder { HELPER_USING_CONSTRUCTORS(Recording, Recorder) int own = 7; };
struct RecordingAgain : Recording { HELPER_USING_CONSTRUCTORS(RecordingAgain, Recording) int more = 8; };
template<class T, class F> void as(int c, T& t, F f) { switch (c) { case 0: f(t); break; case 1: f(std::move(t)); break; case 2: f(std::as_const(t)); break; default: f(std::move(std::as_const(t))); } }
template<class D> void recorded(Rng& r) {
    int c[4]; for (int& k : c) k = static_cast<int>(r.below(4)); int a = 1; std::string b = "b"; std::unique_ptr<int> p; Odd o{2}; mon::log("%s%d%d%d%d", typeid(D).name(), c[0], c[1], c[2], c[3]); mon::nontrivial();
    auto judge = [&](D const& d, std::vector<void const*> at) { mon::event("arguments recorded", at.size()); bool ok = d.args.size() == at.size() && d.own == 7; for (size_t i = 0; ok && i < at.size(); ++i) ok = d.args[i].at == at[i] && d.args[i].category == c[i]; MON_CHECK(ok, "forwarded", "the base does not receive the very arguments, in order and with their categories " << c[0] << c[1] << c[2] << c[3]); };
    as(c[0], a, [&](auto&& x) { using X = decltype(x); judge(D(Tag(), static_cast<X>(x)), {&a}); as(c[1], b, [&](auto&& y) { using Y = decltype(y); judge(D(Tag(), static_cast<X>(x), static_cast<Y>(y)), {&a, &b}); as(c[2], p, [&](auto&& z) { using Z = decltype(z); judge(D(Tag(), static_cast<X>(x), static_cast<Y>(y), static_cast<Z>(z)), {&a, &b, &p}); }); }); });
    as(c[0], o, [&](auto&& x) { using X = decltype(x); judge(D(Tag(), static_cast<X>(x)), {&o}); as(c[1], p, [&](auto&& y) { using Y = decltype(y); judge(D(Tag(), static_cast<X>(x), static_cast<Y>(y)), {&o, &p}); as(c[2], a, [&](auto&& z) { using Z = decltype(z); judge(D(Tag(), static_cast<X>(x), static_cast<Y>(y), static_cast<Z>(z)), {&o, &p, &a}); }); }); });
    judge(D(Tag()), {});
}
MON_SUITE(forwarding, 3000, 100000) { recorded<Recording>(rng); recorded<RecordingAgain>(rng); }

// ------------------------------------------------------------------ implicit exactly where the base is
struct Strict { explicit Strict(int) {} explicit Strict(std::string) {} Strict(char const*) {} explicit Strict(Odd const&) {} };
struct Loose { template<class T> requires std::is_arithmetic_v<T> Loose(T const&) {} Loose(std::unique_ptr<int>) {} };
template<class B, class... X> void conversions(char const* name) {
    using D = OnTop<B>; using E = OnTop<D>; auto one = [&]<class T>() { mon::event("conversions judged", 8); mon::log("%s", typeid(T).name()); auto say = [&](bool b, bool d, char const* what) { MON_CHECK(b == d, "convertible", "a class with the constructors of " << name << (d ? " accepts " : " does not accept ") << what << " of type " << typeid(T).name() << " implicitly"); };
        say(conv<T, B>, conv<T, D>, "a temporary"); say(conv<T&, B>, conv<T&, D>, "a variable"); say(conv<T const&, B>, conv<T const&, D>, "a constant"); say(conv<T const, B>, conv<T const, D>, "a constant temporary"); say(conv<T, B>, conv<T, E>, "a temporary"); say(conv<T&, B>, conv<T&, E>, "a variable"); say(conv<T const&, B>, conv<T const&, E>, "a constant"); say(conv<T const, B>, conv<T const, E>, "a constant temporary"); };
    (one.template operator()<X>(), ...);
}
MON_SUITE(implicit, 3, 10) {
    mon::nontrivial(); mon::log("%llu", static_cast<unsigned long long>(rng.s));
    conversions<Many, int, short, bool, double, float, Colour, std::string, char const*, std::unique_ptr<int>, std::unique_ptr<char>, Odd, Other, Tag, ToInt, std::vector<int>, std::vector<char>, Many, std::pair<int, int>, std::nullptr_t, void*, Strict>("Many");
    conversions<Strict, int, short, bool, double, Colour, std::string, char const*, char*, std::unique_ptr<int>, Odd, Other, Tag, ToInt, std::nullptr_t, Strict, Many>("Strict");
    conversions<Loose, int, short, bool, double, Colour, std::string, char const*, std::unique_ptr<int>, std::unique_ptr<char>, Odd, Other, Tag, ToInt, Loose, Many>("Loose");
    struct { bool ok; char const* what; } facts[] = {{conv<Plain&, Plain> && conv<Plain const&, Plain> && conv<Plain, Plain> && conv<Plain const, Plain>, "copies"}, {conv<Again&, Plain> && conv<Again, Plain> && conv<Inheriting&, Plain> && conv<Inheriting const&, Plain>, "copies of derived objects"}, {std::is_default_constructible_v<Plain> && std::is_default_constructible_v<Again>, "a default"}, {std::is_constructible_v<Plain, double> && std::is_constructible_v<Plain, double const&> && std::is_constructible_v<Plain, Odd&>, "explicit constructions"}};
    for (auto& f : facts) MON_CHECK(f.ok, "constructible", "a class with the constructors of its base does not accept " << f.what);
}
// which one of several overloads is chosen
int chosen(OnTop<Strict> const&) { return 1; } int chosen(Odd const&) { return 2; }
int picked(Plain const&) { return 1; } int picked(Other const&) { return 2; }
int taken(Plain const&) { return 1; } int taken(...) { return 3; }
MON_SUITE(overloads, 20, 200) { mon::nontrivial(); mon::log("%llu", static_cast<unsigned long long>(rng.s)); Other o; Odd d{1}; Tag t; MON_CHECK(chosen(d) == 2 && chosen("x") == 1 && picked(o) == 2 && picked(5) == 1 && picked("x") == 1 && taken(4) == 1 && taken(t) == 3 && taken(2.5f) == (conv<float, Many> ? 1 : 3), "overload", "functions of the class are chosen for values its base does not accept, or not for those it does"); }

// ------------------------------------------------------------------ copies keep the own members
template<class D> struct Model { std::string base; int own; std::string name; int probe; };
template<class D> void copies(Rng& r) {
    mon::nontrivial(); mon::log("%s", typeid(D).name()); std::vector<D> v; std::vector<Model<D>> m; int next = 10; long n = r.range(8, 40);
    auto model = [&](D const& d) { mon::Untracked u; return Model<D>{state(d), d.own, d.name, d.probe.v}; };
    auto agree = [&](D const& d, Model<D> const& e, char const* what) { mon::event("copies compared"); MON_CHECK(state(d) == e.base, "copied-base", what << ": the base is " << state(d) << " instead of " << e.base); MON_CHECK(d.own == e.own && d.name == e.name && d.probe.v == e.probe, "copied-members", what << ": the own members are " << static_cast<int>(d.own) << "," << d.name << "," << d.probe.v << " instead of " << e.own << "," << e.name << "," << e.probe); };
    auto put = [&](D&& d, Model<D> e) { v.push_back(std::move(d)); mon::Untracked u; m.push_back(e); };
    for (long k = 0; k < n; ++k) {
        int op = static_cast<int>(r.below(v.empty() ? 2 : 14)); mon::log("%d", op); size_t i = v.empty() ? 0 : r.below(v.size()), j = v.empty() ? 0 : r.below(v.size());
        switch (op) {
        case 0: case 1: { D d(next); d.own = next + 1; d.name = std::to_string(next); d.probe = mon::Probe(next + 2); next += 3; auto e = model(d); put(std::move(d), e); break; }
        case 2: { D d(v[i]); agree(d, m[i], "a copy of a variable"); put(std::move(d), m[i]); break; }
        case 3: { D const& c = v[i]; D d(c); agree(d, m[i], "a copy of a constant"); put(std::move(d), m[i]); break; }
        case 4: { D d = v[i]; agree(d, m[i], "an implicit copy"); D e{d}; agree(e, m[i], "a copy with braces"); D f{std::as_const(d)}; agree(f, m[i], "a copy with braces"); break; }
        case 5: { D c(v[i]); D d(std::move(c)); agree(d, m[i], "a moved object"); break; }
        case 6: { D const c(v[i]); D d(std::move(c)); agree(d, m[i], "a moved constant"); agree(c, m[i], "a constant which is moved from"); break; }
        case 7: { v[i] = v[j]; { mon::Untracked u; m[i] = m[j]; } break; }
        case 8: { D c(v[j]); v[i] = std::move(c); { mon::Untracked u; m[i] = m[j]; } break; }
        case 9: { std::swap(v[i], v[j]); { mon::Untracked u; std::swap(m[i], m[j]); } break; }
        case 10: { v.insert(v.begin() + static_cast<long>(i), D(v[j])); { mon::Untracked u; auto e = m[j]; m.insert(m.begin() + static_cast<long>(i), e); } break; }
        case 11: { v.erase(v.begin() + static_cast<long>(i)); { mon::Untracked u; m.erase(m.begin() + static_cast<long>(i)); } break; }
        case 12: { auto p = std::make_unique<D>(v[i]); agree(*p, m[i], "a copy on the heap"); auto q = std::make_shared<D>(*p); agree(*q, m[i], "a shared copy"); std::optional<D> o(v[i]); agree(*o, m[i], "an optional copy"); std::pair<D, int> w(v[i], 1); agree(w.first, m[i], "a copy in a pair"); auto lambda = [d = v[i]] { return d; }; agree(lambda(), m[i], "a captured copy"); break; }
        default: { Many b(v[i]); MON_CHECK(state(b) == m[i].base, "copied-base", "the base of an object is copied as " << state(b)); D d(b); MON_CHECK(fresh(d) && state(d) == m[i].base, "own-members", "an object made from a base does not have its initial own members"); std::vector<D> copy(v); for (size_t q = 0; q < v.size(); ++q) agree(copy[q], m[q], "an element of a copied vector"); std::array<D, 2> pair{v[i], v[j]}; auto other = pair; agree(other[0], m[i], "an element of an array"); agree(other[1], m[j], "an element of an array"); break; }
        }
        for (size_t q = 0; q < v.size(); ++q) agree(v[q], m[q], "an object");
    }
}
MON_SUITE(copies, 400, 15000) { copies<Plain>(rng); copies<Templated<int>>(rng); copies<OnTop<Many>>(rng); copies<Templated<short>>(rng); }
MON_SUITE(derived_copies, 500, 20000) {
    mon::nontrivial(); int a = static_cast<int>(rng.range(20, 90)), b = static_cast<int>(rng.range(20, 90)); mon::log("%d %d", a, b);
    auto go = [&]<class E>() { E e(a); e.own = b; e.name = "derived"; e.more = a + b; E f(e), g(std::as_const(e)), h = f; E i(std::move(h)); mon::event("copies compared", 8); for (E* x : {&f, &g, &i}) MON_CHECK(x->own == b && x->more == a + b && x->name == "derived" && state(*x) == state(e), "copied-members", "a copy of an object of a derived class has other members");
        Plain p(e), q(std::as_const(e)), s = e; E t(e); Plain u(std::move(t)); for (Plain* x : {&p, &q, &s, &u}) MON_CHECK(x->own == b && x->name == "derived" && state(*x) == state(e), "copied-members", "the own members are not copied from an object of a derived class"); Plain& base = e; Plain v(base); MON_CHECK(v.own == b, "copied-members", "the own members are not copied through a reference"); };
    go.operator()<Again>(); go.operator()<Inheriting>(); { Plain p(a); p.own = b; Again c(p); MON_CHECK(c.own == b && c.more == 8 && state(c) == state(p), "base-object", "an object made from its base does not have the members of the base"); Again d(std::move(p)); MON_CHECK(d.own == b && d.more == 8, "base-object", "an object made from a temporary base does not have the members of the base"); Again e = c; MON_CHECK(e.own == b, "copied-members", "a copy"); }
}
// ------------------------------------------------------------------ failures
struct Failing { std::unique_ptr<int> p; Failing(int i) : p(std::make_unique<int>(i)) { if (i < 0) throw Refused(); } Failing(std::unique_ptr<int>&& q, bool fail) { if (fail) throw Refused(); p = std::move(q); } Failing(Failing const& o) : p(std::make_unique<int>(*o.p)) { if (*p == 13) throw Refused(); } };
struct MayFail : Failing { HELPER_USING_CONSTRUCTORS(MayFail, Failing) mon::Probe probe{1}; std::unique_ptr<int> other = std::make_unique<int>(4); MayFail(MayFail const& o) : Failing(o), probe(o.probe), other(std::make_unique<int>(*o.other)) {} };
MON_SUITE(failures, 500, 20000) {
    mon::nontrivial(); int i = static_cast<int>(rng.range(-3, 15)); mon::log("%d", i); bool thrown = false; try { MayFail m(i); MON_CHECK(*m.p == i && *m.other == 4 && m.probe.v == 1, "base-object", "a class with its own copy constructor"); bool again = false; *m.other = 5; try { MayFail c(m); MON_CHECK(*c.p == i && *c.other == 5 && c.p != m.p, "copied-members", "the class's own copy constructor is not used"); } catch (Refused const&) { again = true; } MON_CHECK(again == (i == 13), "refused", "a copy which the base refuses"); } catch (Refused const&) { thrown = true; } MON_CHECK(thrown == (i < 0), "refused", "the failure of the base does not reach the caller"); mon::event("refused constructions", thrown);
    auto p = std::make_unique<int>(i); bool fail = rng.chance(1, 2); thrown = false; try { MayFail m(std::move(p), fail); MON_CHECK(!p && *m.p == i, "arguments", "the owner is not taken"); } catch (Refused const&) { thrown = true; } MON_CHECK(thrown == fail && (!fail || (p && *p == i)), "arguments", "an owner which the base refuses is lost");
}
int main(int c, char** v) { mon::require("constructions compared", 10000); mon::require("copies compared", 10000); mon::require("arguments recorded", 1000); mon::require("conversions judged", 100); mon::require("refused constructions", 50); return mon::main(c, v); }
