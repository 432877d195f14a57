// C09: lists, linked lists and the functions which make sequences from others.  Oracle: vectors of small integers.
#include "mon.hpp"
#include "probe.hpp"
#include <algorithm>
#include <string>
#include <cstdlib>
#include <iostream>
#include "container.hpp"

using Helper::Array; using Helper::Set; using Helper::List; using Helper::LinkedList;
using mon::Probe; using mon::Rng;
typedef std::vector<int> V;

struct Explicit { int x; explicit Explicit(int y) : x(y) {} };
template<class T> T mk(int x) { return T(x); }
template<> std::string mk<std::string>(int x) { return std::string(18, 's') + std::to_string(x); }
template<> bool mk<bool>(int x) { return x & 1; }
template<class T> int val(T const& t) { return static_cast<int>(t); }
template<> int val<Probe>(Probe const& t) { return t.get(); }
template<> int val<std::string>(std::string const& t) { return t.empty() ? 0 : std::atoi(t.c_str() + 18); }
template<> int val<Explicit>(Explicit const& t) { return t.x; }
template<class T> int norm(int x) { return val<T>(mk<T>(x)); }
template<> int norm<std::string>(int x) { return x; }
template<class T> int dflt() { return 0; }
template<> int dflt<Probe>() { return Probe::DEFAULT; }

template<class T, class C> V read(C const& c) { V r; for (auto it = c.begin(); it != c.end(); ++it) r.push_back(val<T>(static_cast<T const&>(*it))); return r; }
template<class T, class C> void expect(C const& c, V const& w, std::string const& op) {
    V g = read<T>(c);
    MON_CHECK(g == w && c.size() == w.size(), "content/" + op, op << " gives " << mon::show(g) << " of size " << c.size() << ", expected " << mon::show(w));
}
template<class T> V random_values(Rng& r, size_t max) {
    size_t n = r.chance(1, 6) ? 0 : r.chance(1, 12) ? r.edge(max * 20) : r.below(max + 1); V v; mon::Untracked u;
    if (r.chance(1, 4)) {  // all distinct (as far as the type allows), in some order, then perhaps a few duplicates far apart
        for (size_t i = 0; i < n; ++i) v.push_back(norm<T>(static_cast<int>(i)));
        switch (r.below(4)) { case 0: break; case 1: std::reverse(v.begin(), v.end()); break; default: for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); }
        if (n > 1) for (size_t k = r.below(3); k > 0; --k) v[r.below(n)] = v[r.below(n)];
        return v;
    }
    int range = r.chance(1, 2) ? 5 : 1000;
    for (size_t i = 0; i < n; ++i) v.push_back(norm<T>(static_cast<int>(r.below(static_cast<uint64_t>(range)))));
    return v;
}
template<class T> V distinct_sorted(V v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
template<class T> List<T> list(V const& v) { List<T> l; l.reserve(v.size()); for (int x : v) l.push_back(mk<T>(x)); return l; }
template<class T> LinkedList<T> linked(V const& v) { LinkedList<T> l; for (int x : v) l.push_back(mk<T>(x)); return l; }
V cat(V a, V const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// ------------------------------------------------------------------ histories of three lists
template<class T, class L, L (*make)(V const&)> struct World {
    L a[3]; V m[3]; Rng& r; size_t limit; static constexpr bool is_list = std::is_same_v<L, List<T>>;
    explicit World(Rng& rng) : r(rng), limit(rng.chance(1, 10) ? 1200 : 200) {}
    void check(std::string const& op) { for (int i = 0; i < 3; ++i) expect<T>(a[i], m[i], op + (is_list ? "/list" : "/linked list")); mon::event("comparisons"); }
    void bound(int i) { if (m[i].size() > limit) { m[i].resize(3); L t = make(m[i]); a[i] = t; check("assign"); } }
    void step() {
        int i = static_cast<int>(r.below(3)), k = static_cast<int>(r.below(3)); L& x = a[i]; L const& y = a[k];
        switch (r.below(is_list ? 15 : 11)) {
        case 0: case 1: { int n = norm<T>(static_cast<int>(r.below(1000))); mon::log("a%d.append(%d)", i, n); T t = mk<T>(n); x.append(t); m[i].push_back(n); check("append element"); break; }
        case 2: case 3: { mon::log("a%d.append(a%d)", i, k); x.append(y); m[i] = cat(m[i], V(m[k])); check("append list"); mon::event(i == k ? "self appends" : "appends"); bound(i); break; }
        case 4: { mon::log("a%d.concatenate(a%d)", i, k); x.concatenate(y); m[i] = cat(m[i], V(m[k])); check("concatenate"); mon::event(i == k ? "self appends" : "appends"); bound(i); break; }
        case 5: { if (x.empty()) break; mon::log("a%d.append(own element)", i); if (r.chance(1, 2)) { x.append(static_cast<T const&>(x.front())); m[i].push_back(int(m[i].front())); } else { x.append(static_cast<T const&>(x.back())); m[i].push_back(int(m[i].back())); } check("append own element"); mon::event("appends of own elements"); break; }
        case 6: { V v = random_values<T>(r, 8); mon::log("a%d=%s", i, mon::show(v).c_str()); x = make(v); m[i] = v; check("assign"); break; }
        case 7: { mon::log("a%d:=a%d", i, k); if (r.chance(1, 2)) x = y; else { L t(y); x = std::move(t); } m[i] = V(m[k]); check("assign"); break; }
        case 8: { if (x.empty()) break; mon::log("a%d.clear", i); x.clear(); m[i].clear(); check("clear"); break; }
        case 9: { size_t n = r.below(5); int t = norm<T>(static_cast<int>(r.below(100))); mon::log("a%d=(%zu,%d)", i, n, t); T e = mk<T>(t);
            if constexpr (is_list) { L z(n, e); x = z; } else { L z(static_cast<unsigned>(n), e); x = z; } m[i] = V(n, t); check("filled construction"); break; }
        case 10: { size_t n = r.below(5); mon::log("a%d=(%zu)", i, n); if constexpr (!is_list) { L z(static_cast<unsigned>(n)); x = z; m[i] = V(n, norm<T>(dflt<T>())); check("sized construction"); }
            else { T e = mk<T>(7); L z(e); x = z; m[i] = V(1, norm<T>(7)); check("construction from an element"); } break; }
        default: if constexpr (is_list) lists(i, k); break;
        }
        mon::event("steps");
    }
    void lists(int i, int k) {
        L& x = a[i]; L const& c = a[i]; L const& y = a[k];
        switch (r.below(4)) {
        case 0: { mon::log("catenate(a%d,a%d)", i, k); L z = Helper::catenate(c, y); expect<T>(z, cat(m[i], m[k]), "catenate"); check("catenate"); mon::event("catenations"); if (z.size() < limit && r.chance(1, 3)) { x = z; m[i] = cat(m[i], V(m[k])); } break; }
        case 1: { int n = norm<T>(static_cast<int>(r.below(1000))); mon::log("catenate(a%d,%d)", i, n); T t = mk<T>(n); L z = Helper::catenate(c, t); expect<T>(z, cat(m[i], V(1, n)), "catenate element"); check("catenate element"); mon::event("catenations");
            if (!c.empty() && !std::is_same_v<T, bool>) { L q = Helper::catenate(c, static_cast<T const&>(c.front())); expect<T>(q, cat(m[i], V(1, int(m[i].front()))), "catenate own element"); } break; }
        case 2: { mon::log("a%d=catenate(a%d,a%d)", i, i, k); if (m[i].size() + m[k].size() > limit) break; x = Helper::catenate(x, y); m[i] = cat(m[i], V(m[k])); check("assign a catenation"); break; }
        default: { mon::log("a%d.append(vector)", i); std::vector<T> v = list<T>(m[k]); x.append(v); m[i] = cat(m[i], V(m[k])); check("append vector"); std::vector<T> const& w = x; if (w.size() < 100) { x.append(w); m[i] = cat(m[i], V(m[i])); check("append itself as vector"); } bound(i); break; }
        }
    }
};
template<class T> void list_history(Rng& r) { World<T, List<T>, &list<T>> w(r); for (int i = 0, n = 8 + static_cast<int>(r.below(40)); i < n; ++i) w.step(); mon::nontrivial(); }
template<class T> void linked_history(Rng& r) { World<T, LinkedList<T>, &linked<T>> w(r); for (int i = 0, n = 8 + static_cast<int>(r.below(40)); i < n; ++i) w.step(); mon::nontrivial(); }
MON_SUITE(list_int, 250, 12000) { list_history<int>(rng); }
MON_SUITE(list_string, 120, 6000) { list_history<std::string>(rng); }
MON_SUITE(list_probe, 150, 8000) { list_history<Probe>(rng); }
MON_SUITE(list_bool, 100, 4000) { list_history<bool>(rng); }
MON_SUITE(linked_int, 200, 10000) { linked_history<int>(rng); }
MON_SUITE(linked_string, 100, 5000) { linked_history<std::string>(rng); }
MON_SUITE(linked_probe, 150, 8000) { linked_history<Probe>(rng); }

// ------------------------------------------------------------------ application of functions
struct Refused : std::runtime_error { Refused() : std::runtime_error("refused") {} };
template<class T> void applications(Rng& r) {
    V v1 = random_values<T>(r, 30), v2 = random_values<T>(r, 30); if (v2.size() > v1.size()) v2.resize(v1.size()); while (v2.size() < v1.size()) { mon::Untracked u; v2.push_back(norm<T>(static_cast<int>(r.below(50)))); }
    mon::log("v1=%s v2=%s", mon::show(v1).c_str(), mon::show(v2).c_str());
    List<T> l1 = list<T>(v1), l2 = list<T>(v2); List<T> const &c1 = l1, &c2 = l2;
    V calls; std::vector<std::pair<int, int>> calls2;
    { mon::Untracked u; calls.reserve(700); calls2.reserve(700); }
    auto f = [&](T const& t) { mon::Untracked u; calls.push_back(val<T>(t)); return 3L * val<T>(t) + 1; };
    auto g = [&](T const& s, T const& t) { mon::Untracked u; calls2.push_back({val<T>(s), val<T>(t)}); return std::to_string(val<T>(s)) + "/" + std::to_string(val<T>(t)); };
    auto want1 = [&](auto const& res, std::string const& op) {
        MON_CHECK(calls == v1, "calls/" + op, op << " called the function with " << mon::show(calls) << ", expected " << mon::show(v1));
        MON_CHECK(res.size() == v1.size(), "result-size/" + op, op << " gives " << res.size() << " results for " << v1.size() << " elements");
        for (size_t i = 0; i < v1.size(); ++i) MON_CHECK(res[i] == 3L * v1[i] + 1, "result/" + op, op << " gives " << res[i] << " as result " << i << ", expected " << 3L * v1[i] + 1);
        expect<T>(c1, v1, "source of " + op); calls.clear(); mon::event("applications"); };
    { List<long> res = Helper::apply(f, c1); want1(res, "apply"); }
    { List<long> res = Helper::elementwise(f, c1); want1(res, "elementwise"); }
    { auto f2 = f; List<long> res = Helper::apply(std::move(f2), c1); want1(res, "apply to rvalue function"); }
    auto want2 = [&](List<std::string> const& res, V const& w1, V const& w2, std::string const& op) {
        MON_CHECK(calls2.size() == w1.size() && res.size() == w1.size(), "result-size/" + op, op << " made " << calls2.size() << " calls and " << res.size() << " results for " << w1.size() << " pairs");
        for (size_t i = 0; i < w1.size(); ++i) { MON_CHECK(calls2[i] == std::make_pair(w1[i], w2[i]), "calls/" + op, op << " calls the function with another pair at " << i);
            MON_CHECK(res[i] == std::to_string(w1[i]) + "/" + std::to_string(w2[i]), "result/" + op, op << " gives " << res[i] << " as result " << i); }
        expect<T>(c1, v1, "first source of " + op); expect<T>(c2, v2, "second source of " + op); calls2.clear(); mon::event("applications to pairs"); };
    want2(Helper::elementwise(g, c1, c2), v1, v2, "elementwise2");
    want2(Helper::elementwise(g, c1, c1), v1, v1, "elementwise2 on the same list");
    { List<long> other; { mon::Untracked u; } for (size_t i = 0; i < v1.size(); ++i) other.push_back(static_cast<long>(i) * 1000000007L);
      size_t n = 0; bool ok = true; auto h = [&](T const& t, long x) { ok = ok && val<T>(t) == v1[n] && x == static_cast<long>(n) * 1000000007L; ++n; return static_cast<double>(x) / 2; };
      List<double> res = Helper::elementwise(h, c1, other); MON_CHECK(ok && n == v1.size() && res.size() == n, "calls/mixed elementwise", "elementwise application to lists of different types makes wrong calls");
      for (size_t i = 0; i < n; ++i) MON_CHECK(res[i] == static_cast<double>(other[i]) / 2, "result/mixed elementwise", "result " << i << " is " << res[i]); }
    // a function which takes whatever it is given, and would change it; results which cannot be made from nothing
    { auto spoil = [](auto&& t) { long x; { mon::Untracked u; x = val<T>(t); } if constexpr (!std::is_const_v<std::remove_reference_t<decltype(t)>>) t = mk<T>(77); return x; };
      List<long> res = Helper::apply(spoil, c1); expect<T>(c1, v1, "source of applying a modifying function"); MON_CHECK(res.size() == v1.size(), "result-size/modifying function", "a modifying function gives " << res.size() << " results");
      for (size_t i = 0; i < v1.size(); ++i) MON_CHECK(res[i] == v1[i], "result/modifying function", "result " << i << " is " << res[i]);
      List<long> e = Helper::elementwise(spoil, c1); expect<T>(c1, v1, "source of an elementwise modifying function"); MON_CHECK(e == res, "result/modifying function", "elementwise application differs"); }
    { struct Made { long x; explicit Made(long y) : x(y) {} Made(Made const&) = default; Made& operator=(Made const&) = delete; }; auto one = [](T const& t) { mon::Untracked u; return Made(val<T>(t)); }; auto two = [](T const& s, T const& t) { mon::Untracked u; return Made(val<T>(s) * 100L + val<T>(t)); };
      List<Made> x = Helper::apply(one, c1), y = Helper::elementwise(one, c1), z = Helper::elementwise(two, c1, c2); bool ok = x.size() == v1.size() && y.size() == v1.size() && z.size() == v1.size(); for (size_t i = 0; ok && i < v1.size(); ++i) ok = x[i].x == v1[i] && y[i].x == v1[i] && z[i].x == v1[i] * 100L + v2[i];
      MON_CHECK(ok, "result/objects", "application giving objects which are not default constructible is wrong"); expect<T>(c1, v1, "source of an application giving objects"); }
    // a failing function: the failure reaches the caller, nothing leaks, the source is intact
    if (!v1.empty()) { size_t at = r.below(v1.size()), n = 0; auto bad = [&](T const& t) { if (n++ == at) throw Refused(); return t; };
        int which = static_cast<int>(r.below(2)); auto o = mon::attempt([&] { if (which == 0) (void)Helper::apply(bad, c1); else (void)Helper::elementwise(bad, c1); });
        MON_CHECK(o == mon::Outcome::threw_runtime && n == at + 1, "failing function", "a function failing at call " << at << " " << mon::name(o) << " after " << n << " calls"); expect<T>(c1, v1, "source after failure"); mon::event("failing functions"); }
    mon::nontrivial();
}
MON_SUITE(apply_int, 250, 12000) { applications<int>(rng); }
MON_SUITE(apply_string, 120, 5000) { applications<std::string>(rng); }
MON_SUITE(apply_probe, 150, 6000) { applications<Probe>(rng); }

// ------------------------------------------------------------------ conversions and makers
template<class T> void makers(Rng& r) {
    V v = random_values<T>(r, 25), u = distinct_sorted<T>(v); mon::log("v=%s", mon::show(v).c_str());
    std::vector<T> const src = list<T>(v); Array<T> const arr(src.begin(), src.end()); Set<T> set; for (auto const& x : src) set.insert(x); Set<T> const& cset = set;
    // the order of a set is the order of its type: for the types used here the one of the integers, except for strings
    V uset = read<T>(cset); { V s = uset; std::sort(s.begin(), s.end()); MON_CHECK(s == u, "set content", "a set of the elements holds " << mon::show(uset)); }
    auto intact = [&] { expect<T>(src, v, "source vector"); expect<T>(arr, v, "source array"); expect<T>(cset, uset, "source set"); };
    { Array<T> x = Helper::make_array(src); expect<T>(x, v, "make_array of a vector"); if (!v.empty()) { x[0] = mk<T>(4711); } intact(); }
    { Array<T> x = Helper::make_array(arr); expect<T>(x, v, "make_array of an array"); if (!v.empty()) { x[0] = mk<T>(4711); } intact(); }
    { T t = mk<T>(9); Array<T> x = Helper::make_array(t); expect<T>(x, V{norm<T>(9)}, "make_array of an element"); MON_CHECK(val<T>(t) == norm<T>(9), "source element", "the element changed"); }
    { List<T> x = Helper::make_list(src); expect<T>(x, v, "make_list of a vector"); x.append(mk<T>(1)); intact(); }
    { List<T> x = Helper::make_list(arr); expect<T>(x, v, "make_list of an array"); x.append(mk<T>(1)); intact(); }
    { List<T> x = Helper::make_list(cset); expect<T>(x, uset, "make_list of a set"); x.append(mk<T>(1)); intact(); }
    { T t = mk<T>(9); List<T> x = Helper::make_list(t); expect<T>(x, V{norm<T>(9)}, "make_list of an element"); }
    { Set<T> x = Helper::make_set(src); expect<T>(x, uset, "make_set of a vector"); intact(); }
    { List<T> x(src); expect<T>(x, v, "list from vector"); List<T> y(cset.begin(), cset.end()); expect<T>(y, uset, "list from set"); x.append(y); intact(); expect<T>(y, uset, "appended list"); }
    { LinkedList<T> x((List<T>(src))); expect<T>(x, v, "linked list from list"); LinkedList<T> y(x); expect<T>(y, v, "linked list copy"); std::list<T> z(src.begin(), src.end()); LinkedList<T> w(z); expect<T>(w, v, "linked list from std::list"); LinkedList<T> q(src.begin(), src.end()); expect<T>(q, v, "linked list from range"); y.append(mk<T>(1)); expect<T>(x, v, "source linked list"); intact(); }
    // duplicates
    { bool uniq = Helper::unique_elements(src); MON_CHECK(uniq == (u.size() == v.size()), "unique_elements", "unique_elements is " << uniq << " for " << mon::show(v)); mon::event(uniq ? "unique lists" : "lists with duplicates");
      Set<T> d = Helper::duplicate_elements(src); V w; { mon::Untracked z; for (int x : u) if (std::count(v.begin(), v.end(), x) > 1) w.push_back(x); } V g = read<T>(d); std::sort(g.begin(), g.end());
      MON_CHECK(g == w, "duplicate_elements", "duplicate_elements is " << mon::show(g) << " for " << mon::show(v) << ", expected " << mon::show(w)); intact(); }
    mon::event("makers"); mon::nontrivial();
}
MON_SUITE(make_int, 400, 20000) { makers<int>(rng); }
MON_SUITE(make_string, 150, 6000) { makers<std::string>(rng); }
MON_SUITE(make_probe, 200, 8000) { makers<Probe>(rng); }
MON_SUITE(conversions, 300, 15000) {
    V v = random_values<int>(rng, 25); mon::log("v=%s", mon::show(v).c_str()); std::vector<int> const src(v.begin(), v.end());
    { List<long> x(src); expect<long>(x, v, "list of long from vector of int"); List<long> y = src; expect<long>(y, v, "implicit conversion"); }
    { List<double> x(src); expect<double>(x, v, "list of double"); }
    { List<Explicit> x(src); expect<Explicit>(x, v, "explicit conversion"); }
    { List<Probe> x(src); expect<Probe>(x, v, "list of objects"); List<Probe> y((List<int>(src))); expect<Probe>(y, v, "list of objects from list"); }
    { List<int> l(src); LinkedList<long> x(l); expect<long>(x, v, "linked list from list of other type"); LinkedList<double> y(x); expect<double>(y, v, "linked list from linked list of other type"); LinkedList<Probe> z(l); expect<Probe>(z, v, "linked list of objects"); }
    { std::vector<double> d; for (int x : v) d.push_back(x + 0.75); List<int> x(d); expect<int>(x, v, "list of int from vector of double"); }
    { Set<long> s(src); V u = distinct_sorted<int>(v); expect<long>(s, u, "set of long from vector of int"); Set<int> t(src); Set<long> w(t); expect<long>(w, u, "set of long from set of int"); List<int> l(t); expect<int>(l, u, "list from set"); }
    expect<int>(src, v, "source"); mon::event("conversions"); mon::nontrivial();
}
MON_SUITE(large, 6, 60) {
    size_t n = 1000 + rng.below(20000); V v; { mon::Untracked u; for (size_t i = 0; i < n; ++i) v.push_back(static_cast<int>(rng.below(1u << 30))); } mon::log("n=%zu", n);
    List<int> l = list<int>(v); l.append(l); V w = cat(v, v); expect<int>(l, w, "append itself"); List<int> k = Helper::catenate(l, l); V w2 = cat(w, w); expect<int>(k, w2, "catenate itself"); expect<int>(l, w, "source of catenate");
    bool uq = Helper::unique_elements(k); MON_CHECK(!uq, "unique_elements", "a doubled list has unique elements"); Set<int> d = Helper::duplicate_elements(k); MON_CHECK(read<int>(d) == distinct_sorted<int>(v), "duplicate_elements", "wrong duplicates of a doubled list of " << n);
    LinkedList<int> x = linked<int>(v); x.append(x); expect<int>(x, w, "append linked list to itself"); mon::event("large lists"); mon::nontrivial();
}
// more elements than the smaller integer types count, of strings, which can be taken away
MON_SUITE(long_lists, 8, 100) {
    size_t turn = mon::st().case_no % 8, n = turn == 0 ? 65536 + rng.below(6) : turn == 4 ? 65530 + rng.below(6) : turn % 4 == 1 ? 250 + rng.below(12) : 20 + rng.below(3000), m = turn == 0 || rng.chance(1, 2) ? n : rng.below(n + 1); mon::log("%zu and %zu strings", n, m);
    auto text = [](size_t i) { return std::to_string(i % 1000) + (i % 3 ? "" : " which is longer than short strings"); };
    std::vector<std::string> a, b, c; for (size_t i = 0; i < n; ++i) a.push_back(text(i)); for (size_t i = 0; i < m; ++i) b.push_back(text(i * 7 + 3)); c = a; c.insert(c.end(), b.begin(), b.end());
    auto is = [&](auto const& l, std::vector<std::string> const& w, const char* op) { MON_CHECK(l.size() == w.size() && std::equal(l.begin(), l.end(), w.begin()), std::string("long-lists/") + op, op << ": wrong list of " << l.size() << " strings, expected " << w.size()); };
    List<std::string> A(a), B(b); LinkedList<std::string> K(A), M(B); is(K, a, "linked list from list");
    { List<std::string> x(A); x.append(B); is(x, c, "append"); is(B, b, "argument of append"); List<std::string> y(A); y.concatenate(B); is(y, c, "concatenate"); is(B, b, "argument of concatenate"); is(Helper::catenate(A, B), c, "catenate"); is(A, a, "argument of catenate"); is(B, b, "argument of catenate"); std::string const last("a last one, which is longer than short strings"); x = A; x.append(last); auto w = a; w.push_back(last); is(x, w, "append of an element"); is(Helper::catenate(A, last), w, "catenate of an element"); x = A; x.append(x[n / 2]); w.back() = a[n / 2]; is(x, w, "append of an own element"); }
    { LinkedList<std::string> x(K); x.append(M); is(x, c, "append of linked lists"); is(M, b, "argument of append of linked lists"); LinkedList<std::string> y(K); y.concatenate(M); is(y, c, "concatenate of linked lists"); is(M, b, "argument of concatenate of linked lists"); y = K; y.append(std::string("z")); auto w = a; w.push_back("z"); is(y, w, "append of an element to a linked list"); y = K; y.append(y); auto v = a; v.insert(v.end(), a.begin(), a.end()); is(y, v, "append of a linked list to itself"); }
    { size_t i = 0; List<size_t> r = Helper::elementwise([&](std::string const& t) { return t.size() + i++; }, A); bool ok = r.size() == n && i == n; for (size_t j = 0; ok && j < n; ++j) ok = r[j] == a[j].size() + j; MON_CHECK(ok, "long-lists/elementwise", "elementwise gives a wrong list of " << r.size() << " of " << n << " by " << i << " calls"); is(A, a, "argument of elementwise"); }
    { size_t i = 0; List<size_t> r = Helper::apply([&](std::string const& t) { return t.size() + i++; }, A); bool ok = r.size() == n && i == n; for (size_t j = 0; ok && j < n; ++j) ok = r[j] == a[j].size() + j; MON_CHECK(ok, "long-lists/apply", "apply gives a wrong list of " << r.size() << " of " << n << " by " << i << " calls"); is(A, a, "argument of apply"); }
    { std::vector<long> q(n); for (size_t i = 0; i < n; ++i) q[i] = static_cast<long>(i) * 3; List<long> Q(q); List<std::string> r = Helper::elementwise([](std::string const& t, long x) { return t + std::to_string(x); }, A, Q); bool ok = r.size() == n; for (size_t j = 0; ok && j < n; ++j) ok = r[j] == a[j] + std::to_string(q[j]); MON_CHECK(ok, "long-lists/elementwise of pairs", "elementwise of pairs gives a wrong list of " << r.size() << " of " << n); is(A, a, "argument of elementwise"); }
    { std::set<std::string> found, twice; for (auto const& t : c) if (!found.insert(t).second) twice.insert(t); MON_CHECK(Helper::unique_elements(static_cast<std::vector<std::string> const&>(c)) == twice.empty(), "long-lists/unique_elements", "unique_elements of " << c.size() << " strings"); Set<std::string> d = Helper::duplicate_elements(c); MON_CHECK(static_cast<std::set<std::string> const&>(d) == twice, "long-lists/duplicate_elements", "duplicate_elements of " << c.size() << " strings gives " << d.size() << ", expected " << twice.size()); }
    { is(Helper::make_list(a), a, "make_list"); is(Helper::make_array(a), a, "make_array"); is(Helper::make_list(Helper::make_array(a)), a, "make_list of an array"); Set<std::string> s = Helper::make_set(a); std::set<std::string> w(a.begin(), a.end()); is(s, std::vector<std::string>(w.begin(), w.end()), "make_set"); is(Helper::make_list(s), std::vector<std::string>(w.begin(), w.end()), "make_list of a set"); }
    mon::event("long lists of strings"); mon::nontrivial();
}
int main(int c, char** v) {
    mon::install_probe_monitor();
    for (char const* e : {"self appends", "appends of own elements", "catenations", "applications to pairs", "failing functions", "unique lists", "lists with duplicates", "conversions", "large lists"}) mon::require(e, 5);
    mon::require("steps", 5000); mon::require("makers", 500); mon::require("long lists of strings", 8);
    return mon::main(c, v);
}
