// C07: Set operations are the mathematical ones.  Oracle: bit masks over a universe of up to 16 elements.
#include "mon.hpp"
#include "probe.hpp"
#include <string>
#include <algorithm>
#include <climits>
#include <cmath>
#include <iterator>
#include <map>
#include <cstdlib>
#include <iostream>
#include "container.hpp"

using Helper::Set; using Helper::List;
using mon::Probe; using mon::Rng;
typedef uint32_t Mask;

// An element type with an ordering only (and that unrelated to the numbering)
struct Ordered { int x; explicit Ordered(int y) : x(y) {} friend bool operator<(Ordered const& a, Ordered const& b) { return a.x * 7 % 17 < b.x * 7 % 17; } };
struct FromInt { int x; FromInt(int y) : x(y) {} friend bool operator<(FromInt const& a, FromInt const& b) { return a.x > b.x; } };
struct ExplicitFromInt { int x; explicit ExplicitFromInt(int y) : x(y) {} friend bool operator<(ExplicitFromInt const& a, ExplicitFromInt const& b) { return a.x < b.x; } };

template<class T> T el(int i) { return T(i); }
template<> std::string el<std::string>(int i) { return std::string(static_cast<size_t>(i * 5 % 16), 'e') + std::to_string(i * 37 % 100); }
template<> double el<double>(int i) { return (i * 5 % 16) * 0.25 - 2; }
template<class T> int ix(T const& t) { for (int i = 0; i < 16; ++i) { T e = el<T>(i); if (!(e < t) && !(t < e)) return i; } return 31; }
template<> int ix<Probe>(Probe const& t) { return t.get(); }

template<class T> Mask mask(std::set<T> const& s) { Mask m = 0; for (T const& t : s) m |= Mask(1) << ix(t); return m; }
template<class T> Mask lmask(std::vector<T> const& s) { Mask m = 0; for (T const& t : s) m |= Mask(1) << ix(t); return m; }
template<class T> Set<T> mkset(Mask m, Rng& r) { Set<T> s; std::vector<int> o; for (int i = 0; i < 16; ++i) if (m >> i & 1) o.push_back(i);
    while (!o.empty()) { size_t j = r.below(o.size()); s.insert(el<T>(o[j])); o.erase(o.begin() + static_cast<std::ptrdiff_t>(j)); } return s; }
template<class T> std::vector<T> mkvec(Mask m, Rng& r) { std::vector<T> v; std::vector<int> o; for (int i = 0; i < 16; ++i) if (m >> i & 1) for (size_t k = 1 + (r.chance(1, 3) ? r.below(2) : 0); k > 0; --k) o.push_back(i);
    while (!o.empty()) { size_t j = r.below(o.size()); v.push_back(el<T>(o[j])); o.erase(o.begin() + static_cast<std::ptrdiff_t>(j)); } return v; }
static std::string ms(Mask m) { std::string s = "{"; for (int i = 0; i < 32; ++i) if (m >> i & 1) { if (s.size() > 1) s += ","; s += std::to_string(i); } return s + "}"; }

template<class T> struct Pair {
    Mask a, b; Rng& r; Set<T> A, B; std::vector<T> V;
    Pair(Mask x, Mask y, Rng& rng) : a(x), b(y), r(rng), A(mkset<T>(x, rng)), B(mkset<T>(y, rng)), V(mkvec<T>(y, rng)) {}
    void expect(bool got, bool want, const char* op) { MON_CHECK(got == want, op, op << " of " << ms(a) << " and " << ms(b) << " is " << got); }
    void expect_set(std::set<T> const& got, Mask want, const char* op) {
        MON_CHECK(mask(got) == want && got.size() == static_cast<size_t>(__builtin_popcount(want)), op, op << " of " << ms(a) << " and " << ms(b) << " gives " << ms(mask(got)) << ", expected " << ms(want)); }
    void unchanged(const char* op) { MON_CHECK(mask(A) == a && mask(B) == b && A.size() == static_cast<size_t>(__builtin_popcount(a)) && lmask(V) == b, std::string("argument-changed/") + op, op << " changes an argument"); }
    void run() {
        Set<T> const& cA = A; Set<T> const& cB = B; std::vector<T> const& cV = V; std::set<T> const& sA = A; std::set<T> const& sB = B;
        bool sub = (a & ~b) == 0, dis = (a & b) == 0;
        expect(cA.subset(cB), sub, "member-subset"); expect(cA.subset(sB), sub, "member-subset"); expect(cA.disjoint(cB), dis, "member-disjoint"); expect(cA.disjoint(cV), dis, "member-disjoint-list");
        expect(Helper::subset(sA, sB), sub, "subset"); expect(Helper::disjoint(sA, sB), dis, "disjoint"); expect(Helper::disjoint(sA, cV), dis, "disjoint-list");
        for (int i = 0; i < 16; ++i) { T e = el<T>(i); expect(cA.contains(e), a >> i & 1, "member-contains"); expect(Helper::contains(sA, e), a >> i & 1, "contains"); }
        unchanged("a query");
        expect_set(Helper::join(cA, cB), a | b, "join"); expect_set(Helper::intersection(sA, sB), a & b, "intersection"); expect_set(Helper::intersection(sA, cV), a & b, "intersection-list"); expect_set(Helper::difference(sA, sB), a & ~b, "difference");
        unchanged("a binary operation");
        { Set<T> t(A); Set<T>& u = t.adjoin(sB); expect_set(t, a | b, "adjoin"); MON_CHECK(&u == &t, "adjoin-result", "adjoin returns another set"); }
        { Set<T> t(A); Set<T>& u = t.remove(sB); expect_set(t, a & ~b, "member-remove"); MON_CHECK(&u == &t, "remove-result", "remove returns another set"); }
        { Set<T> t(A); Set<T>& u = t.remove(cV); expect_set(t, a & ~b, "member-remove-list"); MON_CHECK(&u == &t, "remove-list-result", "remove returns another set"); }
        { Set<T> t(A); Set<T>& u = t.restrict(sB); expect_set(t, a & b, "member-restrict"); MON_CHECK(&u == &t, "restrict-result", "restrict returns another set"); }
        { std::set<T> t(A); std::set<T>& u = Helper::remove(t, sB); expect_set(t, a & ~b, "remove"); MON_CHECK(&u == &t, "free-remove-result", "remove returns another set"); }
        { std::set<T> t(A); std::set<T>& u = Helper::restrict(t, sB); expect_set(t, a & b, "restrict"); MON_CHECK(&u == &t, "free-restrict-result", "restrict returns another set"); }
        unchanged("an in-place operation on a copy");
        for (int i = 0; i < 16; ++i) if (r.chance(1, 3)) { Set<T> t(A); T e = el<T>(i); Set<T>& u = t.remove(e); expect_set(t, a & ~(Mask(1) << i), "remove-element"); MON_CHECK(&u == &t, "remove-element-result", "remove returns another set"); }
        // aliasing
        { Set<T> t(A); t.adjoin(t); expect_set(t, a, "adjoin-self"); t.restrict(t); expect_set(t, a, "restrict-self"); t.remove(static_cast<std::set<T> const&>(t)); expect_set(t, 0, "remove-self"); }
        { std::set<T> t(A); Helper::restrict(t, t); expect_set(t, a, "free-restrict-self"); Helper::remove(t, t); expect_set(t, 0, "free-remove-self"); }
        if (a) { Set<T> t(A); auto it = t.begin(); for (size_t k = r.below(t.size()); k > 0; --k) ++it; Mask w = a & ~(Mask(1) << ix(*it)); t.remove(*it); expect_set(t, w, "remove-own-element"); mon::event("aliasing arguments"); }
        { expect(cA.subset(cA), true, "subset-self"); expect(cA.disjoint(cA), a == 0, "disjoint-self"); expect_set(Helper::join(cA, cA), a, "join-self"); expect_set(Helper::intersection(sA, sA), a, "intersection-self"); expect_set(Helper::difference(sA, sA), 0, "difference-self"); }
        // image under functions
        { unsigned k = 1 + static_cast<unsigned>(r.below(6)); Mask w = 0; long n = 0; for (int i = 0; i < 16; ++i) if (a >> i & 1) w |= Mask(1) << (i * 3 % static_cast<int>(k));
          auto f = [&](T const& t) { ++n; return ix(t) * 3 % static_cast<int>(k); };
          Set<int> img = Helper::apply(f, cA); Mask g = 0; for (int x : img) g |= Mask(1) << x; MON_CHECK(g == w, "apply", "the image of " << ms(a) << " is " << ms(g) << ", expected " << ms(w));
          MON_CHECK(n == __builtin_popcount(a), "apply-calls", "the function is called " << n << " times for " << ms(a)); }
        // conversions
        { List<T> l = static_cast<List<T>>(cA); MON_CHECK(l.size() == A.size(), "to-list", "a list of a set has the wrong size"); auto it = A.begin(); for (T const& x : l) { MON_CHECK(!(x < *it) && !(*it < x), "to-list", "a list of a set has the wrong elements or order"); ++it; } }
        { Set<T> t(cV); expect_set(t, b, "from-list"); Set<T> u(sA); expect_set(u, a, "from-set"); Set<T> v; v = u; expect_set(v, a, "copy"); Set<T> w(std::move(u)); expect_set(w, a, "move"); }
        unchanged("a conversion"); mon::event("pairs of sets");
    }
};
template<class T> void random_pair(Rng& r) {
    Mask u = (Mask(1) << (1 + r.below(16))) - 1; Mask a = static_cast<Mask>(r.next()) & u, b;
    switch (r.below(8)) { case 0: b = a; break; case 1: b = a & static_cast<Mask>(r.next()); break; case 2: b = u & (a | static_cast<Mask>(r.next())); break; case 3: b = u & ~a; break; case 4: b = 0; break; case 5: b = static_cast<Mask>(r.next() & r.next()) & u; break; default: b = static_cast<Mask>(r.next()) & u; }
    if (r.chance(1, 12)) a = 0;
    if (r.chance(1, 6)) std::swap(a, b);
    mon::log("%s %s", ms(a).c_str(), ms(b).c_str());
    mon::event((a & b) == 0 ? "disjoint pairs" : (a & ~b) == 0 || (b & ~a) == 0 ? "nested pairs" : "overlapping pairs");
    Pair<T>(a, b, r).run(); mon::nontrivial();
}
MON_SUITE(ints, 300, 15000) { random_pair<int>(rng); }
MON_SUITE(strings, 100, 8000) { random_pair<std::string>(rng); }
MON_SUITE(probes, 100, 8000) { random_pair<Probe>(rng); }
MON_SUITE(ordered, 150, 8000) { random_pair<Ordered>(rng); }
MON_SUITE(doubles, 80, 5000) { random_pair<double>(rng); }
// all pairs of subsets of a universe of 4 (thorough: 6) elements
MON_SUITE(all_pairs, 256, 4096) { unsigned n = mon::st().thorough ? 6 : 4; Mask a = static_cast<Mask>(mon::st().case_no) & ((1u << n) - 1), b = static_cast<Mask>(mon::st().case_no >> n); mon::log("%s %s", ms(a).c_str(), ms(b).c_str()); Pair<Ordered>(a, b, rng).run(); mon::nontrivial(); mon::event("pairs of the enumeration"); }

// larger sets, and histories of in-place operations
MON_SUITE(history, 200, 8000) {
    std::vector<bool> m(200); Set<int> s; mon::log("history");
    auto rnd = [&](size_t n) { std::set<int> x; for (size_t i = 0; i < n; ++i) x.insert(static_cast<int>(rng.below(200))); return x; };
    for (int t = 0; t < 25; ++t) {
        auto x = rnd(rng.below(60)); std::vector<int> v(x.rbegin(), x.rend()); const char* op;
        switch (rng.below(5)) {
        case 0: case 1: op = "adjoin"; s.adjoin(x); for (int i : x) m[static_cast<size_t>(i)] = true; break;
        case 2: op = "remove"; s.remove(x); for (int i : x) m[static_cast<size_t>(i)] = false; break;
        case 3: op = "remove-list"; s.remove(v); for (int i : x) m[static_cast<size_t>(i)] = false; break;
        default: op = "restrict"; x = rnd(150); s.restrict(x); for (int i = 0; i < 200; ++i) if (!x.count(i)) m[static_cast<size_t>(i)] = false; break;
        }
        mon::log("%s %zu", op, x.size());
        size_t n = 0; for (int i = 0; i < 200; ++i) { n += m[static_cast<size_t>(i)]; MON_CHECK(s.contains(i) == m[static_cast<size_t>(i)], std::string("history/") + op, "after " << op << " membership of " << i << " is wrong"); }
        MON_CHECK(s.size() == n, std::string("history-size/") + op, "wrong size"); mon::event("history steps");
    }
    mon::nontrivial();
}
// conversion of the element type
MON_SUITE(conversions, 100, 4000) {
    std::set<int> s; std::vector<int> v; for (size_t i = rng.below(20); i > 0; --i) { int x = static_cast<int>(rng.range(-50, 50)); s.insert(x); v.push_back(x); }
    mon::log("convert %s", mon::show(v).c_str());
    Set<FromInt> a(s); Set<FromInt> b(v); Set<ExplicitFromInt> c(s); Set<double> d(s); Set<double> e(v); Set<FromInt> f = s; Set<long> g = v;
    MON_CHECK(a.size() == s.size() && b.size() == s.size() && c.size() == s.size() && d.size() == s.size() && e.size() == s.size() && f.size() == s.size() && g.size() == s.size(), "conversion-size", "a converted set has the wrong size");
    for (int x : s) MON_CHECK(a.count(FromInt(x)) && b.count(FromInt(x)) && c.count(ExplicitFromInt(x)) && d.count(x) && e.count(x) && f.count(FromInt(x)) && g.count(x), "conversion", "a converted set lacks " << x);
    std::initializer_list<short> il = {3, 1, 3}; Set<int> h(il); MON_CHECK(h.size() == 2 && h.contains(1) && h.contains(3), "conversion-list", "a set of a list is wrong");
    Set<int> k = {5, 4, 5}; MON_CHECK(k.size() == 2 && k.contains(4) && k.contains(5), "construct-list", "a set of a list is wrong");
    Set<int> trunc(std::set<double>{1.2, 1.7, 2.5}); MON_CHECK(trunc.size() == 2 && trunc.contains(1) && trunc.contains(2), "conversion-merging", "elements which become equal are not merged");
    mon::event("conversions"); mon::nontrivial();
}

// large sets of all kinds of elements, in arguments of very different sizes; oracle: sorted sequences without repetition
template<class T> std::vector<T> sorted(std::vector<T> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
template<class T> T value(Rng& r, int spread);
template<> int value<int>(Rng& r, int spread) { if (spread == 0) return r.pick(std::vector<int>{INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, 0, -1, 1}); return static_cast<int>(r.range(-spread, spread)); }
template<> unsigned long value<unsigned long>(Rng& r, int spread) { if (spread == 0) return ~0ul << r.below(64); return r.below(static_cast<uint64_t>(spread)) << (r.chance(1, 2) ? 32 : 0); }
template<> char value<char>(Rng& r, int) { return static_cast<char>(r.below(256)); }
template<> bool value<bool>(Rng& r, int) { return r.chance(1, 2); }
template<> double value<double>(Rng& r, int spread) { switch (r.below(9)) { case 0: return r.chance(1, 2) ? HUGE_VAL : -HUGE_VAL; case 1: return 0.0; case 2: return 5e-324; default: return static_cast<double>(r.range(-spread, spread)) * 0.125; } }
template<> std::string value<std::string>(Rng& r, int spread) { std::string t(r.below(4) == 0 ? r.below(40) : r.below(3), static_cast<char>(r.below(2) ? 'a' : r.below(256))); return t + std::to_string(r.below(static_cast<uint64_t>(spread) + 1)); }
template<> std::vector<int> value<std::vector<int>>(Rng& r, int spread) { std::vector<int> v(r.below(4)); for (auto& x : v) x = static_cast<int>(r.below(static_cast<uint64_t>(spread) + 1) % 7); return v; }
static int ground[1000];
template<> int* value<int*>(Rng& r, int spread) { return ground + r.below(static_cast<uint64_t>(spread) % 999 + 1); }
template<class T> void big(Rng& r, const char* name) {
    typedef std::vector<T> V;
    int spread = static_cast<int>(r.pick(std::vector<int>{0, 3, 20, 200, 3000, 3000})); size_t limit = r.pick(std::vector<size_t>{3, 20, 70, 300, 1100, 1100});
    auto some = [&](size_t n) { V v; v.reserve(n); for (size_t i = 0; i < n; ++i) v.push_back(value<T>(r, spread)); return v; };
    V x = some(r.edge(limit)), l = some(r.chance(1, 3) ? r.below(4) : r.edge(limit));
    if (r.chance(1, 3)) for (T const& t : x) if (r.chance(1, 2)) l.push_back(t);
    if (r.chance(1, 6)) l = x;
    if (r.chance(1, 6)) { l.clear(); for (T const& t : x) l.push_back(t); if (!l.empty()) l.pop_back(); }
    switch (r.below(4)) { case 0: std::sort(l.begin(), l.end()); break; case 1: std::sort(l.rbegin(), l.rend()); break; default: for (size_t i = l.size(); i > 1; --i) { size_t j = r.below(i); if (j != i - 1) { T t = l[i - 1]; l[i - 1] = l[j]; l[j] = t; } } }
    if (r.chance(1, 4) && x.size() > 1) {  // most of the list, and both its ends, beyond one end of the set
        V w = sorted(x), far; size_t cut = r.below(w.size()); bool above = r.chance(1, 2); T limit = w[cut]; V in; for (T const& t : w) { if (above ? t < limit : limit < t) in.push_back(t); else far.push_back(t); }
        if (!far.empty() && !in.empty()) { x = in; l = far; for (size_t i = r.below(4); i > 0; --i) l.insert(l.begin() + static_cast<std::ptrdiff_t>(r.below(l.size() + 1)), T(in[r.below(in.size())])); if (r.chance(3, 4)) { l.insert(l.begin(), T(far[r.below(far.size())])); l.push_back(far[r.below(far.size())]); } mon::event("lists mostly beyond the set"); }
    }
    if (r.chance(1, 4)) {  // one much larger than the other, whose few elements are at, between and beyond the ends of it
        if (spread == 0) spread = 20; else spread = std::max(spread, 3000); V w = sorted(some(400 + r.below(700))), few, many; size_t lo = r.below(3), hi = r.below(3), k = r.below(4);
        if (w.size() > 20) {
            size_t gap = lo + 1 + r.below(w.size() - lo - hi - 2); for (size_t i = 0; i < w.size(); ++i) { if (i >= lo && i + hi < w.size() && i != gap) many.push_back(w[i]); else if (r.chance(2, 3)) few.push_back(w[i]); }
            for (; k > 0; --k) { size_t at = r.below(4); few.push_back(at == 0 ? many.front() : at == 1 ? many.back() : many[r.below(many.size())]); }
            if (few.size() > 1 && r.chance(1, 2)) { size_t j = r.below(few.size()); T t = few[j]; few.assign(1, t); }
            if (r.chance(1, 2)) { x = many; l = few; } else { x = few; l = many; } mon::event("few elements and many");
        }
    }
    V a = sorted(x), b = sorted(l), un, in, di; std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(un)); std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(in)); std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(di));
    mon::log("%s sizes %zu %zu union %zu h=%zu", name, a.size(), b.size(), un.size(), static_cast<size_t>(r.next() % 100000));
    Set<T> const A(x), B(l); std::set<T> const& sA = A; std::set<T> const& sB = B; V const L = l;
    auto is = [&](std::set<T> const& s, V const& w, const char* op) { MON_CHECK(s.size() == w.size() && std::equal(s.begin(), s.end(), w.begin()), std::string("large/") + op, op << " of sets of " << a.size() << " and " << b.size() << " " << name << " elements gives a wrong set of " << s.size() << ", expected " << w.size()); };
    auto yes = [&](bool g, bool w, const char* op) { MON_CHECK(g == w, std::string("large/") + op, op << " of sets of " << a.size() << " and " << b.size() << " " << name << " elements is " << g); };
    is(A, a, "conversion of a list"); is(B, b, "conversion of a list");
    bool sub = in.size() == a.size(), dis = in.empty();
    yes(A.subset(B), sub, "member subset"); yes(Helper::subset(sA, sB), sub, "subset"); yes(A.disjoint(B), dis, "member disjoint"); yes(A.disjoint(L), dis, "disjoint of a list"); yes(Helper::disjoint(sA, sB), dis, "free disjoint"); yes(Helper::disjoint(sA, L), dis, "free disjoint of a list");
    yes(Set<T>(in.begin(), in.end()).subset(sA), true, "subset of the intersection"); yes(A.subset(Set<T>(un.begin(), un.end())), true, "subset of the union"); yes(Set<T>(di.begin(), di.end()).disjoint(sB), true, "disjointness of the difference");
    for (int i = 0; i < 6; ++i) { T t = i < 2 && !a.empty() ? a[r.below(a.size())] : i < 4 && !b.empty() ? b[r.below(b.size())] : value<T>(r, spread); bool w = std::binary_search(a.begin(), a.end(), t); yes(A.contains(t), w, "member contains"); yes(Helper::contains(sA, t), w, "contains"); V v = a; v.erase(std::remove(v.begin(), v.end(), t), v.end()); Set<T> c(A); is(c.remove(t), v, "remove of an element"); }
    is(Helper::join(A, B), un, "join"); is(Helper::join(Set<T>(sA), B), un, "join"); is(Helper::intersection(sA, sB), in, "intersection"); is(Helper::intersection(sA, L), in, "intersection with a list"); is(Helper::difference(sA, sB), di, "difference");
    { Set<T> c(A); is(c.adjoin(sB), un, "adjoin"); is(c, un, "adjoin"); is(c.restrict(sB), b, "restrict"); is(c, b, "restrict"); is(c.adjoin(A).remove(sB), di, "remove"); is(c.remove(L), di, "remove of a list"); is(c.adjoin(sB).remove(L), di, "remove of a list"); is(c, di, "remove of a list"); }
    { Set<T> c(A); is(c.restrict(sB), in, "restrict"); is(c.remove(c), V(), "remove of itself"); }
    { std::set<T> c(A); is(Helper::remove(c, sB), di, "free remove"); is(Helper::restrict(c, sB), V(), "free restrict"); c = sA; is(Helper::restrict(c, sB), in, "free restrict"); is(Helper::restrict(c, c), in, "free restrict by itself"); }
    // images: injective, merging, order reversing, by functions of all kinds
    { std::map<T, size_t> pos; for (size_t i = 0; i < a.size(); ++i) pos[a[i]] = i; size_t n = 0, m = 1 + r.below(a.size() + 2);
      auto f = [&](T const& t) { ++n; return static_cast<long>(pos.at(t) % m); }; Set<long> img = Helper::apply(f, A); MON_CHECK(img.size() == std::min(m, a.size()) && n == a.size(), "large/image", "an image has " << img.size() << " elements, expected " << std::min(m, a.size()) << ", by " << n << " calls"); for (long i : img) MON_CHECK(i >= 0 && static_cast<size_t>(i) < m, "large/image", "an image has a wrong element");
      struct Reverse { std::map<T, size_t> const* p; long operator()(T t) const { return -static_cast<long>(p->at(t)); } }; Reverse const rev{&pos}; Set<long> down = Helper::apply(rev, A); MON_CHECK(down.size() == a.size() && (a.empty() || (*down.begin() == 1 - static_cast<long>(a.size()) && *down.rbegin() == 0)), "large/reversed image", "the image under a decreasing function is wrong");
      { Set<T> img = Helper::apply([](auto&& t) { T x(t); if constexpr (!std::is_const_v<std::remove_reference_t<decltype(t)>>) t = T(); return x; }, A); is(img, a, "image by a modifying function"); is(A, a, "source of an image by a modifying function"); }
      is(Helper::apply([](T const& t) { return t; }, A), a, "identical image"); Set<char> one = Helper::apply([](T const&) { return 'x'; }, A); MON_CHECK(one.size() == !a.empty(), "large/constant image", "the image under a constant function has " << one.size() << " elements");
      size_t k = r.below(a.size() + 1), calls = 0; auto o = mon::attempt([&] { Helper::apply([&](T const&) { if (calls++ == k) throw std::runtime_error("stop"); return 1; }, A); }); MON_CHECK((o != mon::Outcome::returned) == (k < a.size()) && calls == std::min(k + 1, a.size()), "large/failing image", "a function failing at call " << k << " of " << a.size() << ": " << mon::name(o) << " after " << calls << " calls"); }
    { List<T> t = static_cast<List<T>>(A); MON_CHECK(static_cast<std::vector<T> const&>(t) == a, "large/to list", "the list of a set is wrong"); }
    { Set<T> c(sA), d(A), e; e = A; Set<T> m(std::move(d)); is(c, a, "copy"); is(e, a, "assignment"); is(m, a, "move"); c.adjoin(sB); is(c, un, "adjoin after copying"); is(e, a, "adjoin to a copy"); }
    is(A, a, "changing argument"); is(B, b, "changing argument"); MON_CHECK(L == l, "large/changed list", "a list argument is changed");
    mon::event("pairs of larger sets"); if (un.size() > 256) mon::event("pairs of sets of more than 256 elements"); if (a.size() > 20 * b.size() + 1 || b.size() > 20 * a.size() + 1) mon::event("pairs of very different sizes"); mon::nontrivial();
}
MON_SUITE(large, 240, 9000) {
    switch (rng.below(8)) {
    case 0: case 1: big<int>(rng, "int"); break; case 2: big<unsigned long>(rng, "unsigned long"); break; case 3: big<char>(rng, "char"); break; case 4: big<bool>(rng, "bool"); break;
    case 5: big<double>(rng, "double"); break; case 6: big<std::string>(rng, "string"); break; default: if (rng.chance(1, 2)) big<std::vector<int>>(rng, "vector"); else big<int*>(rng, "pointer"); }
}
// lists of another element type to remove, and the operations in sequence, which must work on what the former ones left
MON_SUITE(other_lists, 60, 3000) {
    std::set<int> m; Set<long> s; Set<std::string> t; Set<double> d; for (size_t i = rng.below(60); i > 0; --i) { int x = static_cast<int>(rng.range(-40, 40)); m.insert(x); s.insert(x); t.insert(std::to_string(x)); d.insert(x); }
    std::vector<int> v; std::vector<std::string> w; std::vector<const char*> c; for (size_t i = rng.below(40); i > 0; --i) v.push_back(static_cast<int>(rng.range(-50, 50))); for (int x : v) w.push_back(std::to_string(x)); for (auto const& x : w) c.push_back(x.c_str());
    mon::log("remove %zu of %zu", v.size(), m.size()); Set<std::string> u(t); s.remove(v); d.remove(v); t.remove(w); u.remove(c); for (int x : v) m.erase(x);
    MON_CHECK(s.size() == m.size() && d.size() == m.size() && t.size() == m.size() && u.size() == m.size(), "other-list-size", "removing a list of another type leaves " << s.size() << ", " << d.size() << ", " << t.size() << " and " << u.size() << " elements, expected " << m.size());
    for (int x : m) MON_CHECK(s.contains(x) && d.contains(x) && t.contains(std::to_string(x)) && u.contains(std::to_string(x)), "other-list", "removing a list of another type loses " << x);
    mon::event("lists of another type"); mon::nontrivial();
}

int main(int argc, char** argv) {
    mon::install_probe_monitor();
    mon::require("pairs of the enumeration", 256); mon::require("disjoint pairs", 30); mon::require("nested pairs", 30); mon::require("overlapping pairs", 30); mon::require("aliasing arguments", 100); mon::require("history steps", 1000); mon::require("pairs of larger sets", 200); mon::require("pairs of sets of more than 256 elements", 4); mon::require("pairs of very different sizes", 10); mon::require("few elements and many", 15);
    return mon::main(argc, argv);
}
