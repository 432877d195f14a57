// C01: an Array holds exactly the sequence its history prescribes.  Oracle: a std::vector<int> per array.
#include <array>
#include "mon.hpp"
#include "probe.hpp"
#include <cmath>
#include <limits>
#include <list>
#include <memory>
#include <set>
#include <forward_list>
#include <deque>
#include <string>
#include "array.hpp"
#include "container.hpp"

using Helper::Array;
using mon::Rng;

template<class T> struct El;
template<> struct El<int> {
    static constexpr const char* N = "int"; static int dflt() { return 0; }
    static int make(int x) { return x; } static int val(int const& t) { return t; } };
template<> struct El<double> {
    static constexpr const char* N = "double"; static int dflt() { return 0; }
    static double make(int x) { return x * 0.5; } static int val(double const& t) { return static_cast<int>(t * 2); } };
template<> struct El<unsigned char> {
    static constexpr const char* N = "uchar"; static int dflt() { return 0; }
    static unsigned char make(int x) { return static_cast<unsigned char>(x); } static int val(unsigned char const& t) { return t; } };
template<> struct El<std::string> {
    static constexpr const char* N = "string"; static int dflt() { return -1; }
    static std::string make(int x) { return std::string(static_cast<size_t>(x % 40), 'x') + std::to_string(x); }
    static int val(std::string const& t) { size_t i = t.find_first_not_of('x'); return i == std::string::npos ? -1 : std::atoi(t.c_str() + i); } };
template<> struct El<mon::Probe> {
    static constexpr const char* N = "Probe"; static int dflt() { return mon::Probe::DEFAULT; }
    static mon::Probe make(int x) { return mon::Probe(x); } static int val(mon::Probe const& t) { return t.get(); } };
template<> struct El<mon::WideProbe> {
    static constexpr const char* N = "WideProbe"; static int dflt() { return mon::WideProbe::DEFAULT; }
    static mon::WideProbe make(int x) { return mon::WideProbe(x); } static int val(mon::WideProbe const& t) { return t.get(); } };
// a large element that may be copied byte by byte, and one that may not although it has no resources
struct Big { int x = -1; unsigned char pad[67] = {}; int y = -1; Big() = default; Big(int v) : x(v), y(v) { std::memset(pad, v & 0xFF, sizeof pad); } bool operator==(Big const& o) const { return x == o.x && y == o.y; } bool operator!=(Big const& o) const { return !(*this == o); }
    bool whole() const { if (x != y) return false; for (unsigned char c : pad) if (c != (x == -1 ? 0 : static_cast<unsigned char>(x & 0xFF))) return false; return true; } };
static_assert(std::is_trivially_copyable<Big>::value);
template<> struct El<Big> {
    static constexpr const char* N = "Big"; static int dflt() { return -1; }
    static Big make(int x) { return Big(x); } static int val(Big const& t) { return t.whole() ? t.x : -99; } };
struct Anchored { int x; Anchored const* self; Anchored(int v = -1) : x(v), self(this) {} Anchored(Anchored const& o) : x(o.x), self(this) {} Anchored& operator=(Anchored const& o) { x = o.x; return *this; } bool operator==(Anchored const& o) const { return x == o.x; } bool operator!=(Anchored const& o) const { return x != o.x; } };
template<> struct El<Anchored> {
    static constexpr const char* N = "Anchored"; static int dflt() { return -1; }
    static Anchored make(int x) { return Anchored(x); } static int val(Anchored const& t) { return t.self == &t ? t.x : -98; } };
// an array of arrays
template<> struct El<Array<int>> {
    static constexpr const char* N = "Array<int>"; static int dflt() { return -1; }
    static Array<int> make(int x) { Array<int> a(static_cast<size_t>(x % 5 + 1)); a.fill(x); return a; }
    static int val(Array<int> const& t) { if (t.size() == 0) return -1; for (int y : t) if (y != t[0]) return -2; return t[0]; } };

template<class T> struct World {
    static constexpr int K = 4;
    Array<T> a[K];
    std::vector<int> m[K];
    Rng& r;
    explicit World(Rng& rng) : r(rng) {}

    T make(int x) { return El<T>::make(x); }
    int rnd() { return static_cast<int>(r.below(100)); }
    size_t rsize() { return r.chance(1, 6) ? 0 : r.chance(1, 12) ? r.below(70) : r.chance(1, 40) ? r.edge(300) : r.below(9); }

    void check(int i, const char* where) {
        Array<T> const& c = a[i];
        MON_CHECK(c.size() == m[i].size(), std::string("size/") + where, El<T>::N << " after " << where << " size is " << c.size() << ", expected " << m[i].size());
        MON_CHECK(c.empty() == m[i].empty(), std::string("empty/") + where, "empty() is wrong after " << where);
        MON_CHECK(static_cast<size_t>(c.end() - c.begin()) == m[i].size(), std::string("iterators/") + where, "end()-begin() is wrong after " << where);
        for (size_t j = 0; j < m[i].size(); ++j)
            MON_CHECK(El<T>::val(c[j]) == m[i][j], std::string("content/") + where,
                      El<T>::N << " after " << where << " element " << j << " of " << m[i].size() << " is " << El<T>::val(c[j]) << ", expected " << m[i][j]);
        size_t j = 0;
        for (T const& x : c) {
            MON_CHECK(j < m[i].size() && &x == &c[j], std::string("iteration/") + where, "iteration does not visit element " << j << " in place after " << where);
            ++j;
        }
        MON_CHECK(j == m[i].size(), std::string("iteration/") + where, "iteration visits " << j << " elements");
        Array<T>& n = a[i];
        j = 0;
        for (T& x : n) { MON_CHECK(&x == &n[j], std::string("iteration/") + where, "mutable iteration differs"); ++j; }
        if (!m[i].empty()) {
            MON_CHECK(&c.front() == &c[0] && &n.front() == &n[0] && &c.back() == &c[m[i].size() - 1] && &n.back() == &n[m[i].size() - 1],
                      std::string("front-back/") + where, "front() or back() is not the first or last element");
        }
        mon::event("content checks");
    }
    void check_all(const char* where) { for (int i = 0; i < K; ++i) check(i, where); }
    // a moved-from array is valid, but its content is its own business: take it over
    void resync(int i) {
        m[i].clear();
        Array<T> const& c = a[i];
        for (size_t j = 0; j < c.size(); ++j) m[i].push_back(El<T>::val(c[j]));
    }
    std::vector<int> rnd_vals(size_t n) { std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(rnd()); return v; }
    std::vector<T> mk(std::vector<int> const& v) { std::vector<T> t; for (int x : v) t.push_back(make(x)); return t; }

    void step() {
        int i = static_cast<int>(r.below(K)), k = static_cast<int>(r.below(K));
        switch (r.below(27)) {
        case 0: { mon::log("a%d=A()", i); a[i] = Array<T>(); m[i].clear(); check_all("default-construct"); break; }
        case 1: { size_t n = rsize(); mon::log("a%d=A(%zu)", i, n); Array<T> t(n); a[i] = std::move(t); m[i].assign(n, El<T>::dflt()); check_all("construct(n)"); break; }
        case 2: { size_t n = rsize(); int x = rnd(); mon::log("a%d=A(%zu,%d)", i, n, x); T e = make(x); Array<T> t(n, e); a[i] = std::move(t); m[i].assign(n, x); check_all("construct(n,x)"); break; }
        case 3: { int x = rnd(), y = rnd(), z = rnd(); mon::log("a%d={%d,%d,%d}", i, x, y, z); Array<T> t = {make(x), make(y), make(z)}; a[i] = std::move(t); m[i] = {x, y, z}; check_all("construct{...}"); break; }
        case 4: { size_t n = rsize(); int x = rnd(); mon::log("a%d=A(%zu,gen %d)", i, n, x);
            std::vector<size_t> seen;
            Array<T> t(n, [&](size_t j) -> T { seen.push_back(j); return El<T>::make((x + static_cast<int>(j) * 3) % 100); });
            MON_CHECK(seen.size() == n, "generator/calls", "the generator is called " << seen.size() << " times for " << n << " elements");
            a[i] = std::move(t); m[i].clear(); for (size_t j = 0; j < n; ++j) m[i].push_back((x + static_cast<int>(j) * 3) % 100); check_all("construct(n,generator)"); break; }
        case 5: { auto v = rnd_vals(rsize()); mon::log("a%d=A(vec range %zu)", i, v.size()); auto tv = mk(v); Array<T> t(tv.begin(), tv.end()); a[i] = std::move(t); m[i] = v; check_all("construct(range)"); break; }
        case 6: { auto v = rnd_vals(rsize()); mon::log("a%d=A(list range %zu)", i, v.size()); auto tv = mk(v); std::list<T> l(tv.begin(), tv.end()); Array<T> t(l.begin(), l.end()); a[i] = std::move(t); m[i] = v; check_all("construct(list range)"); break; }
        case 7: { mon::log("a%d=copy a%d", i, k); Array<T> t(a[k]); a[i] = std::move(t); m[i] = m[k]; if (i != k) resync(k), m[k] = m[i]; check_all("copy-construct"); mon::event("copies"); break; }
        case 8: { mon::log("a%d=move a%d", i, k); std::vector<int> was = m[k]; Array<T> t(std::move(a[k])); resync(k);
            std::vector<int> got; for (size_t j = 0; j < t.size(); ++j) got.push_back(El<T>::val(t[j]));
            MON_CHECK(got == was, "content/move-construct", "moved array holds " << mon::show(got) << ", expected " << mon::show(was));
            a[i] = std::move(t); m[i] = was; check_all("move-construct"); mon::event("moves"); break; }
        case 9: case 10: { mon::log("a%d:=a%d", i, k); a[i] = a[k]; m[i] = m[k]; check_all("copy-assign"); mon::event(i == k ? "self copy assignments" : "copy assignments"); break; }
        case 11: case 12: { mon::log("a%d:=move a%d", i, k); std::vector<int> was = m[k]; Array<T>& s = a[k]; a[i] = std::move(s);
            if (i != k) { m[i] = was; check(i, "move-assign"); resync(k); } else { resync(k); MON_CHECK(m[k] == was, "content/self-move-assign", "self move assignment changes the array"); }
            check_all("move-assign"); mon::event(i == k ? "self move assignments" : "move assignments"); break; }
        case 13: { size_t n = rsize(); mon::log("a%d.resize(%zu)", i, n); a[i].resize(n); m[i].resize(n, El<T>::dflt()); check_all("resize(n)"); mon::event("resizes"); break; }
        case 14: { size_t n = rsize(); int x = rnd(); mon::log("a%d.resize(%zu,%d)", i, n, x); T e = make(x); a[i].resize(n, e); m[i].resize(n, x); check_all("resize(n,x)"); mon::event("resizes"); break; }
        case 15: { if (m[i].empty()) break; size_t n = rsize(), j = r.below(m[i].size()); int x = m[i][j]; mon::log("a%d.resize(%zu,a%d[%zu])", i, n, i, j);
            a[i].resize(n, a[i][j]); m[i].resize(n, x); check_all("resize(n,own element)"); mon::event("aliasing arguments"); break; }
        case 16: { size_t n = rsize(); mon::log("a%d.reallocate(%zu)", i, n); a[i].reallocate(n); if (n != m[i].size()) m[i].assign(n, El<T>::dflt()); check_all("reallocate"); break; }
        case 17: { int x = rnd(); mon::log("a%d.fill(%d)", i, x); T e = make(x); a[i].fill(e); for (int& y : m[i]) y = x; check_all("fill(x)"); break; }
        case 18: { if (m[i].empty()) break; size_t j = r.below(m[i].size()); int x = m[i][j]; mon::log("a%d.fill(a%d[%zu])", i, i, j); T const& e = a[i][j]; a[i].fill(e); for (int& y : m[i]) y = x; check_all("fill(own element)"); mon::event("aliasing arguments"); break; }
        case 19: { auto v = rnd_vals(m[i].size() + r.below(3)); mon::log("a%d.fill(iter)", i); auto tv = mk(v); a[i].fill(tv.begin()); v.resize(m[i].size()); m[i] = v; check_all("fill(iterator)"); break; }
        case 20: { auto v = rnd_vals(rsize()); mon::log("a%d.assign(range %zu)", i, v.size()); auto tv = mk(v);
            if (r.chance(1, 2)) { std::list<T> l(tv.begin(), tv.end()); a[i].assign(l.begin(), l.end()); } else { std::deque<T> l(tv.begin(), tv.end()); a[i].assign(l.begin(), l.end()); }
            m[i] = v; check_all("assign(range)"); break; }
        case 21: { mon::log("swap a%d a%d", i, k); a[i].swap(a[k]); std::swap(m[i], m[k]); check_all("swap"); break; }
        case 22: { if (m[i].empty()) break; size_t j = r.below(m[i].size()); int x = rnd(); mon::log("a%d[%zu]=%d", i, j, x);
            switch (r.below(4)) { case 0: a[i][j] = make(x); break; case 1: a[i].at(j) = make(x); break; case 2: *(a[i].begin() + static_cast<std::ptrdiff_t>(j)) = make(x); break;
                default: if (r.chance(1, 2)) { j = 0; a[i].front() = make(x); } else { j = m[i].size() - 1; a[i].back() = make(x); } }
            m[i][j] = x; check_all("element write"); mon::event("element writes"); break; }
        case 23: case 24: { size_t n = m[i].size(); size_t j = r.chance(1, 3) ? n + r.below(3) : r.chance(1, 8) ? static_cast<size_t>(-1) - r.below(2) : r.chance(1, 5) ? r.below(n + 1) + (static_cast<size_t>(r.range(1, 3)) << std::array<int, 7>{8, 16, 31, 32, 33, 48, 62}[r.below(7)]) : r.below(n + 2); mon::log("a%d.at(%zu)", i, j);
            Array<T> const& c = a[i]; const void* p = nullptr; const void* q = nullptr;
            auto o1 = mon::attempt([&] { p = &c.at(j); }); auto o2 = mon::attempt([&] { q = &a[i].at(j); });
            if (j < n) { MON_CHECK(o1 == mon::Outcome::returned && o2 == mon::Outcome::returned && p == &c[j] && q == &c[j], "at/in-range", "at(" << j << ") of " << n << " elements " << mon::name(o1) << "/" << mon::name(o2)); mon::event("at in range"); }
            else { MON_CHECK(o1 == mon::Outcome::threw_out_of_range && o2 == mon::Outcome::threw_out_of_range, "at/out-of-range", "at(" << j << ") of " << n << " elements " << mon::name(o1) << "/" << mon::name(o2)); mon::event("at out of range"); }
            check_all("at"); break; }
        default: { mon::log("a%d==a%d", i, k);
            Array<T> const& x = a[i]; Array<T> const& y = a[k]; bool e = (m[i] == m[k]);
            MON_CHECK((x == y) == e && (y == x) == e && (x != y) == !e && (y != x) == !e, "comparison", "comparison of " << mon::show(m[i]) << " and " << mon::show(m[k]) << " is wrong");
            // nearly equal arrays
            Array<T> z(x); std::vector<int> mz = m[i];
            MON_CHECK(z == x && !(z != x), "comparison/copy", "a copy does not equal its original");
            if (!mz.empty()) { size_t j = r.chance(1, 2) ? mz.size() - 1 : r.below(mz.size()); mz[j] = (mz[j] + 1) % 100; z[j] = make(mz[j]);
                bool eq = mz == m[i]; MON_CHECK((z == x) == eq && (z != x) == !eq, "comparison/one-element", "arrays which differ in element " << j << " of " << mz.size() << " compare as equal"); mon::event("unequal comparisons");
                Array<T> sh(x); sh.resize(mz.size() - 1); MON_CHECK(sh != x && !(sh == x) && !(x == sh), "comparison/prefix", "an array equals a proper prefix of it"); check_all("comparison"); }
            mon::event(e ? "equal comparisons" : "unequal comparisons"); check_all("comparison"); break; }
        }
    }
};

template<class T> void run_world(Rng& r) {
    World<T> w(r);
    mon::log("%s", El<T>::N);
    size_t steps = 10 + r.below(40);
    for (size_t i = 0; i < steps; ++i) { w.step(); mon::event("operations"); }
    mon::nontrivial();
}

MON_SUITE(ints, 500, 20000) { run_world<int>(rng); }
MON_SUITE(doubles, 150, 8000) { run_world<double>(rng); }
MON_SUITE(bytes, 150, 8000) { run_world<unsigned char>(rng); }
MON_SUITE(strings, 300, 15000) { run_world<std::string>(rng); }
MON_SUITE(probes, 400, 20000) { run_world<mon::Probe>(rng); }
MON_SUITE(wide, 150, 8000) { run_world<mon::WideProbe>(rng); }
MON_SUITE(bigs, 150, 8000) { run_world<Big>(rng); }
MON_SUITE(anchored, 100, 6000) { run_world<Anchored>(rng); }
MON_SUITE(nested, 200, 10000) { run_world<Array<int>>(rng); }

// sizes beyond a byte and beyond 16 bits
MON_SUITE(large, 6, 60) {
    static const size_t N[] = {65536, 257, 70001, 131072, 256, 65537};
    size_t n = N[mon::st().case_no % 6] + rng.below(3), m = n + 1 + rng.below(300);
    mon::log("large %zu %zu", n, m);
    std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = static_cast<int>(rng.next());
    auto same = [&](Array<int> const& x, std::vector<int> const& y, char const* w) {
        MON_CHECK(x.size() == y.size(), std::string("large/size/") + w, "an array of " << y.size() << " elements has size " << x.size());
        for (size_t i = 0; i < y.size(); ++i) MON_CHECK(x[i] == y[i], std::string("large/content/") + w, "element " << i << " of " << y.size() << " is wrong"); };
    Array<int> a(v.begin(), v.end()); same(a, v, "construct(range)");
    Array<int> b(a); same(b, v, "copy"); MON_CHECK(a == b, "large/equal", "copies differ");
    b[n - 1] ^= 1; MON_CHECK(a != b && b != a, "large/unequal", "arrays which differ in the last element are equal"); b = a; same(b, v, "copy-assign");
    a.resize(m); std::vector<int> w(v); w.resize(m); same(a, w, "resize(m)"); a.resize(n); same(a, v, "resize(n)"); a.resize(m, 9); w = v; w.resize(m, 9); same(a, w, "resize(m,x)");
    Array<int> c; c = std::move(a); same(c, w, "move-assign"); c.fill(4); same(c, std::vector<int>(m, 4), "fill"); c.assign(v.begin(), v.end()); same(c, v, "assign");
    Array<int> g(m, [](size_t i) { return static_cast<int>(i * 3); }); for (size_t i = 0; i < m; ++i) w[i] = static_cast<int>(i * 3); same(g, w, "generator");
    MON_CHECK(mon::attempt([&] { g.at(m); }) == mon::Outcome::threw_out_of_range && &g.at(m - 1) == &g[m - 1] && mon::attempt([&] { g.at(m + 65536); }) == mon::Outcome::threw_out_of_range, "large/at", "checked access is wrong");
    Array<double> d(g); MON_CHECK(d.size() == m && d[m - 1] == static_cast<double>(w[m - 1]), "large/convert", "conversion is wrong");
    g.swap(c); same(c, w, "swap"); same(g, v, "swap");
    std::vector<size_t> in, out; for (size_t i = 0; i < m; ++i) (rng.chance(1, 3) ? in : out).push_back(i);
    Array<size_t> cm = Helper::complement(m, Array<size_t>(in.begin(), in.end())); MON_CHECK(cm.size() == out.size() && std::equal(out.begin(), out.end(), cm.begin()), "large/complement", "complement is wrong");
    mon::event("large arrays"); mon::nontrivial();
}

// conversions between element types
struct From { int a; };
struct ImplicitTo { int b; ImplicitTo(From const& f) : b(f.a + 1) {} ImplicitTo(int x) : b(x) {} };
struct ExplicitTo { int b; explicit ExplicitTo(From const& f) : b(f.a + 2) {} explicit ExplicitTo(int x) : b(x) {} };
struct Prec { int p; bool gone = false; Prec(int q) : p(q) {} Prec(Prec const&) = default; Prec(Prec&& o) : p(o.p) { o.p = -77; o.gone = true; } };
struct WithPrec { double x = 0; int p = 0; WithPrec() = default; WithPrec(double v, Prec q) : x(v), p(q.p) {} WithPrec(From const& f, Prec q) : x(f.a), p(q.p) {} };

// elements which can be made with and without the parameter
struct MaybePrec { double x = -1; int p = -5; MaybePrec() = default; MaybePrec(double v) : x(v) {} MaybePrec(From const& f) : x(f.a) {} MaybePrec(double v, Prec q) : x(v), p(q.p) {} MaybePrec(From const& f, Prec q) : x(f.a), p(q.p) {} };

MON_SUITE(conversions, 400, 20000) {
    size_t n = rng.chance(1, 6) ? 0 : rng.below(20);
    std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(static_cast<int>(rng.range(-1000, 1000)));
    int p = static_cast<int>(rng.below(50));
    mon::log("n=%zu v0=%d p=%d h=%llu", n, n ? v[0] : 0, p, static_cast<unsigned long long>(mon::hash_bytes(reinterpret_cast<char*>(v.data()), n * sizeof(int))));
    Array<int> ai(v.begin(), v.end());
    Array<double> ad(ai);
    Array<double> ac = ai;  // implicit
    std::vector<From> fv; for (int x : v) fv.push_back(From{x});
    Array<From> af(fv.begin(), fv.end());
    Array<ImplicitTo> aim = af;
    Array<ExplicitTo> aex(af);
    Array<WithPrec> awp(af, Prec{p});
    Array<WithPrec> alp({1.5, 2.5, v.empty() ? 0. : v[0] * 0.25}, Prec{p});
    Array<MaybePrec> amp(af, Prec{p}), amn(af), aml({0.5, 1.5, -2.0}, Prec{p}), amk = {0.5, 1.5};
    MON_CHECK(amp.size() == n && amn.size() == n && aml.size() == 3 && amk.size() == 2, "conversion/size", "a converted array has the wrong size");
    for (size_t i = 0; i < n; ++i) MON_CHECK(amp[i].x == v[i] && amp[i].p == p && amn[i].x == v[i] && amn[i].p == -5, "conversion/given-parameter", "element " << i << " has parameter " << amp[i].p << " (given " << p << ") and " << amn[i].p << " (given none)");
    MON_CHECK(aml[0].x == 0.5 && aml[2].x == -2.0 && aml[0].p == p && aml[1].p == p && aml[2].p == p && amk[1].x == 1.5 && amk[1].p == -5, "conversion/given-parameter", "an array of a list of doubles and a parameter has elements without it");
    std::vector<double> dv; for (int x : v) dv.push_back(rng.chance(1, 4) ? x * 1.1 : rng.chance(1, 8) ? 1e300 * x : rng.real());
    double d0 = rng.real() * 1e5, d1 = 16777217.0 + static_cast<double>(rng.below(100)) * 2;
    Array<WithPrec> alq({d0, d1, 0.1}, Prec{p}); Array<double> adv(dv.begin(), dv.end()); Array<WithPrec> adp(adv, Prec{p}); Array<float> afl(adv); Array<double> back(afl);
    MON_CHECK(alq.size() == 3 && alq[0].x == d0 && alq[1].x == d1 && alq[2].x == 0.1 && alq[0].p == p && alq[2].p == p, "conversion/list-parameter", "an array from a list of doubles such as " << d0 << " and a parameter is wrong");
    MON_CHECK(adp.size() == n && afl.size() == n, "conversion/size", "a converted array has the wrong size");
    for (size_t i = 0; i < n; ++i) MON_CHECK(adp[i].x == dv[i] && adp[i].p == p && afl[i] == static_cast<float>(dv[i]) && back[i] == static_cast<double>(afl[i]), "conversion/precision", "the double " << dv[i] << " is converted to " << adp[i].x << " and " << afl[i]);
    Array<std::string> as(n, std::string("q"));
    MON_CHECK(ad.size() == n && ac.size() == n && aim.size() == n && aex.size() == n && awp.size() == n, "conversion/size", "a converted array has the wrong size");
    for (size_t i = 0; i < n; ++i) {
        MON_CHECK(ad[i] == v[i] && ac[i] == v[i], "conversion/implicit", "element " << i << " converts to " << ad[i] << ", expected " << v[i]);
        MON_CHECK(aim[i].b == v[i] + 1, "conversion/implicit-class", "element " << i << " is not converted");
        MON_CHECK(aex[i].b == v[i] + 2, "conversion/explicit", "element " << i << " is not converted");
        MON_CHECK(awp[i].x == v[i] && awp[i].p == p, "conversion/parameter", "element " << i << " is " << awp[i].x << " with parameter " << awp[i].p);
        MON_CHECK(ai[i] == v[i], "conversion/source", "conversion changes the source");
    }
    MON_CHECK(alp.size() == 3 && alp[0].x == 1.5 && alp[1].x == 2.5 && alp[2].x == (v.empty() ? 0. : v[0] * 0.25) && alp[1].p == p && alp[2].p == p, "conversion/list-parameter", "an array from a list of doubles and a parameter is wrong");
    if (n) { ad[0] = 1e9; MON_CHECK(ai[0] == v[0], "conversion/independent", "a converted array shares its source's elements"); }
    mon::event("conversions"); mon::nontrivial();
}

// index complement
MON_SUITE(complements, 400, 20000) {
    size_t nmax = rng.chance(1, 10) ? rng.edge(1100) : rng.below(24); std::vector<size_t> in; std::vector<size_t> out;
    unsigned d = static_cast<unsigned>(rng.range(0, 6)); bool runs = rng.chance(1, 3);
    for (size_t i = 0; i < nmax; ++i) { if (runs && rng.chance(1, 8)) d = 6 - d; if (rng.chance(d, 6)) in.push_back(i); else out.push_back(i); }
    mon::log("complement(%zu,%s)", nmax, mon::show(in).c_str());
    Array<size_t> vars(in.begin(), in.end());
    Array<size_t> c = Helper::complement(nmax, vars);
    std::vector<size_t> got(c.begin(), c.end());
    MON_CHECK(got == out, "complement", "complement of " << mon::show(in) << " in " << nmax << " is " << mon::show(got) << ", expected " << mon::show(out));
    mon::event("complements"); mon::nontrivial();
}

// values which are equal without looking alike, or look alike without being equal
struct Padded { char a; int b; Padded(int x = 0) { std::memset(static_cast<void*>(this), static_cast<int>(x & 0x7F), sizeof *this); a = static_cast<char>(x); b = x; } Padded(char p, int x) { std::memset(static_cast<void*>(this), p, sizeof *this); a = static_cast<char>(x); b = x; } bool operator==(Padded const& o) const { return a == o.a && b == o.b; } };
struct Modulo { int x; bool operator==(Modulo const& o) const { return (x - o.x) % 7 == 0; } bool operator!=(Modulo const& o) const { return !(*this == o); } };
template<class T> void equalities(Rng& r, std::vector<T> const& values, char const* what) {
    size_t n = r.chance(1, 8) ? r.edge(130) : r.below(5); std::vector<T> v, w; for (size_t i = 0; i < n; ++i) { v.push_back(r.pick(values)); w.push_back(r.chance(3, 4) ? v.back() : r.pick(values)); } if (r.chance(1, 8) && n) w.pop_back();
    Array<T> a(v.begin(), v.end()), b(w.begin(), w.end()); bool same = v.size() == w.size(), self = true; for (size_t i = 0; i < v.size(); ++i) { if (i < w.size() && !(v[i] == w[i])) same = false; if (!(v[i] == v[i])) self = false; }
    Array<T> const& c = a; Array<T> copy(a); mon::log("%s %zu %d%d", what, n, same, self);
    MON_CHECK((a == b) == same && (b == a) == same && (a != b) == !same && (b != a) == !same, "comparison/values", "arrays of " << what << " whose elements are " << (same ? "pairwise equal" : "not pairwise equal") << " compare otherwise");
    MON_CHECK((a == c) == self && (a != c) == !self && (a == copy) == self && (copy != a) == !self, "comparison/self", "an array of " << what << (self ? "" : " which are not equal to themselves") << " compares otherwise to itself or its copy");
    if (!self) mon::event("values not equal to themselves"); mon::event("value comparisons"); mon::nontrivial();
}
template<class T> void kept(Rng& r, std::vector<T> const& values, char const* what) {  // what is stored is the very value, whatever it is equal to
    size_t n = 1 + (r.chance(1, 8) ? r.edge(130) : r.below(5)); T const x = r.pick(values), y = r.pick(values); std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(r.pick(values)); mon::log("kept %s %zu", what, n);
    auto alike = [](T const& p, T const& q) { return std::memcmp(&p, &q, std::min<size_t>(sizeof(T), 8)) == 0; }; auto all = [&](Array<T> const& a, auto const& want, char const* op) { MON_CHECK(a.size() == n, "kept/size", "size after " << op); for (size_t i = 0; i < n; ++i) MON_CHECK(alike(a[i], want(i)), "kept/value", "element " << i << " of an array of " << what << " is not the value given to " << op); };
    auto same = [&](size_t) { return x; }; auto other = [&](size_t) { return y; }; auto each = [&](size_t i) { return v[i]; };
    Array<T> a(n, y); all(a, other, "construction"); a.fill(x); all(a, same, "fill"); a.fill(v.begin()); all(a, each, "fill with a sequence"); a.assign(v.begin(), v.end()); all(a, each, "assign"); Array<T> b(a), c, d(v.begin(), v.end()), e(n, [&](size_t i) { return v[i]; }); all(b, each, "copying"); all(d, each, "construction from a sequence"); all(e, each, "generation"); c = a; all(c, each, "copy assignment"); Array<T> g(n, x); g = a; all(g, each, "copy assignment"); Array<T> h(std::move(b)); all(h, each, "moving");
    h.resize(n + 2); h.resize(n); all(h, each, "resizing"); Array<T> k(n); for (size_t i = 0; i < n; ++i) k[i] = x; all(k, same, "element assignment"); k.fill(y); all(k, other, "fill"); mon::event("values kept");
}
MON_SUITE(values, 300, 10000) {
    kept<double>(rng, {0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::quiet_NaN()}, "double"); kept<float>(rng, {0.0f, -0.0f, 1.0f, std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::infinity()}, "float"); kept<long long>(rng, {0, -1, 1, 0x0101010101010101LL, 0x01010101LL, 1LL << 32}, "long"); kept<short>(rng, {0, -1, 0x0101, 0x0100, 1}, "short");
    double nan = std::numeric_limits<double>::quiet_NaN(); equalities<double>(rng, {0.0, -0.0, 1.0, rng.chance(1, 2) ? nan : 2.0, std::numeric_limits<double>::infinity()}, "double"); equalities<float>(rng, {0.0f, -0.0f, 1.0f, rng.chance(1, 2) ? static_cast<float>(nan) : 2.0f}, "float");
    equalities<Padded>(rng, {Padded('a', 1), Padded('b', 1), Padded('c', 2)}, "padded"); equalities<Modulo>(rng, {{0}, {7}, {1}, {-6}, {14}}, "residues"); static char x[] = "text", y[] = "text"; equalities<char*>(rng, {x, y, x + 1}, "pointers"); equalities<std::string>(rng, {"", std::string(1, '\0'), std::string("a\0b", 3), "a"}, "strings"); equalities<bool>(rng, {true, false}, "bool");
}
// conversions between numbers change their representation
template<class To, class From> void convert(Rng& r, std::vector<From> const& values, char const* what) {
    size_t n = r.chance(1, 6) ? r.edge(70) : r.below(6); std::vector<From> v; for (size_t i = 0; i < n; ++i) v.push_back(r.pick(values)); Array<From> a(v.begin(), v.end()); Array<To> b(a); Array<To> d = a; Array<To> e(v.begin(), v.end()); Array<To> g(n); g.fill(v.begin()); Array<To> h(1); h.assign(v.begin(), v.end()); mon::log("%s %zu", what, n);
    MON_CHECK(b.size() == n && d.size() == n && e.size() == n && h.size() == n, "conversion/size", "a converted array has another size");
    for (size_t i = 0; i < n; ++i) { To w = static_cast<To>(v[i]); MON_CHECK(b[i] == w && d[i] == w && e[i] == w && g[i] == w && h[i] == w, "conversion/numbers", "element " << i << " is not converted from " << what); } mon::event("conversions"); mon::nontrivial();
}
MON_SUITE(number_conversions, 100, 4000) {
    convert<float, int>(rng, {0, 1, -1, 1 << 30, 7}, "int to float"); convert<int, float>(rng, {0.5f, -1.75f, 3e8f}, "float to int"); convert<int, unsigned>(rng, {0u, 5u, ~0u}, "unsigned to int"); convert<bool, int>(rng, {0, 1, 2, 256, -1}, "int to bool"); convert<bool, signed char>(rng, {0, 1, 2, -1, 64}, "small numbers to bool"); convert<bool, unsigned char>(rng, {0, 1, 2, 128, 255}, "bytes to bool"); convert<unsigned, int>(rng, {0, -1, 77}, "int to unsigned"); convert<double, unsigned long>(rng, {0ul, ~0ul, 1ul << 63, 5ul}, "unsigned long to double"); convert<unsigned char, int>(rng, {0, 255, 256, -1, 300}, "int to byte");
    convert<long, int>(rng, {0, -1, std::numeric_limits<int>::min()}, "int to long"); convert<double, long>(rng, {0L, 1L << 60, -1L}, "long to double"); convert<std::string, char const*>(rng, {"", "a", "longer than the short strings"}, "text to string"); convert<long, bool>(rng, {true, false}, "bool to long"); convert<double, char>(rng, {'a', '\0', '\377'}, "char to double");
}
// elements which can only be moved, and every way of giving elements
MON_SUITE(moves_only, 80, 3000) {
    typedef std::unique_ptr<int> P; size_t n = rng.chance(1, 6) ? rng.edge(70) : rng.below(7); mon::log("%zu", n); Array<P> a(n, [](size_t i) { return std::make_unique<int>(static_cast<int>(i)); }); auto whole = [&](Array<P> const& x, char const* w) { MON_CHECK(x.size() == n, "moves-only/size", "size after " << w); for (size_t i = 0; i < n; ++i) MON_CHECK(x[i] && *x[i] == static_cast<int>(i) && &x.at(i) == x.begin() + i, "moves-only/content", "element " << i << " after " << w); };
    whole(a, "generation"); std::vector<int*> where; for (auto& p : a) where.push_back(p.get()); Array<P> b(std::move(a)); whole(b, "move"); Array<P> c(rng.below(4)); c = std::move(b); whole(c, "move assignment"); Array<P> d; d.swap(c); whole(d, "swap"); MON_CHECK(c.empty() && !(c != Array<P>()), "moves-only/swapped", "an array swapped with an empty one is not empty"); for (size_t i = 0; i < n; ++i) MON_CHECK(d[i].get() == where[i], "moves-only/same", "elements are not the same after moves");
    if (n) { *d[n - 1] += 1; d.back() = std::make_unique<int>(static_cast<int>(n - 1)); whole(d, "element assignment"); } d.reallocate(n + 1); for (auto& p : d) MON_CHECK(!p, "moves-only/reallocate", "reallocated elements are not empty"); mon::event("moves only"); mon::nontrivial();
}
template<class T> void lists(Rng& r, std::initializer_list<T> l) { Array<T> a = l; Array<T> b(l); std::vector<T> v(l); std::set<T> st(l); std::forward_list<T> fl(l); Array<T> c(st.begin(), st.end()), d(fl.begin(), fl.end()), e(v.rbegin(), v.rend()), f(l.begin(), l.end()); MON_CHECK(a.size() == l.size() && b == a && d == a && f == a && e.size() == l.size() && c.size() == st.size(), "list/size", "an array of a list of " << l.size() << " elements has size " << a.size()); for (size_t i = 0; i < v.size(); ++i) MON_CHECK(a[i] == v[i] && e[i] == v[v.size() - 1 - i], "list/content", "element " << i << " of " << l.size() << " is wrong"); MON_CHECK(std::equal(st.begin(), st.end(), c.begin()), "list/content", "an array of a set differs"); Array<T> g(r.below(3)); g = l; MON_CHECK(g == a, "list/assign", "assigning a list gives another array"); g.assign(fl.begin(), fl.end()); MON_CHECK(g == a, "list/assign-range", "assigning a range gives another array"); g.resize(0); MON_CHECK(g.empty() && g.begin() == g.end() && g != Array<T>(1), "list/empty", "an emptied array is not empty"); mon::event("lists"); }
MON_SUITE(list_elements, 40, 1000) {
    auto x = [&] { return static_cast<int>(rng.below(90)); }; auto s = [&] { return El<std::string>::make(x()); }; mon::nontrivial(); mon::log("%llu", static_cast<unsigned long long>(rng.s));
    lists<int>(rng, {}); lists<int>(rng, {x()}); lists<int>(rng, {x(), x()}); lists<int>(rng, {x(), x(), x(), x(), x(), x(), x(), x(), x()}); lists<int>(rng, {x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x(), x()});
    lists<std::string>(rng, {}); lists<std::string>(rng, {s()}); lists<std::string>(rng, {s(), s(), s(), s(), s()}); lists<bool>(rng, {true, false, true}); lists<double>(rng, {0.5, 1.5}); lists<char>(rng, {'a', 'b', '\0', 'c'}); lists<size_t>(rng, {3, 5}); lists<size_t>(rng, {7}); lists<long double>(rng, {1.0L, 2.0L, 3.0L, 4.0L});
}
// uninitialised storage, filled by the user
MON_SUITE(uninitialised, 100, 2000) {
    size_t n = rng.below(20); mon::log("uninitialised %zu", n);
    Array<mon::Probe> a(n, Helper::Uninitialised());
    MON_CHECK(a.size() == n, "uninitialised/size", "wrong size");
    for (size_t i = 0; i < n; ++i) new (a.begin() + i) mon::Probe(static_cast<int>(i));
    for (size_t i = 0; i < n; ++i) MON_CHECK(a[i].get() == static_cast<int>(i), "uninitialised/content", "wrong content");
    Array<mon::Probe> b(a); MON_CHECK(b == a, "uninitialised/copy", "copy differs");
    mon::nontrivial();
}

int main(int argc, char** argv) {
    mon::install_probe_monitor();
    mon::require("copy assignments", 200); mon::require("self copy assignments", 50); mon::require("move assignments", 200); mon::require("self move assignments", 50);
    mon::require("aliasing arguments", 200); mon::require("at out of range", 100); mon::require("unequal comparisons", 200); mon::require("conversions", 50); mon::require("complements", 50); mon::require("values not equal to themselves", 20); mon::require("value comparisons", 500); mon::require("moves only", 50); mon::require("lists", 200);
    return mon::main(argc, argv);
}
