// C04: an LRUCache holds exactly the most recently put or got labels, with their values and ages.
// Oracle: a list of labels in order of recency.
#include "mon.hpp"
#include "probe.hpp"
#include <memory>
#include <string>
#include "string.hpp"
#include "lru_cache.hpp"

using Helper::LRUCache;
using mon::Rng;

template<class T> struct El { static T make(int x) { return T(x); } };
template<> struct El<std::string> { static std::string make(int x) { return "label" + std::to_string(x * 7919 % 1000003) + std::string(static_cast<size_t>(x % 30), 'z'); } };
template<> struct El<Helper::String> { static Helper::String make(int x) { return Helper::String(El<std::string>::make(x)); } };
template<> struct El<std::pair<int, int>> { static std::pair<int, int> make(int x) { return {x % 3, -x}; } };
// an ordering which is not that of the construction
struct Rev { int x; Rev(int y) : x(y) {} friend bool operator<(Rev const& a, Rev const& b) { return a.x * 37 % 101 > b.x * 37 % 101; } friend std::ostream& operator<<(std::ostream& os, Rev const& r) { return os << "R" << r.x; } };

template<class L> struct Lab { static L make(int x) { return El<L>::make(x); } };
template<> struct Lab<std::pair<int, int>> { static std::pair<int, int> make(int x) { return {x % 3, -x}; } };
namespace std { inline ostream& operator<<(ostream& os, pair<int, int> const& p) { return os << p.first << "/" << p.second; } }

struct Model {
    size_t cap; std::vector<std::pair<int, int>> q;  // most recent first: (label, value)
    int find(int l) const { for (size_t i = 0; i < q.size(); ++i) if (q[i].first == l) return static_cast<int>(i); return -1; }
    void use(int i) { auto e = q[static_cast<size_t>(i)]; q.erase(q.begin() + i); q.insert(q.begin(), e); }
    void put(int l, int v) { if (q.size() == cap) q.pop_back(); q.insert(q.begin(), {l, v}); }
    std::string str() const { std::ostringstream os; for (auto& e : q) os << e.first << ":" << e.second << " "; return os.str(); }
};

template<class L, class V> struct Sim {
    typedef LRUCache<L, V> C;
    C c; Model m; int universe;
    Sim(size_t cap, int u) : c(cap), m{cap, {}}, universe(u) {}
    Sim(Sim const& o) = default;
    // Everything that can be observed without using an entry
    void check(const char* where) {
        MON_CHECK(c.current_size() == m.q.size(), std::string("size/") + where, "current_size() is " << c.current_size() << ", expected " << m.q.size() << " with " << m.str());
        MON_CHECK(c.maximum_size() == m.cap, std::string("maximum-size/") + where, "maximum_size() is " << c.maximum_size() << ", expected " << m.cap);
        for (int l = 0; l < universe; ++l) {
            L lab = Lab<L>::make(l); int i = m.find(l);
            bool has = c.has_label(lab);
            MON_CHECK(has == (i >= 0), std::string("held-labels/") + where, "has_label(" << l << ") is " << has << "; most recent first the cache should hold " << m.str());
            if (i >= 0) { size_t g = c.age(lab); MON_CHECK(g == static_cast<size_t>(i), std::string("age/") + where, "age(" << l << ") is " << g << ", expected " << i << " with " << m.str()); }
        }
        mon::event("full comparisons");
    }
    void get(int l) {
        int i = m.find(l); if (i < 0) return;
        V const& v = c.get(Lab<L>::make(l)); int e = m.q[static_cast<size_t>(i)].second;
        MON_CHECK(v == El<V>::make(e), "value/get", "get(" << l << ") does not give the value put last; " << m.str());
        m.use(i); mon::event(i == 0 ? "gets of the most recent label" : static_cast<size_t>(i) + 1 == m.q.size() ? "gets of the least recent label" : "gets in between");
    }
    void put(int l, int v) {
        if (m.find(l) >= 0) return;
        bool full = m.q.size() == m.cap;
        c.put(Lab<L>::make(l), El<V>::make(v)); m.put(l, v); mon::event(full ? "evictions" : "puts into free space");
    }
};

template<class L, class V> void history(Rng& r) {
    size_t cap = r.chance(1, 8) ? 1 : r.chance(1, 10) ? 20 + r.below(30) : 1 + r.below(8);
    int u = static_cast<int>(cap) + 1 + static_cast<int>(r.below(cap + 3));
    std::vector<std::unique_ptr<Sim<L, V>>> s;
    s.emplace_back(new Sim<L, V>(cap, u));
    mon::log("capacity %zu labels %d", cap, u);
    s[0]->check("construction");
    int steps = 10 + static_cast<int>(r.below(60)), serial = 0;
    for (int i = 0; i < steps; ++i) {
        size_t w = r.below(s.size()); auto& x = *s[w]; int l = static_cast<int>(r.below(static_cast<uint64_t>(u)));
        // prefer effective operations, and touch the extremes of the recency order often
        switch (r.below(8)) {
        case 0: case 1: case 2: { for (int t = 0; t < u && x.m.find(l) >= 0; ++t) l = (l + 1) % u; if (x.m.find(l) >= 0) break; mon::log("%zu.put(%d,%d)", w, l, ++serial); x.put(l, serial); x.check("put"); break; }
        case 3: case 4: { if (!x.m.q.empty()) l = r.chance(1, 3) ? x.m.q.back().first : x.m.q[r.below(x.m.q.size())].first; mon::log("%zu.get(%d)", w, l); x.get(l); x.check("get"); break; }
        case 5: { mon::log("%zu queries", w); x.check("queries"); x.check("queries"); break; }
        case 6: { if (x.m.q.empty()) break; l = x.m.q[0].first; mon::log("%zu.get(%d)x2", w, l); x.get(l); x.get(l); x.check("repeated get"); break; }
        default: { if (s.size() < 3 && r.chance(1, 4)) { mon::log("copy %zu", w); s.emplace_back(new Sim<L, V>(x)); s.back()->check("copy"); mon::event("copies"); }
                else if (s.size() > 1 && r.chance(1, 4)) { size_t o = r.below(s.size()); mon::log("%zu:=%zu", w, o); auto& y = *s[o]; if (r.chance(1, 2)) { x.c = y.c; x.m = y.m; } else { Sim<L, V> t(y); x.c = std::move(t.c); x.m = t.m; } x.check("assignment"); y.check("assignment"); }
                break; }
        }
        if (s.size() > 1) for (auto& y : s) y->check("independence of copies");
        mon::event("steps");
    }
    for (auto& y : s) { std::vector<std::pair<int, int>> all = y->m.q; for (auto& e : all) y->get(e.first); y->check("final gets"); }
    mon::nontrivial();
}
MON_SUITE(int_int, 350, 30000) { history<int, int>(rng); }
MON_SUITE(string_string, 250, 12000) { history<std::string, std::string>(rng); }
MON_SUITE(hstring_probe, 200, 10000) { history<Helper::String, mon::Probe>(rng); }
MON_SUITE(rev_string, 200, 10000) { history<Rev, std::string>(rng); }
MON_SUITE(probe_int, 200, 10000) { history<mon::Probe, int>(rng); }
MON_SUITE(pair_double, 150, 8000) { history<std::pair<int, int>, double>(rng); }

// capacities beyond a byte
MON_SUITE(large, 3, 60) {
    static const size_t CAPS[] = {257, 130, 300, 513, 128, 255, 256, 1025};
    size_t cap = CAPS[mon::st().case_no % 8]; int u = static_cast<int>(cap) + 40;
    Sim<int, int> s(cap, u); mon::log("large capacity %zu", cap);
    int l = 0;
    for (; l < static_cast<int>(cap) + 5; ++l) s.put(l, l + 7);
    s.check("large: fill");
    for (int i = 0; i < 60; ++i) {
        if (rng.chance(1, 2)) { size_t k = rng.chance(1, 3) ? cap - 1 - rng.below(3) : rng.below(cap); s.get(s.m.q[k].first); }
        else { int x = static_cast<int>(rng.below(static_cast<uint64_t>(u))); s.put(x, i); }
        if (i % 15 == 14) s.check("large: history");
    }
    auto all = s.m.q; for (auto& e : all) s.get(e.first);
    s.check("large: all gets"); mon::event("large capacities"); mon::nontrivial();
}

// more uses than small counters hold, and capacities which are never reached
MON_SUITE(long_runs, 2, 20) {
    size_t cap = 2 + rng.below(5); int u = static_cast<int>(cap) + 2; Sim<int, int> s(cap, u); mon::log("long run, capacity %zu", cap); int hot = -1;
    for (int i = 0; i < 140000; ++i) {
        int l = static_cast<int>(rng.below(static_cast<uint64_t>(u)));
        // in long phases one entry stays the least recent while the others are used over and over
        if (i % 70000 < 66000 && i > 100) { if (hot < 0) hot = s.m.q.back().first; if (s.m.find(l) < 0 || l == hot) l = s.m.q[rng.below(s.m.q.size() - 1)].first; } else hot = -1;
        if (s.m.find(l) >= 0) { int k = s.m.find(l); int const& v = s.c.get(l); MON_CHECK(v == s.m.q[static_cast<size_t>(k)].second, "value/get", "get gives another value in a long run"); s.m.use(k); }
        else { s.c.put(l, i); s.m.put(l, i); }
        if (i % 5000 == 4999 || (i % 70000 > 65990 && i % 70000 < 66020)) s.check("long run");
    }
    mon::event("long runs"); mon::nontrivial();
}
#ifdef NDEBUG
MON_SUITE(very_large, 1, 2) {  // ages beyond two bytes
    int n = 65540 + static_cast<int>(rng.below(200)); size_t cap = static_cast<size_t>(n) + (mon::st().case_no % 2 ? 50 : 0); mon::log("%d entries", n); Helper::LRUCache<int, int> c(cap); for (int i = 0; i < n; ++i) c.put(i, i + 1); MON_CHECK(c.current_size() == static_cast<size_t>(n), "size/very large", "a cache of " << n << " entries has " << c.current_size());
    for (int i = 0; i < n; ++i) MON_CHECK(c.age(i) == static_cast<size_t>(n - 1 - i), "age/very large", "after putting " << n << " labels the one put as number " << i << " has age " << c.age(i));
    MON_CHECK(c.get(0) == 1 && c.age(0) == 0 && c.age(1) == static_cast<size_t>(n - 1) && c.age(n - 1) == 1, "age/very large", "after getting the least recent of " << n << " labels the ages are " << c.age(0) << ", " << c.age(1)); c.put(n, 5);
    MON_CHECK(c.has_label(1) == (cap > static_cast<size_t>(n)) && c.has_label(0) && c.age(n) == 0 && c.age(0) == 1 && c.age(2) == static_cast<size_t>(n - 1), "eviction/very large", "putting into a cache of " << n << " entries"); mon::event("very large caches"); mon::nontrivial();
}
#endif
MON_SUITE(huge_capacities, 8, 40) {
    size_t cap = std::vector<size_t>{~size_t(0), ~size_t(0) / 2, ~size_t(0) / 2 + 1, size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 31), 65536, 100000}[mon::st().case_no % 8]; int u = 30; Sim<int, int> s(cap, u); mon::log("capacity %zu", cap);
    for (int i = 0; i < 60; ++i) { int l = static_cast<int>(rng.below(25)); if (s.m.find(l) >= 0) s.get(l); else s.put(l, i); s.check("huge capacity"); } mon::event("huge capacities"); mon::nontrivial();
}

// All histories of d operations (get or put of each of cap+2 labels) of a cache of capacity cap; case number = history
template<int CAP> void exhaustive(uint64_t h, int d) {
    constexpr int U = CAP + 2;
    Sim<int, int> s(CAP, U);
    mon::log("capacity %d history %llu of length %d", CAP, static_cast<unsigned long long>(h), d);
    for (int i = 0; i < d; ++i) {
        int l = static_cast<int>(h % U); h /= U;
        if (s.m.find(l) >= 0) s.get(l); else s.put(l, 100 + i);
        s.check("exhaustive history");
    }
    mon::event("exhaustive histories"); mon::nontrivial();
}
MON_SUITE(exhaustive_1, 243, 2187) { exhaustive<1>(mon::st().case_no, mon::st().thorough ? 7 : 5); }
MON_SUITE(exhaustive_2, 1024, 16384) { exhaustive<2>(mon::st().case_no, mon::st().thorough ? 7 : 5); }
MON_SUITE(exhaustive_3, 3125, 78125) { exhaustive<3>(mon::st().case_no, mon::st().thorough ? 7 : 5); }

int main(int argc, char** argv) {
    mon::install_probe_monitor();
    mon::require("evictions", 500); mon::require("gets of the least recent label", 500); mon::require("gets in between", 500); mon::require("copies", 50); mon::require("full comparisons", 5000); mon::require("long runs", 2); mon::require("huge capacities", 8);
    return mon::main(argc, argv);
}
