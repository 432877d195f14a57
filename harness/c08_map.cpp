// C08: Map look-ups, merging and restriction.  Oracle: an association of small integers.
#include "mon.hpp"
#include "probe.hpp"
#include <string>
#include <algorithm>
#include <climits>
#include <cmath>
#include <map>
#include <array>
#include <cstdlib>
#include <iostream>
#include "container.hpp"

using Helper::Map; using Helper::Set; using Helper::List;
using mon::Probe; using mon::Rng;

struct Ordered { int x; explicit Ordered(int y) : x(y) {} friend bool operator<(Ordered const& a, Ordered const& b) { return a.x * 7 % 17 < b.x * 7 % 17; } };
template<class K> K key(int i) { return K(i); }
template<> std::string key<std::string>(int i) { return std::string(static_cast<size_t>(i * 5 % 16), 'k') + std::to_string(i * 37 % 100); }
template<class K> int ix(K const& t) { for (int i = 0; i < 17; ++i) { K e = key<K>(i); if (!(e < t) && !(t < e)) return i; } return -1; }
template<> int ix<Probe>(Probe const& t) { return t.get(); }
template<class V> V mk(int x) { return V(x); }
template<> std::string mk<std::string>(int x) { return std::string(20, 'v') + std::to_string(x); }
template<class V> int val(V const& v) { return static_cast<int>(v); }
template<> int val<Probe>(Probe const& v) { return v.get(); }
template<> int val<std::string>(std::string const& v) { return v.empty() ? 0 : std::atoi(v.c_str() + 20); }
template<class V> int dflt() { return 0; }
template<> int dflt<Probe>() { return Probe::DEFAULT; }
typedef std::array<int, 16> Model;  // -1: no such key
constexpr int NO = -1;

template<class K, class V> struct World {
    typedef Map<K, V> M;
    M a[3]; Model m[3]; Rng& r; int serial = 0;
    explicit World(Rng& rng) : r(rng) { for (auto& x : m) x.fill(NO); }
    static std::string show(Model const& m) { std::string s; for (int i = 0; i < 16; ++i) if (m[static_cast<size_t>(i)] != NO) s += std::to_string(i) + ":" + std::to_string(m[static_cast<size_t>(i)]) + " "; return s; }
    static Model read(std::map<K, V> const& c) { Model g; g.fill(NO); for (auto const& e : c) { int i = ix(e.first); if (i >= 0 && i < 16) g[static_cast<size_t>(i)] = val(e.second); } return g; }
    static size_t count(Model const& m) { size_t n = 0; for (int x : m) n += x != NO; return n; }
    void expect(std::map<K, V> const& c, Model const& w, std::string const& op) {
        MON_CHECK(c.size() == count(w) && read(c) == w, "content/" + op, op << " gives " << show(read(c)) << " (" << c.size() << " entries), expected " << show(w)); }
    void check(std::string const& op) { for (int i = 0; i < 3; ++i) expect(a[i], m[i], op); mon::event("comparisons"); }
    V v(int x) { return mk<V>(x); }
    int fresh() { return ++serial; }
    Set<K> keyset(unsigned& mask) { mask = static_cast<unsigned>(r.next()) & 0xffff; if (r.chance(1, 3)) mask &= static_cast<unsigned>(r.next()); Set<K> s; for (int i = 15; i >= 0; --i) if (mask >> i & 1) s.insert(key<K>(i)); return s; }
    void step() {
        int i = static_cast<int>(r.below(3)), k = static_cast<int>(r.below(3)); size_t j = r.below(16); K kj = key<K>(static_cast<int>(j)); M& x = a[i]; M const& c = a[i]; Model& mx = m[i]; bool has = mx[j] != NO;
        switch (r.below(17)) {
        case 0: { mon::log("m%d.get(%zu)", i, j); V const* p = nullptr; auto o = mon::attempt([&] { p = &c.get(kj); }); lookup("get", o, p, c, mx, j); break; }
        case 1: { mon::log("const m%d[%zu]", i, j); V const* p = nullptr; auto o = mon::attempt([&] { p = &c[kj]; }); lookup("const index", o, p, c, mx, j); break; }
        case 2: { mon::log("const m%d.value(%zu)", i, j); V const* p = nullptr; auto o = mon::attempt([&] { p = &c.value(kj); }); lookup("const value", o, p, c, mx, j); break; }
        case 3: { mon::log("m%d.value(%zu)=", i, j); V* p = nullptr; auto o = mon::attempt([&] { p = &x.value(kj); }); lookup("value", o, p, c, mx, j); if (p) { int n = fresh(); *p = v(n); mx[j] = n; } check("writing by value"); break; }
        case 4: { mon::log("m%d.has_key(%zu)", i, j); MON_CHECK(c.has_key(kj) == has, "has_key", "has_key(" << j << ") is " << c.has_key(kj) << " in " << show(mx)); break; }
        case 5: { mon::log("m%d[%zu]", i, j); V& y = x[kj]; if (!has) mx[j] = dflt<V>(); MON_CHECK(val(y) == mx[j], "index", "index " << j << " gives " << val(y) << ", expected " << mx[j]); check("index"); mon::event(has ? "indexing of present keys" : "indexing of absent keys");
            if (r.chance(1, 2)) { int n = fresh(); y = v(n); mx[j] = n; check("writing by index"); } break; }
        case 6: { int n = fresh(); mon::log("m%d.insert(pair %zu,%d)", i, j, n); std::pair<K, V> e(kj, v(n)); x.insert(e); if (!has) mx[j] = n; check("insert(pair)"); mon::event(has ? "inserts of present keys" : "inserts of absent keys"); break; }
        case 7: { int n = fresh(); mon::log("m%d.insert(%zu,%d)", i, j, n); V y = v(n); x.insert(kj, y); if (!has) mx[j] = n; check("insert(key,value)"); mon::event(has ? "inserts of present keys" : "inserts of absent keys"); break; }
        case 8: { int n = fresh(); mon::log("insert(m%d,%zu,%d)", i, j, n); V y = v(n); V& z = Helper::insert(x, kj, y); if (!has) mx[j] = n; MON_CHECK(&z == &x.find(kj)->second, "free insert result", "insert returns a reference to something else"); check("free insert"); break; }
        case 9: { mon::log("m%d.adjoin(m%d)", i, k); x.adjoin(a[k]); for (size_t t = 0; t < 16; ++t) if (mx[t] == NO) mx[t] = m[k][t]; check("adjoin"); mon::event(i == k ? "self adjoins" : "adjoins"); break; }
        case 10: { mon::log("join(m%d,m%d)", i, k); M t = Helper::join(c, a[k]); Model w = mx; for (size_t q = 0; q < 16; ++q) if (w[q] == NO) w[q] = m[k][q]; expect(t, w, "join"); check("join"); if (r.chance(1, 3)) { int d = static_cast<int>(r.below(3)); mon::log("->m%d", d); a[d] = t; m[d] = w; check("assign"); } break; }
        case 11: { unsigned mask; Set<K> s = keyset(mask); mon::log("m%d.remove_keys(%x)", i, mask); x.remove_keys(s); for (size_t q = 0; q < 16; ++q) if (mask >> q & 1) mx[q] = NO; check("remove_keys"); break; }
        case 12: { unsigned mask; Set<K> s = keyset(mask); mon::log("restrict_keys(m%d,%x)", i, mask); M t = Helper::restrict_keys(static_cast<std::map<K, V> const&>(c), static_cast<std::set<K> const&>(s)); Model w = mx; for (size_t q = 0; q < 16; ++q) if (!(mask >> q & 1)) w[q] = NO; expect(t, w, "restrict_keys"); check("restrict_keys"); if (r.chance(1, 3)) { x = t; mx = w; mon::log("->m%d", i); } break; }
        case 13: { mon::log("m%d.keys/values", i); Set<K> ks = c.keys(); List<V> vs = c.values(); MON_CHECK(ks.size() == count(mx) && vs.size() == count(mx), "keys-values-size", "keys() has " << ks.size() << " and values() " << vs.size() << " elements for " << show(mx));
            size_t q = 0; for (auto const& e : c) { MON_CHECK(ks.count(e.first) == 1, "keys", "keys() lacks key " << ix(e.first)); MON_CHECK(val(vs[q]) == mx[static_cast<size_t>(ix(e.first))], "values", "values()[" << q << "] is " << val(vs[q]) << ", expected " << mx[static_cast<size_t>(ix(e.first))]); ++q; } check("keys"); mon::event("keys and values"); break; }
        case 14: { if (count(mx) == 0) break; mon::log("own parts of m%d", i); auto it = x.begin(); size_t q = static_cast<size_t>(ix(it->first)); auto last = --x.end(); x.insert(it->first, last->second); x.insert(*last); (void)x[last->first]; (void)q; x.remove_keys(Set<K>()); check("insert of own entry"); mon::event("aliasing arguments");
            if (r.chance(1, 2)) { x.remove_keys(x.keys()); mx.fill(NO); check("remove all keys"); } break; }
        case 15: { mon::log("m%d:=m%d", i, k); M& y = a[k]; if (r.chance(1, 2)) x = y; else { M t(y); x = std::move(t); } mx = m[k]; check("assign"); break; }
        default: { int p = fresh(), q = fresh(); mon::log("m%d={3:%d,1:%d}", i, p, q); M t = {{key<K>(3), v(p)}, {key<K>(1), v(q)}, {key<K>(3), v(0)}}; x = t; mx.fill(NO); mx[3] = p; mx[1] = q; check("construct from a list"); break; }
        }
        mon::event("steps");
    }
    void lookup(std::string const& what, mon::Outcome o, V const* p, M const& c, Model const& mx, size_t j) {
        if (mx[j] != NO) { MON_CHECK(o == mon::Outcome::returned, "present-key-rejected/" + what, what << " of a present key " << mon::name(o));
            MON_CHECK(val(*p) == mx[j] && p == &c.find(key<K>(static_cast<int>(j)))->second, "wrong-value/" + what, what << " of key " << j << " gives " << val(*p) << ", expected " << mx[j]); mon::event("look-ups of present keys"); }
        else { MON_CHECK(o != mon::Outcome::returned && o != mon::Outcome::threw_other, "absent-key-accepted/" + what, what << " of an absent key " << mon::name(o)); mon::event("look-ups of absent keys"); }
        check("look-up by " + what);
    }
};
template<class K, class V> void history(Rng& r) {
    World<K, V> w(r);
    for (int i = 0, n = 10 + static_cast<int>(r.below(50)); i < n; ++i) w.step();
    mon::nontrivial();
}
MON_SUITE(int_int, 400, 20000) { history<int, int>(rng); }
MON_SUITE(string_string, 150, 8000) { history<std::string, std::string>(rng); }
MON_SUITE(probe_probe, 200, 10000) { history<Probe, Probe>(rng); }
MON_SUITE(ordered_double, 200, 10000) { history<Ordered, double>(rng); }

struct Wide { int x; Wide(int y) : x(y) {} Wide() : x(0) {} };
MON_SUITE(conversions, 100, 4000) {
    Map<int, int> s; size_t n = rng.below(20); for (size_t i = 0; i < n; ++i) { int k = static_cast<int>(rng.below(30)); s[k] = static_cast<int>(rng.range(-99, 99)); }
    mon::log("convert %zu h=%zu", s.size(), static_cast<size_t>(rng.next() % 1000));
    Map<int, double> d(s); Map<int, Wide> w = s; Map<int, long> l(s); Map<int, int> c(static_cast<std::map<int, int> const&>(s));
    MON_CHECK(d.size() == s.size() && w.size() == s.size() && l.size() == s.size() && c == s, "conversion-size", "a converted map has the wrong size");
    for (auto const& e : s) MON_CHECK(d.has_key(e.first) && d.get(e.first) == e.second && w.get(e.first).x == e.second && l.get(e.first) == e.second, "conversion", "the value of key " << e.first << " is converted wrongly");
    mon::event("conversions"); mon::nontrivial();
}

// large maps with all kinds of keys and values; oracle: a sorted sequence of entries
template<class K> K some_key(Rng& r, int spread);
template<> int some_key<int>(Rng& r, int spread) { return spread == 0 ? r.pick(std::vector<int>{INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, 0, -1, 1}) : static_cast<int>(r.range(-spread, spread)); }
template<> unsigned long some_key<unsigned long>(Rng& r, int spread) { return spread == 0 ? ~0ul << r.below(64) : r.below(static_cast<uint64_t>(spread)) << (r.chance(1, 2) ? 32 : 0); }
template<> char some_key<char>(Rng& r, int) { return static_cast<char>(r.below(256)); }
template<> bool some_key<bool>(Rng& r, int) { return r.chance(1, 2); }
template<> double some_key<double>(Rng& r, int spread) { switch (r.below(9)) { case 0: return r.chance(1, 2) ? HUGE_VAL : -HUGE_VAL; case 1: return 0.0; case 2: return 5e-324; default: return static_cast<double>(r.range(-spread, spread)) * 0.125; } }
template<> std::string some_key<std::string>(Rng& r, int spread) { std::string t(r.below(4) == 0 ? r.below(40) : r.below(3), static_cast<char>(r.below(2) ? 'a' : r.below(256))); return t + std::to_string(r.below(static_cast<uint64_t>(spread) + 1)); }
template<> std::pair<int, int> some_key<std::pair<int, int>>(Rng& r, int spread) { uint64_t n = static_cast<uint64_t>(spread) + 1; return std::make_pair(static_cast<int>(r.below(n) % 50), static_cast<int>(r.below(n) % 50)); }
struct Pinned { std::string s; explicit Pinned(int i) : s(std::to_string(i) + std::string(20, 'p')) {} Pinned() : s("unset") {} bool operator==(Pinned const&) const = default; };  // no conversion from numbers
template<class V> V some_value(int n) { return V(n); }
template<> bool some_value<bool>(int n) { return n & 1; }
template<> std::string some_value<std::string>(int n) { return n % 3 ? std::to_string(n) : std::to_string(n) + std::string(40, 'v'); }
template<> std::vector<bool> some_value<std::vector<bool>>(int n) { std::vector<bool> v; for (; n; n >>= 1) v.push_back(n & 1); return v; }
template<class K, class V> void big(Rng& r, const char* name) {
    typedef std::vector<std::pair<K, V>> E; int serial = 0, spread = static_cast<int>(r.pick(std::vector<int>{0, 3, 20, 200, 3000, 3000})); size_t limit = r.pick(std::vector<size_t>{3, 20, 70, 300, 900, 900});
    auto less = [](auto const& x, auto const& y) { return x.first < y.first; };
    auto find = [](E& e, K const& k) { size_t a = 0, b = e.size(); while (a < b) { size_t c = (a + b) / 2; if (e[c].first < k) a = c + 1; else b = c; } return a; };
    auto has = [&](E& e, K const& k) { size_t i = find(e, k); return i < e.size() && !(k < e[i].first); };
    auto merged = [&](E x, E const& y) { E z(x); for (auto const& e : y) if (!has(x, e.first)) z.push_back(e); std::stable_sort(z.begin(), z.end(), less); return z; };
    auto make = [&](size_t n, E const& other) { E e; for (size_t i = 0; i < n; ++i) { K k = !other.empty() && r.chance(1, 3) ? other[r.below(other.size())].first : some_key<K>(r, spread); e.emplace_back(k, some_value<V>(++serial)); } std::stable_sort(e.begin(), e.end(), less); e.erase(std::unique(e.begin(), e.end(), [](auto const& x, auto const& y) { return !(x.first < y.first); }), e.end()); return e; };
    E a = make(r.edge(limit), E()), b = make(r.chance(1, 3) ? r.below(4) : r.edge(limit), a);
    if (r.chance(1, 4)) {  // one much larger than the other, whose few keys are at, between and beyond the ends of it
        spread = spread == 0 ? 20 : std::max(spread, 3000); E w = make(400 + r.below(600), E()), few, many; size_t lo = r.below(3), hi = r.below(3);
        if (w.size() > 20) {
            size_t gap = lo + 1 + r.below(w.size() - lo - hi - 2); for (size_t i = 0; i < w.size(); ++i) { if (i >= lo && i + hi < w.size() && i != gap) { many.push_back(w[i]); if (r.chance(1, i == lo || i + hi + 1 == w.size() ? 2 : w.size())) few.emplace_back(w[i].first, some_value<V>(++serial)); } else if (r.chance(2, 3)) few.push_back(w[i]); }
            if (few.size() > 1 && r.chance(1, 2)) { size_t j = r.below(few.size()); few = E(1, few[j]); }
            if (r.chance(1, 2)) { a = many; b = few; } else { a = few; b = many; } mon::event("few entries and many");
        }
    }
    mon::log("%s maps of %zu and %zu h=%zu", name, a.size(), b.size(), static_cast<size_t>(r.next() % 100000));
    auto is = [&](std::map<K, V> const& m, E const& w, const char* op) { bool same = m.size() == w.size(); if (same) { size_t i = 0; for (auto const& e : m) { same = same && e.first == w[i].first && e.second == w[i].second; ++i; } } MON_CHECK(same, std::string("large/") + op, op << " of maps of " << a.size() << " and " << b.size() << " entries (" << name << ") gives a wrong map of " << m.size() << ", expected " << w.size()); };
    Map<K, V> A, B; { E s = a; for (size_t i = s.size(); i > 1; --i) { size_t j = r.below(i); if (j != i - 1) std::swap(s[i - 1], s[j]); } for (auto const& e : s) { if (r.chance(1, 3)) A.insert(e); else if (r.chance(1, 2)) A.insert(e.first, e.second); else A[e.first] = e.second; } }
    for (auto const& e : b) B.insert(e.first, e.second);
    is(A, a, "insert"); is(B, b, "insert"); Map<K, V> const& cA = A; Map<K, V> const& cB = B; std::map<K, V> const& sA = A; std::map<K, V> const& sB = B;
    // look-ups, each answering what it should, and changing nothing
    for (int i = 0; i < 12; ++i) { K k = i < 4 && !a.empty() ? a[r.below(a.size())].first : i < 8 && !b.empty() ? b[r.below(b.size())].first : some_key<K>(r, spread); bool h = has(a, k); V const w = h ? a[find(a, k)].second : V();
        MON_CHECK(cA.has_key(k) == h, "large/has_key", "has_key is " << !h); V const* p = nullptr; V* q = nullptr;
        for (int form = 0; form < 4; ++form) { p = nullptr; auto o = mon::attempt([&] { switch (form) { case 0: p = &cA.get(k); break; case 1: p = &cA[k]; break; case 2: p = &cA.value(k); break; default: p = q = &A.value(k); } });
            static const char* names[] = {"get", "constant index", "constant value", "value"}; MON_CHECK(h ? o == mon::Outcome::returned : o != mon::Outcome::returned && o != mon::Outcome::threw_other, std::string("large/look-up by ") + names[form], names[form] << " of " << (h ? "a present" : "an absent") << " key among " << a.size() << " " << mon::name(o)); if (h) MON_CHECK(*p == w && p == &sA.find(k)->second, std::string("large/look-up by ") + names[form], names[form] << " gives a wrong value"); }
        if (h) { V v = some_value<V>(++serial); *q = v; a[find(a, k)].second = v; } }
    is(A, a, "looking up"); is(B, b, "looking up");
    E both = merged(a, b), onlyA, inB; std::vector<K> kb; for (auto const& e : b) kb.push_back(e.first); for (auto const& e : a) (has(b, e.first) ? inB : onlyA).push_back(e);
    is(Helper::join(cA, cB), both, "join"); is(Helper::join(Map<K, V>(sA), cB), both, "join"); is(Helper::join(cB, cA), merged(b, a), "join");
    { Map<K, V> c(cA); c.adjoin(sB); is(c, both, "adjoin"); c.adjoin(c); c.adjoin(sA); is(c, both, "adjoin"); Set<K> ks = B.keys(); is(Helper::restrict_keys(static_cast<std::map<K, V> const&>(c), static_cast<std::set<K> const&>(ks)), [&] { E e; for (auto const& x : both) if (has(b, x.first)) e.push_back(x); return e; }(), "restrict_keys of a join"); c.remove_keys(ks); is(c, onlyA, "remove_keys"); for (auto const& e : inB) c.insert(e); is(c, a, "insert after remove_keys"); for (auto const& e : b) { V v = some_value<V>(++serial); c.insert(e.first, v); c.insert(std::pair<K, V>(e.first, v)); std::pair<K, V> const kv(e.first, v); std::pair<K, V> kw(kv); c.insert(kv); c.insert(kw); if (has(a, e.first)) MON_CHECK(c.get(e.first) == a[find(a, e.first)].second, "large/insert over", "an insertion replaces a value"); } }
    { Set<K> ks(kb); MON_CHECK(ks.size() == b.size(), "large/keys", "wrong keys"); is(Helper::restrict_keys(sA, static_cast<std::set<K> const&>(ks)), inB, "restrict_keys"); ks.adjoin(A.keys()); is(Helper::restrict_keys(sA, static_cast<std::set<K> const&>(ks)), a, "restrict_keys to more keys"); is(Helper::restrict_keys(sA, std::set<K>()), E(), "restrict_keys to no keys"); Map<K, V> c(A); c.remove_keys(Set<K>()); is(c, a, "remove_keys of no keys"); c.remove_keys(ks); is(c, E(), "remove_keys of more keys"); }
    { Set<K> ks = cA.keys(); List<V> vs = cA.values(); bool ok = ks.size() == a.size() && vs.size() == a.size(); size_t i = 0; if (ok) for (K const& k : ks) { ok = ok && k == a[i].first && vs[i] == a[i].second; ++i; } MON_CHECK(ok, "large/keys and values", "the keys or values of a map of " << a.size() << " entries are wrong"); }
    { Map<K, V> c(A); size_t n = a.size(); E w(a); for (int i = 0; i < 5; ++i) { K k = some_key<K>(r, spread); bool h = has(w, k); V& v = c[k]; MON_CHECK(v == (h ? w[find(w, k)].second : V()), "large/index", "indexing of " << (h ? "a present" : "an absent") << " key gives a wrong value"); if (!h) { w.insert(w.begin() + static_cast<std::ptrdiff_t>(find(w, k)), std::pair<K, V>(k, V())); ++n; } V x = some_value<V>(++serial); V& y = Helper::insert(c, k, x); MON_CHECK(&y == &v && y == (h ? w[find(w, k)].second : V()), "large/insert of a present key", "inserting over an entry changes it"); } is(c, w, "index"); }
    { Map<K, V> c(sA), d(A), e; e = A; Map<K, V> m(std::move(d)); c.adjoin(sB); is(e, a, "assignment"); is(m, a, "move"); is(c, both, "adjoin to a copy"); is(A, a, "changing an argument"); is(B, b, "changing an argument"); }
    mon::event("larger maps"); if (both.size() > 256) mon::event("maps of more than 256 entries"); mon::nontrivial();
}
MON_SUITE(large, 200, 8000) {
    switch (rng.below(8)) { case 0: big<int, int>(rng, "int to int"); break; case 1: big<unsigned long, std::string>(rng, "unsigned long to string"); break; case 2: big<char, double>(rng, "char to double"); break; case 3: big<bool, bool>(rng, "bool to bool"); break;
    case 4: big<double, bool>(rng, "double to bool"); break; case 5: big<std::string, Pinned>(rng, "string to object"); break; case 6: big<std::pair<int, int>, std::vector<bool>>(rng, "pair to vector"); break; default: big<std::string, std::string>(rng, "string to string"); }
}

int main(int argc, char** argv) {
    mon::install_probe_monitor();
    for (const char* e : {"look-ups of present keys", "look-ups of absent keys", "indexing of absent keys", "indexing of present keys", "inserts of present keys", "inserts of absent keys", "self adjoins", "adjoins", "keys and values", "aliasing arguments"}) mon::require(e, 50);
    mon::require("larger maps", 150); mon::require("few entries and many", 10); mon::require("maps of more than 256 entries", 4);
    return mon::main(argc, argv);
}
