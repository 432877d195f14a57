// C05: rejected and failed operations leave an LRUCache unchanged; references stay valid; arguments may alias the cache.
#include "mon.hpp"
#include "probe.hpp"
#include <memory>
#include <string>
#include "lru_cache.hpp"

using Helper::LRUCache;
using mon::Probe;
using mon::Rng;

// A label whose copies and comparisons can be made to fail
struct Label {
    Probe p;
    Label(int x) : p(x) {}
    friend bool operator<(Label const& a, Label const& b) { Probe::may_throw(); return a.p.get() < b.p.get(); }
    friend bool operator==(Label const& a, Label const& b) { return a.p.get() == b.p.get(); }
    friend std::ostream& operator<<(std::ostream& os, Label const& l) { return os << "L" << l.p.get(); }
};
struct Item {  // a value which contains a label
    Label l; Probe v;
    Item(int a, int b) : l(a), v(b) {}
    friend bool operator==(Item const& a, Item const& b) { return a.l == b.l && a.v == b.v; }
};
template<class V> V mkv(int x);
template<> Probe mkv<Probe>(int x) { return Probe(x); }
template<> Item mkv<Item>(int x) { return Item(x % 1000, x); }
template<> std::string mkv<std::string>(int x) { return std::string(40, 'v') + std::to_string(x); }
std::string sv(Probe const& p) { return std::to_string(p.get()); }
std::string sv(Item const& i) { return std::to_string(i.l.p.get()) + "/" + std::to_string(i.v.get()); }
std::string sv(std::string const& s) { return s; }

template<class L, class V> std::string snapshot(LRUCache<L, V>& c, int universe) {
    mon::Untracked u;
    LRUCache<L, V> d(c);  // reading values would use them
    std::ostringstream os;
    os << "size " << c.current_size() << "/" << c.maximum_size();
    for (int i = 0; i < universe; ++i) { L l(i); if (c.has_label(l)) os << " " << i << "@" << c.age(l) << "=" << sv(d.get(l)); }
    return os.str();
}
template<class V> struct World {
    LRUCache<Label, V> c; int universe; size_t cap;
    World(Rng& r, size_t n) : c(n), universe(static_cast<int>(n) + 4), cap(n) {
        int k = static_cast<int>(r.below(3 * n + 2));
        for (int i = 0; i < k; ++i) { int l = static_cast<int>(r.below(static_cast<uint64_t>(universe))); if (c.has_label(Label(l))) { mon::log("get(%d)", l); c.get(Label(l)); } else { mon::log("put(%d)", l); c.put(Label(l), mkv<V>(l + 100 * (i + 1))); } }
    }
    int held(Rng& r) { for (int t = 0, i = static_cast<int>(r.below(static_cast<uint64_t>(universe))); t < universe; ++t, i = (i + 1) % universe) if (c.has_label(Label(i))) return i; return -1; }
    int absent(Rng& r) { for (int t = 0, i = static_cast<int>(r.below(static_cast<uint64_t>(universe))); t < universe; ++t, i = (i + 1) % universe) if (!c.has_label(Label(i))) return i; return -1; }
    int oldest() { int b = -1; for (int i = 0; i < universe; ++i) if (c.has_label(Label(i)) && (b < 0 || c.age(Label(i)) > c.age(Label(b)))) b = i; return b; }
    std::string snap() { return snapshot(c, universe); }
};
static bool is_error(mon::Outcome o) { return o != mon::Outcome::returned && o != mon::Outcome::threw_other; }

// requests which must be rejected
template<class V> void rejected(Rng& rng) {
    size_t n = rng.chance(1, 10) ? 1 + rng.edge(70) : 1 + rng.below(6); mon::log("capacity %zu", n);
    World<V> w(rng, n);
    for (int t = 0; t < 4; ++t) {
        std::string before = w.snap(); mon::Outcome o; const char* what;
        int h = w.held(rng), a = w.absent(rng);
        switch (rng.below(4)) {
        case 0: what = "get of an absent label"; mon::log("get(%d)!", a); o = mon::attempt([&] { w.c.get(Label(a)); }); break;
        case 1: what = "age of an absent label"; mon::log("age(%d)!", a); o = mon::attempt([&] { w.c.age(Label(a)); }); break;
        case 2: if (h < 0) continue; what = "put of a held label"; mon::log("put(%d)!", h); o = mon::attempt([&] { w.c.put(Label(h), mkv<V>(9999)); }); break;
        default: if (h < 0) continue; what = "put of the held value again"; mon::log("put(%d,own)!", h); { LRUCache<Label, V> d(w.c); V v(d.get(Label(h))); o = mon::attempt([&] { w.c.put(Label(h), v); }); } break;
        }
        MON_CHECK(is_error(o), std::string("not-rejected/") + what, what << " " << mon::name(o));
        std::string after = w.snap();
        MON_CHECK(after == before, std::string("changed-by-rejected/") + what, what << " changes the cache from " << before << " to " << after);
        mon::event("rejected requests");
    }
    mon::nontrivial();
}
MON_SUITE(rejected_probe, 300, 12000) { rejected<Probe>(rng); }
MON_SUITE(rejected_string, 150, 6000) { rejected<std::string>(rng); }
MON_SUITE(zero_capacity, 3, 10) {
    mon::log("zero capacity %llu", static_cast<unsigned long long>(mon::st().case_no));
    auto o = mon::attempt([&] { LRUCache<int, int> c(0); }); auto p = mon::attempt([&] { LRUCache<Label, Probe> c(0u); }); auto q = mon::attempt([&] { LRUCache<std::string, Item> c(static_cast<size_t>(0)); });
    MON_CHECK(is_error(o) && is_error(p) && is_error(q), "zero-capacity-accepted", "a cache of size zero " << mon::name(o)); mon::nontrivial();
}

// puts which fail at each possible point
template<class V> void failing(Rng& rng) {
    size_t n = rng.chance(1, 12) ? 1 + rng.edge(36) : 1 + rng.below(5); mon::log("capacity %zu", n);
    World<V> w(rng, n);
    int a = w.absent(rng); if (a < 0) return;
    mon::log("put(%d) failing everywhere", a);
    std::string before = w.snap(); bool full = w.c.current_size() == n;
    Label l(a); V v(mkv<V>(7777));
    size_t live0; { mon::Untracked u; live0 = mon::ps().live.size(); } long blocks0 = mon::live_blocks.load();
    for (int kind = 0; kind < 2; ++kind) {
        for (long k = 0; k < 300; ++k) {
            bool fired; mon::Outcome o;
            LRUCache<Label, V>* c = &w.c; std::unique_ptr<LRUCache<Label, V>> d;
            bool reached;
            { // find out on a copy whether there is a k-th failure point, so as to keep the cache for the next round
                LRUCache<Label, V> t(w.c);
                if (kind == 0) { mon::FailElement f(k); mon::attempt([&] { t.put(l, v); }); reached = f.fired(); } else { mon::FailAlloc f(k); mon::attempt([&] { t.put(l, v); }); reached = f.fired(); }
            }
            if (!reached) break;
            if (kind == 0) { mon::FailElement f(k); o = mon::attempt([&] { c->put(l, v); }); fired = f.fired(); } else { mon::FailAlloc f(k); o = mon::attempt([&] { c->put(l, v); }); fired = f.fired(); }
            if (!fired) break;
            MON_CHECK(o == (kind == 0 ? mon::Outcome::threw_runtime : mon::Outcome::threw_bad_alloc), "error-lost", "failure " << k << " of kind " << kind << " of a put does not reach the caller: it " << mon::name(o));
            std::string after = w.snap();
            MON_CHECK(after == before, full ? "changed-by-failed-put/full" : "changed-by-failed-put/not-full", "failure " << k << " of kind " << kind << " of a put changes the cache from " << before << " to " << after);
            size_t live1; { mon::Untracked u; live1 = mon::ps().live.size(); }
            MON_CHECK(live1 == live0, "element-leak-on-failure", live1 << " elements live after a failed put, " << live0 << " before it");
            MON_CHECK(mon::live_blocks.load() == blocks0, "storage-leak-on-failure", mon::live_blocks.load() - blocks0 << " blocks leaked by a failed put");
            mon::event(full ? "puts failed in a full cache" : "puts failed in a cache with space"); mon::event(kind == 0 ? "element failures" : "allocation failures");
        }
    }
    // and then the put works
    w.c.put(l, v);
    MON_CHECK(w.c.has_label(l) && w.c.age(l) == 0 && w.c.get(l) == v, "put-after-failures", "a put after failed ones does not hold its label");
    mon::nontrivial();
}
MON_SUITE(failing_probe, 250, 10000) { failing<Probe>(rng); }
MON_SUITE(failing_item, 150, 6000) { failing<Item>(rng); }

// references stay valid while the label is held
template<class V> void references(Rng& rng) {
    size_t n = rng.chance(1, 10) ? 1 + rng.edge(70) : 1 + rng.below(6); mon::log("capacity %zu", n);
    World<V> w(rng, n);
    std::map<int, std::pair<V const*, std::string>> refs;
    for (int t = 0, steps = 5 + static_cast<int>(rng.below(30)); t < steps; ++t) {
        int l = rng.chance(1, 2) ? w.held(rng) : w.absent(rng); if (l < 0) continue;
        if (w.c.has_label(Label(l))) { mon::log("get(%d)", l); V const& v = w.c.get(Label(l)); mon::Untracked u; std::string s = sv(v);
            if (refs.count(l)) MON_CHECK(refs[l].first == &v, "reference-moved", "get returns another object for a label which was held all along");
            refs[l] = {&v, s}; }
        else { mon::log("put(%d)", l); w.c.put(Label(l), mkv<V>(l + 100 * t)); }
        if (rng.chance(1, 10)) mon::attempt([&] { w.c.get(Label(-5)); });
        for (auto it = refs.begin(); it != refs.end();) {
            mon::Untracked u;
            if (!w.c.has_label(Label(it->first))) { it = refs.erase(it); continue; }
            MON_CHECK(sv(*it->second.first) == it->second.second, "reference-changed", "the reference got for label " << it->first << " reads " << sv(*it->second.first) << " instead of " << it->second.second);
            ++it; mon::event("references read later");
        }
    }
    { mon::Untracked u; refs.clear(); }
    mon::nontrivial();
}
MON_SUITE(references_probe, 250, 10000) { references<Probe>(rng); }
MON_SUITE(references_string, 150, 6000) { references<std::string>(rng); }

// arguments which are part of the cache
MON_SUITE(aliasing, 400, 15000) {
    size_t n = rng.chance(1, 12) ? 1 + rng.edge(36) : 1 + rng.below(5); mon::log("capacity %zu", n);
    World<Item> w(rng, n); World<Item>& x = w;
    int h = rng.chance(1, 2) ? w.held(rng) : w.oldest(); if (h < 0) return;
    Item const& ref = w.c.get(Label(h));  // now the most recent; make it the oldest again
    for (int i = 0; i < w.universe; ++i) if (i != h && w.c.has_label(Label(i)) && rng.chance(4, 5)) w.c.get(Label(i));
    bool victim = w.oldest() == h && w.c.current_size() == n;
    LRUCache<Label, Item> twin(w.c); Item val(ref); Label lab(ref.l);
    unsigned op = static_cast<unsigned>(rng.below(2)); int a = w.absent(rng);
    if (op == 0) { mon::log("put(%d, value of %d)%s", a, h, victim ? " which is evicted" : ""); Label l(a); x.c.put(l, ref); twin.put(l, val); }
    else { if (w.c.has_label(lab)) { mon::log("put(held label in value of %d)", h); auto o = mon::attempt([&] { x.c.put(ref.l, val); }); MON_CHECK(is_error(o), "aliasing/not-rejected", "put of a held label " << mon::name(o)); }
        else { mon::log("put(label in value of %d, value of %d)%s", h, h, victim ? " which is evicted" : ""); x.c.put(ref.l, ref); twin.put(lab, val); } }
    int u = 1100; std::string got, want;
    { LRUCache<Label, Item>& c = w.c; got = snapshot(c, u); want = snapshot(twin, u); }
    MON_CHECK(got == want, victim ? "aliasing/evicted-argument" : "aliasing/argument", "putting a part of the cache gives " << got << ", putting a copy of it " << want);
    mon::event(victim ? "arguments from the evicted entry" : "arguments from the cache"); mon::nontrivial();
}

// queries which fail because comparing labels or allocating fails, and requests after failures
MON_SUITE(failing_queries, 200, 8000) {
    size_t n = rng.chance(1, 10) ? 1 + rng.edge(36) : 1 + rng.below(6); mon::log("capacity %zu", n);
    World<Item> w(rng, n); int h = w.held(rng), a = w.absent(rng); if (h < 0) return;
    for (int what = 0; what < 5; ++what) for (int kind = 0; kind < 2; ++kind) for (long k = 0; k < 40; ++k) {
        int l = what == 1 || what == 3 ? a : h; if (l < 0) continue;
        Label lab(l); std::string before = w.snap(); bool fired; mon::Outcome o; size_t live0; { mon::Untracked u; live0 = mon::ps().live.size(); } long blocks0 = mon::live_blocks.load();
        // a get which succeeds is a use, so that the cache itself is only used if the failure comes
        { LRUCache<Label, Item> t(w.c); auto go = [&] { switch (what) { case 0: case 1: t.get(lab); break; case 2: case 3: t.age(lab); break; default: t.has_label(lab); } };
          if (kind == 0) { mon::FailElement f(k); mon::attempt(go); fired = f.fired(); } else { mon::FailAlloc f(k); mon::attempt(go); fired = f.fired(); } }
        if (!fired) break;
        auto go = [&] { switch (what) { case 0: case 1: w.c.get(lab); break; case 2: case 3: w.c.age(lab); break; default: w.c.has_label(lab); } };
        if (kind == 0) { mon::FailElement f(k); o = mon::attempt(go); fired = f.fired(); } else { mon::FailAlloc f(k); o = mon::attempt(go); fired = f.fired(); }
        static const char* names[] = {"get of a held label", "get of an absent label", "age of a held label", "age of an absent label", "has_label"};
        MON_CHECK(o != mon::Outcome::returned, std::string("query-failure-lost/") + names[what], "failure " << k << " of kind " << kind << " of " << names[what] << " does not reach the caller");
        std::string after = w.snap(); MON_CHECK(after == before, std::string("changed-by-failed/") + names[what], "failure " << k << " of kind " << kind << " of " << names[what] << " changes the cache from " << before << " to " << after);
        size_t live1; { mon::Untracked u; live1 = mon::ps().live.size(); } MON_CHECK(live1 == live0 && mon::live_blocks.load() == blocks0, "leak-on-failed-query", "a failed query leaks");
        mon::event("failed queries");
    }
    // and the cache goes on as its untouched twin does
    { LRUCache<Label, Item> t(w.c); for (int i = 0; i < 12; ++i) { int l = static_cast<int>(rng.below(static_cast<uint64_t>(w.universe))); for (auto* c : {&w.c, &t}) { if (c->has_label(Label(l))) c->get(Label(l)); else c->put(Label(l), mkv<Item>(l + 100 * i)); } } MON_CHECK(w.snap() == snapshot(t, w.universe), "later-difference", "a cache in which requests failed goes on differently"); }
    mon::nontrivial();
}

int main(int argc, char** argv) {
    mon::install_probe_monitor();
    mon::require("rejected requests", 500); mon::require("puts failed in a full cache", 300); mon::require("puts failed in a cache with space", 100); mon::require("element failures", 200); mon::require("allocation failures", 200);
    mon::require("references read later", 500); mon::require("failed queries", 300); mon::require("arguments from the evicted entry", 30); mon::require("arguments from the cache", 30);
    return mon::main(argc, argv);
}
