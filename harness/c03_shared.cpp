// C03: copies of a SharedArray share their elements, which live exactly as long as some copy does.
// Oracle: a model of owner groups; element lifetimes are observed by Probe and the tracked allocator.
#include "mon.hpp"
#include "probe.hpp"
#include <memory>
#include <string>
#include "array.hpp"
#include "container.hpp"

using Helper::SharedArray;
using mon::Probe;
using mon::Rng;

template<class T> struct El { static T make(int x) { return T(x); } static int val(T const& t) { return static_cast<int>(t); } static constexpr bool counted = false; };
template<> struct El<Probe> { static Probe make(int x) { return Probe(x); } static int val(Probe const& t) { return t.get(); } static constexpr bool counted = true; };
template<> struct El<bool> { static bool make(int x) { return x & 1; } static int val(bool const& t) { return t; } static constexpr bool counted = false; };
template<> struct El<mon::SmallProbe<unsigned char>> { typedef mon::SmallProbe<unsigned char> P; static P make(int x) { return P(x % 100); } static int val(P const& t) { return t.get(); } static constexpr bool counted = false; };
template<> struct El<mon::WideProbe> { static mon::WideProbe make(int x) { return mon::WideProbe(x); } static int val(mon::WideProbe const& t) { return t.get(); } static constexpr bool counted = true; };
template<> struct El<std::string> { static std::string make(int x) { return std::string(30, 'q') + std::to_string(x); } static int val(std::string const& t) { return std::atoi(t.c_str() + 30); } static constexpr bool counted = false; };

struct Group { std::vector<int> v; int owners = 0; void const* first = nullptr; };

template<class T> void history(Rng& r) {
    typedef SharedArray<T> A;
    constexpr int K = 6;
    std::unique_ptr<A> a[K]; std::shared_ptr<Group> g[K];
    auto live = [] { mon::Untracked u; return mon::ps().live.size(); };
    auto set = [&](int i, std::shared_ptr<Group> n) { if (g[i]) --g[i]->owners; g[i] = n; if (n) ++n->owners; };
    auto check = [&](std::string const& where) {
        mon::Untracked u;
        std::vector<Group*> seen; size_t total = 0;
        for (int i = 0; i < K; ++i) {
            if (!a[i]) continue;
            A const& c = *a[i]; auto const& m = g[i]->v;
            MON_CHECK(c.size() == m.size(), "size/" + where, "after " << where << " the size is " << c.size() << ", expected " << m.size());
            MON_CHECK(c.end() - c.begin() == static_cast<std::ptrdiff_t>(m.size()) && a[i]->end() - a[i]->begin() == static_cast<std::ptrdiff_t>(m.size()), "iterators/" + where, "end()-begin() is wrong");
            if (!m.empty()) MON_CHECK(&c[0] == c.begin() && &(*a[i])[0] == a[i]->begin() && c.begin() == a[i]->begin(), "iterators/" + where, "begin() is not the first element");
            MON_CHECK(m.empty() || &c[0] == g[i]->first, "not-shared/" + where, "after " << where << " a copy does not refer to the shared elements");
            for (size_t j = 0; j < m.size(); ++j) MON_CHECK(El<T>::val(c[j]) == m[j], "content/" + where, "after " << where << " element " << j << " is " << El<T>::val(c[j]) << ", expected " << m[j]);
            bool dup = false; for (Group* s : seen) if (s == g[i].get()) dup = true;
            if (!dup) { seen.push_back(g[i].get()); total += m.size(); }
        }
        if (El<T>::counted) MON_CHECK(live() == total, "lifetime/" + where, "after " << where << " " << live() << " elements live, but the existing arrays have " << total);
    };
    auto newgroup = [&](int i) { mon::Untracked u; auto n = std::make_shared<Group>(); for (size_t j = 0; j < a[i]->size(); ++j) n->v.push_back(El<T>::val((*a[i])[j])); n->first = a[i]->begin(); return n; };
    int steps = 10 + static_cast<int>(r.below(50));
    for (int s = 0; s < steps; ++s) {
        int i = static_cast<int>(r.below(K)), k = static_cast<int>(r.below(K));
        switch (r.below(10)) {
        case 0: { size_t n = r.chance(1, 30) ? r.edge(140) : r.below(6); int x = static_cast<int>(r.below(100)); mon::log("a%d=S(%zu,%d)", i, n, x);
            T e = El<T>::make(x); std::unique_ptr<A> t(new A(n, e)); a[i] = std::move(t);
            { mon::Untracked u; auto ng = newgroup(i); MON_CHECK(ng->v == std::vector<int>(n, x), "construct(n,x)", "a filled shared array holds " << mon::show(ng->v)); set(i, ng); } break; }
        case 1: { int x = static_cast<int>(r.below(100)), q = static_cast<int>(r.below(4)); mon::log("a%d=S{%d...} of kind %d", i, x, q); std::vector<int> w; auto e = [&](int d) { return El<T>::make(x + d); };
            auto from = [&](std::initializer_list<T> const& il) { a[i].reset(new A(il)); mon::Untracked u; for (size_t j = 0; j < il.size(); ++j) w.push_back(El<T>::val(il.begin()[j])); };
            switch (q) { case 0: from({}); break; case 1: from({e(0)}); break; case 2: from({e(0), e(1)}); break; default: from({e(4), e(3), e(0), e(1), e(1), e(2), e(9)}); }
            { mon::Untracked u; auto ng = newgroup(i); MON_CHECK(ng->v == w, "construct(list)", "a shared array from a list holds " << mon::show(ng->v)); set(i, ng); w = std::vector<int>(); } break; }
        case 2: { size_t n = r.chance(1, 30) ? r.edge(140) : r.below(6); mon::log("a%d=S(%zu)", i, n); a[i].reset(new A(n)); for (size_t j = 0; j < n; ++j) (*a[i])[j] = El<T>::make(static_cast<int>(j));
            { mon::Untracked u; MON_CHECK(a[i]->size() == n, "construct(n)", "wrong size"); set(i, newgroup(i)); } break; }
        case 3: { if (!a[k]) break; mon::log("a%d=copy a%d", i, k); std::unique_ptr<A> t(new A(*a[k])); mon::Untracked u; a[i] = std::move(t); set(i, std::shared_ptr<Group>(g[k])); mon::event("copies"); break; }
        case 4: case 5: { if (!a[k] || !a[i]) break; mon::log("a%d:=a%d", i, k); bool same = g[i] == g[k]; A& y = *a[k]; *a[i] = y; mon::Untracked u; set(i, std::shared_ptr<Group>(g[k]));
            mon::event(i == k ? "self assignments" : same ? "assignments within a group" : "assignments across groups"); break; }
        case 6: { if (!a[i]) break; mon::log("del a%d", i); if (g[i]->owners == 1) mon::event("last copies destroyed"); else mon::event("other copies destroyed"); a[i].reset(); mon::Untracked u; set(i, nullptr); break; }
        case 7: { if (!a[i] || g[i]->v.empty()) break; size_t j = r.below(g[i]->v.size()); int x = static_cast<int>(r.below(100)); mon::log("a%d[%zu]=%d", i, j, x);
            if (r.chance(1, 2)) (*a[i])[j] = El<T>::make(x); else *(a[i]->begin() + j) = El<T>::make(x); g[i]->v[j] = x; mon::event(g[i]->owners > 1 ? "writes to shared elements" : "writes"); break; }
        case 8: { if (!a[k]) break; mon::log("pass a%d", k); auto f = [](A c) { A d(c); A e = d; return e; }; A t = f(*a[k]); { mon::Untracked u; MON_CHECK(t.begin() == a[k]->begin() && t.size() == a[k]->size(), "pass-by-value", "a passed copy is not shared"); } break; }
        case 9: { if (!a[k] || !a[i]) break; mon::log("a%d:=temporary copy of a%d", i, k); *a[i] = A(*a[k]); { mon::Untracked u; set(i, std::shared_ptr<Group>(g[k])); } break; }
        }
        check("a step");
        mon::event("steps");
    }
    // destroy in random order
    for (int n = K; n > 0; --n) { int i = static_cast<int>(r.below(K)); if (a[i]) { mon::log("end a%d", i); a[i].reset(); { mon::Untracked u; set(i, nullptr); } check("a final destruction"); } }
    for (int i = 0; i < K; ++i) { a[i].reset(); mon::Untracked u; set(i, nullptr); }
    check("the last destruction");
    mon::nontrivial();
}
MON_SUITE(history_probe, 600, 30000) { history<Probe>(rng); }
MON_SUITE(history_int, 300, 12000) { history<int>(rng); }
MON_SUITE(history_string, 300, 12000) { history<std::string>(rng); }

MON_SUITE(history_wide, 100, 5000) { history<mon::WideProbe>(rng); }
MON_SUITE(history_double, 80, 4000) { history<double>(rng); }
MON_SUITE(history_byte, 100, 5000) { history<unsigned char>(rng); }

// arrays owned by the elements of others: assigning a part of itself to an array releases what surrounds the source
struct Node { Probe p; std::shared_ptr<SharedArray<Node>> next; };
MON_SUITE(owned_by_elements, 120, 5000) {
    size_t depth = 2 + rng.below(6); std::vector<size_t> n; std::vector<size_t> at; for (size_t i = 0; i < depth; ++i) { n.push_back(1 + rng.below(4)); at.push_back(rng.below(n[i])); } mon::log("depth %zu", depth); size_t live0; { mon::Untracked u; live0 = mon::ps().live.size(); }
    auto live = [&] { mon::Untracked u; return mon::ps().live.size() - live0; };
    {
        std::vector<SharedArray<Node>> all; for (size_t i = 0; i < depth; ++i) { all.push_back(SharedArray<Node>(n[i])); for (size_t j = 0; j < n[i]; ++j) all[i][j].p = Probe(static_cast<int>(10 * i + j)); }
        for (size_t i = 0; i + 1 < depth; ++i) all[i][at[i]].next = std::make_shared<SharedArray<Node>>(all[i + 1]);
        SharedArray<Node> list = all[0]; bool keep = rng.chance(1, 4); SharedArray<Node> const kept = all[rng.below(depth)]; size_t kn = 0; for (size_t i = 0; i < depth; ++i) if (kept.begin() == all[i].begin()) kn = i; all.clear(); all.shrink_to_fit();
        SharedArray<Node> const other = keep ? list : kept; size_t on = keep ? 0 : kn;
        for (size_t i = 0; i < depth; ++i) {
            MON_CHECK(list.size() == n[i], "size/owned by elements", "step " << i << " of a list has size " << list.size() << ", expected " << n[i]);
            for (size_t j = 0; j < n[i]; ++j) MON_CHECK(list[j].p.get() == static_cast<int>(10 * i + j), "content/owned by elements", "step " << i << " of a list is wrong");
            size_t want = 0; for (size_t k = std::min(std::min(on, kn), i); k < depth; ++k) want += n[k]; MON_CHECK(live() == want, "lifetime/owned by elements", "at step " << i << " of a list " << live() << " elements live, expected " << want);
            if (i + 1 < depth) { list = *list[at[i]].next; mon::event("assignments of own parts"); }
        }
    }
    MON_CHECK(live() == 0, "lifetime/owned by elements", live() << " elements outlive all arrays"); mon::nontrivial();
}
// far more copies than small counters hold
MON_SUITE(many_copies, 4, 40) {
    size_t n = std::vector<size_t>{300, 70000, 33000, 1000}[mon::st().case_no % 4] + rng.below(100); mon::log("%zu copies", n); size_t live0; { mon::Untracked u; live0 = mon::ps().live.size(); } auto live = [&] { mon::Untracked u; return mon::ps().live.size() - live0; };
    { SharedArray<Probe> a(3); a[0] = Probe(1); std::vector<SharedArray<Probe>> v(n, a); MON_CHECK(live() == 3, "lifetime/many copies", n << " copies of three elements have " << live()); v[n - 1][1] = Probe(8); MON_CHECK(a[1].get() == 8 && v[0][1].get() == 8 && v[n / 2].begin() == a.begin(), "not-shared/many copies", "a write through one of " << n << " copies is not seen by all");
      a = SharedArray<Probe>(1); MON_CHECK(live() == 4, "lifetime/many copies", "live " << live()); while (v.size() > 1) { v.pop_back(); if (v.size() % 9999 == 1 || v.size() < 3) MON_CHECK(live() == 4 && v[0][0].get() == 1, "lifetime/many copies", "with " << v.size() << " copies left " << live() << " elements live"); } v.clear(); MON_CHECK(live() == 1, "lifetime/many copies", "after the last of " << n << " copies " << live() << " elements live"); }
    MON_CHECK(live() == 0, "lifetime/many copies", live() << " elements outlive all copies"); mon::event("many copies"); mon::nontrivial();
}
MON_SUITE(large, 6, 60) {  // more elements than small integers count
    size_t n = std::vector<size_t>{300, 65536, 65537, 70000, 257, 140000}[mon::st().case_no % 6]; mon::log("%zu elements", n); SharedArray<int> a(n, 7), b(a), c(n + 1, 3); MON_CHECK(a.size() == n && b.size() == n && static_cast<size_t>(a.end() - a.begin()) == n && std::as_const(b).end() == a.begin() + n, "size/large", "a shared array of " << n << " elements has " << a.size());
    for (size_t i = 0; i < n; ++i) MON_CHECK(a[i] == 7, "content/large", "element " << i << " of " << n << " is " << a[i]); for (size_t i = 0; i < n; ++i) b[i] = static_cast<int>(i); for (size_t i = 0; i < n; ++i) MON_CHECK(std::as_const(a)[i] == static_cast<int>(i), "not-shared/large", "element " << i << " of " << n << " is not the one written through a copy");
    a = c; MON_CHECK(a.size() == n + 1 && a[n] == 3 && b.size() == n && b[n - 1] == static_cast<int>(n - 1), "content/large", "assignment of " << n + 1 << " elements"); mon::event("large arrays"); mon::nontrivial();
}
MON_SUITE(faults, 200, 8000) {
    size_t n = rng.below(6); unsigned op = static_cast<unsigned>(rng.below(4)); mon::log("op %u n %zu", op, n);
    static const char* N[] = {"construct(n)", "construct(n,x)", "construct(list)", "copy"};
    for (int kind = 0; kind < 2; ++kind)
        for (long k = 0; k < 100; ++k) {
            Probe x(5); SharedArray<Probe> b(n, x); std::initializer_list<Probe> l = {x, x, Probe(3)};
            size_t live0; { mon::Untracked u; live0 = mon::ps().live.size(); } long blocks0 = mon::live_blocks.load();
            bool fired; mon::Outcome o;
            auto run = [&] { switch (op) { case 0: { SharedArray<Probe> t(n); break; } case 1: { SharedArray<Probe> t(n, x); break; } case 2: { SharedArray<Probe> t(l); break; } default: { SharedArray<Probe> t(b); SharedArray<Probe> s(2); s = t; b = s; b = t; } } };
            if (kind == 0) { mon::FailElement f(k); o = mon::attempt(run); fired = f.fired(); } else { mon::FailAlloc f(k); o = mon::attempt(run); fired = f.fired(); }
            size_t live1; { mon::Untracked u; live1 = mon::ps().live.size(); }
            MON_CHECK(live1 == live0, std::string("failure-element-leak/") + N[op], "a failed construction leaves " << live1 << " elements instead of " << live0);
            MON_CHECK(mon::live_blocks.load() == blocks0, std::string("failure-storage-leak/") + N[op], "a failed construction leaks " << mon::live_blocks.load() - blocks0 << " blocks");
            if (!fired) { MON_CHECK(o == mon::Outcome::returned, "unprovoked-failure", "the operation " << mon::name(o)); break; }
            MON_CHECK(o == (kind == 0 ? mon::Outcome::threw_runtime : mon::Outcome::threw_bad_alloc), std::string("error-lost/") + N[op], "a failure does not reach the caller: " << mon::name(o));
            mon::event("failures injected");
        }
    mon::nontrivial();
}

int main(int argc, char** argv) {
    mon::install_probe_monitor();
    mon::require("self assignments", 50); mon::require("assignments within a group", 50); mon::require("assignments across groups", 200); mon::require("last copies destroyed", 100); mon::require("other copies destroyed", 100);
    mon::require("writes to shared elements", 100); mon::require("failures injected", 200); mon::require("assignments of own parts", 200); mon::require("many copies", 3); mon::require("large arrays", 6);
    return mon::main(argc, argv);
}
