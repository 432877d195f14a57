// C02: Array constructs and destroys every element exactly once, aligned, within its storage, also when anything fails.
// Oracles: the lifetime registry of Probe, the ledger of the tracked allocator, and the content before the failure.
#include "mon.hpp"
#include "probe.hpp"
#include <list>
#include <string>
#include <array>
#include "array.hpp"
#include "container.hpp"

using Helper::Array;
using mon::Probe;
using mon::WideProbe;
using mon::Rng;

// An input sequence which notices being read or advanced past its end.
template<class T> struct CheckedIter {
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
    T const* base; size_t n; size_t i;
    CheckedIter() : base(nullptr), n(0), i(0) {}
    CheckedIter(std::vector<T> const& v, size_t j) : base(v.data()), n(v.size()), i(j) {}
    T const& operator*() const { if (i >= n) mon::violate_and_die("range-overread", "an operation dereferences the end of the range it is given"); return base[i]; }
    CheckedIter& operator++() { if (i >= n) mon::violate_and_die("range-overrun", "an operation advances past the end of the range it is given"); ++i; return *this; }
    CheckedIter operator++(int) { CheckedIter r(*this); ++*this; return r; }
    bool operator==(CheckedIter const& o) const { return i == o.i; }
    bool operator!=(CheckedIter const& o) const { return i != o.i; }
};

template<class T> int val(T const& t) { return t.get(); }
int val(Array<Probe> const& a) { int s = static_cast<int>(a.size()) * 1000; for (size_t i = 0; i < a.size(); ++i) s += a[i].get() * static_cast<int>(i + 1); return s; }
template<class T> T mk(int x) { return T(x); }
template<> Array<Probe> mk<Array<Probe>>(int x) { return Array<Probe>(static_cast<size_t>(x % 3), Probe(x)); }
template<class T> size_t probes(T const&) { return 1; }
template<> size_t probes(Array<Probe> const& a) { return a.size(); }
template<class T> size_t probes_in(Array<T> const& a) { size_t n = 0; for (size_t i = 0; i < a.size(); ++i) n += probes(a[i]); return n; }
template<class T> std::vector<int> vals(Array<T> const& a) { mon::Untracked u; std::vector<int> v; for (size_t i = 0; i < a.size(); ++i) v.push_back(val(a[i])); return v; }

struct Param { int p; };

template<class T> struct Fixture {
    Array<T> a, b;
    std::vector<T> v;  // a range and values to use as arguments
    std::list<T> l;
};
struct Plan { unsigned op; size_t na, nb, nv, n; int x; };
static const char* OPS[] = {"construct(n)", "construct(n,x)", "construct(list)", "construct(n,generator)", "construct(range)", "copy-construct", "copy-assign", "resize(n)", "resize(n,x)", "reallocate",
                            "fill(x)", "fill(iterator)", "assign(range)", "resize(n,own element)", "move-construct", "move-assign", "swap", "convert", "self-copy-assign", "assign temporary", "construct(list range)"};
enum { NOPS = 21 };
// The operations for which a failure must leave the array as it was.
template<class T> bool strong(Plan const& p, Fixture<T> const&) {
    switch (p.op) { case 6: return p.na != p.nb; case 10: case 11: case 12: case 18: return false; default: return true; }
}
template<class T> struct SizeOf { static constexpr bool converts = std::is_convertible_v<int, T> && std::is_constructible_v<T, int, long>; };

template<class T> void run_op(Plan const& p, Fixture<T>& f) {
    Array<T>& a = f.a; Array<T> const& b = f.b; T const& x = f.v[0];
    switch (p.op) {
    case 0: { Array<T> t(p.n); break; }
    case 1: { Array<T> t(p.n, x); break; }
    case 2: { Array<T> t({x, x, f.v[f.v.size() - 1]}); break; }
    case 3: { Array<T> t(p.n, [&](size_t i) -> T { return mk<T>(static_cast<int>(i) + p.x); }); break; }
    case 4: { Array<T> t(CheckedIter<T>(f.v, 0), CheckedIter<T>(f.v, f.v.size())); break; }
    case 5: { Array<T> t(b); break; }
    case 6: a = b; break;
    case 7: a.resize(p.n); break;
    case 8: a.resize(p.n, x); break;
    case 9: a.reallocate(p.n); break;
    case 10: a.fill(x); break;
    case 11: { if (a.size() > f.v.size()) { a.fill(x); break; } a.fill(CheckedIter<T>(f.v, 0)); break; }
    case 12: a.assign(CheckedIter<T>(f.v, 0), CheckedIter<T>(f.v, f.v.size())); break;
    case 13: if (a.size()) a.resize(p.n, a[a.size() / 2]); break;
    case 14: { Array<T> t(std::move(a)); a = std::move(t); break; }
    case 15: { Array<T> t; t = std::move(a); a = std::move(t); break; }
    case 16: { a.swap(f.b); break; }
    case 17: if constexpr (SizeOf<T>::converts) {
            Array<int> s(p.n, [&](size_t i) { return static_cast<int>(i) + p.x; }); Array<T> t(s); Array<T> u(s, 2l); }
        break;
    case 18: { Array<T>& r = a; a = r; break; }
    case 19: { a = Array<T>(p.n, x); break; }
    case 20: { Array<T> t(f.l.begin(), f.l.end()); break; }
    }
}
template<class T> void build(Plan const& p, Fixture<T>& f) {
    f.v.reserve(p.nv);
    for (size_t i = 0; i < p.nv; ++i) { f.v.push_back(mk<T>(p.x + static_cast<int>(i))); f.l.push_back(mk<T>(p.x + 2 * static_cast<int>(i))); }
    f.a = Array<T>(p.na, [&](size_t i) -> T { return mk<T>(static_cast<int>(i) + 100); });
    f.b = Array<T>(p.nb, [&](size_t i) -> T { return mk<T>(static_cast<int>(i) + 200); });
}

template<class T> void faults(Rng& rng) {
    Plan p;
    p.op = static_cast<unsigned>(rng.below(NOPS));
    p.na = rng.below(7); p.nb = rng.chance(1, 3) ? p.na : rng.below(7); p.nv = 1 + rng.below(7); p.n = rng.below(8); p.x = static_cast<int>(rng.below(50));
    mon::log("%s na=%zu nb=%zu nv=%zu n=%zu", OPS[p.op], p.na, p.nb, p.nv, p.n);
    std::string op = OPS[p.op];
    // kind 0: an element operation fails; kind 1: an allocation fails; the last round of each injects nothing
    for (int kind = 0; kind < 2; ++kind) {
        for (long k = 0; k < 400; ++k) {
            Fixture<T> f;
            build(p, f);
            std::vector<int> a0 = vals(f.a), b0 = vals(f.b);
            size_t live0; { mon::Untracked u; live0 = mon::ps().live.size(); }
            size_t held0 = probes_in(f.a) + probes_in(f.b);
            long blocks0 = mon::live_blocks.load();
            bool fired = false; mon::Outcome o;
            if (kind == 0) { mon::FailElement fe(k); o = mon::attempt([&] { run_op(p, f); }); fired = fe.fired(); }
            else { mon::FailAlloc fa(k); o = mon::attempt([&] { run_op(p, f); }); fired = fa.fired(); }
            size_t live1; { mon::Untracked u; live1 = mon::ps().live.size(); }
            if (!fired) {
                MON_CHECK(o == mon::Outcome::returned, "unprovoked-failure/" + op, "the operation " << mon::name(o) << " though nothing failed");
                MON_CHECK(live1 - live0 == probes_in(f.a) + probes_in(f.b) - held0, "element-leak/" + op, live1 << " elements live after the operation, " << live0 << " before it, but the arrays hold " << probes_in(f.a) + probes_in(f.b) << " instead of " << held0);
                break;
            }
            MON_CHECK(o == (kind == 0 ? mon::Outcome::threw_runtime : mon::Outcome::threw_bad_alloc), "error-lost/" + op, "failure " << k << " of kind " << kind << " does not reach the caller: the operation " << mon::name(o));
            mon::event(kind == 0 ? "element failures injected" : "allocation failures injected");
            MON_CHECK(live1 - live0 == probes_in(f.a) + probes_in(f.b) - held0, "element-leak-on-failure/" + op,
                      "after failure " << k << " of kind " << kind << ", " << live1 << " elements live (before: " << live0 << "), but the arrays hold " << probes_in(f.a) + probes_in(f.b) << " (before: " << held0 << ")");
            MON_CHECK(vals(f.b) == b0, "argument-changed-by-failure/" + op, "the argument is changed by a failure");
            if (strong(p, f)) {
                MON_CHECK(vals(f.a) == a0, "array-changed-by-failure/" + op, "failure " << k << " of kind " << kind << " changes the array from " << mon::show(a0) << " to " << mon::show(vals(f.a)));
                MON_CHECK(mon::live_blocks.load() == blocks0, "storage-leak-on-failure/" + op, "failure " << k << " of kind " << kind << " leaks " << mon::live_blocks.load() - blocks0 << " blocks");
                mon::event("failures after which the array was unchanged");
            } else vals(f.a);
            // the array stays usable
            f.a.fill(f.v[0]); f.a = f.b; MON_CHECK(vals(f.a) == b0, "array-broken-by-failure/" + op, "the array cannot be assigned after a failure");
        }
    }
    mon::nontrivial();
}
MON_SUITE(faults_probe, 350, 12000) { faults<Probe>(rng); }
MON_SUITE(faults_wide, 120, 5000) { faults<WideProbe>(rng); }
// elements of other sizes and traits: the smallest ones, empty ones, and ones whose moves cannot fail but whose copies can
using Byte = mon::SmallProbe<unsigned char>; using Word = mon::SmallProbe<short>; using Int = mon::SmallProbe<int>; using Long = mon::SmallProbe<long>; using Copier = mon::SmallProbe<int, true>; using mon::EmptyProbe; using Mover = mon::BasicProbe<8, true>;
MON_SUITE(faults_byte, 60, 3000) { faults<Byte>(rng); }
MON_SUITE(faults_word, 40, 2000) { faults<Word>(rng); }
MON_SUITE(faults_int, 60, 3000) { faults<Int>(rng); }
MON_SUITE(faults_copier, 120, 5000) { faults<Copier>(rng); }
MON_SUITE(faults_long, 60, 3000) { faults<Long>(rng); }
MON_SUITE(faults_empty, 60, 2000) { faults<EmptyProbe>(rng); }
MON_SUITE(faults_mover, 160, 6000) { faults<Mover>(rng); }
MON_SUITE(faults_nested, 120, 5000) { faults<Array<Probe>>(rng); }

// random histories in which operations fail now and then
template<class T> void history(Rng& rng) {
    Fixture<T> f[2];
    for (auto& g : f) { Plan p{0, rng.below(6), rng.below(6), 1 + rng.below(6), 0, static_cast<int>(rng.below(50))}; build(p, g); }
    size_t base; { mon::Untracked u; base = mon::ps().live.size(); }
    auto held = [&] { size_t n = 0; for (auto& g : f) n += probes_in(g.a) + probes_in(g.b); return n; };
    size_t held0 = held();
    for (int i = 0, steps = 10 + static_cast<int>(rng.below(30)); i < steps; ++i) {
        Plan p{static_cast<unsigned>(rng.below(NOPS)), 0, 0, 0, rng.below(9), static_cast<int>(rng.below(50))};
        auto& g = f[rng.below(2)];
        long k = rng.chance(1, 2) ? static_cast<long>(rng.below(12)) : -1; bool el = rng.chance(1, 2);
        mon::log("%s n=%zu fail=%ld%s", OPS[p.op], p.n, k, el ? "e" : "a");
        bool fired; mon::Outcome o;
        if (el) { mon::FailElement fe(k); o = mon::attempt([&] { run_op(p, g); }); fired = fe.fired(); }
        else { mon::FailAlloc fa(k); o = mon::attempt([&] { run_op(p, g); }); fired = fa.fired(); }
        MON_CHECK((o == mon::Outcome::returned) == !fired, "error-lost/history", "an operation " << mon::name(o) << (fired ? " though it failed" : " though it did not fail"));
        for (auto& h : f) { vals(h.a); vals(h.b); }
        size_t live; { mon::Untracked u; live = mon::ps().live.size(); }
        MON_CHECK(live + held0 == base + held(), "element-leak/history", "the arrays hold " << held() << " elements, but " << live - (base - held0) << " live");
        mon::event(fired ? "history steps which failed" : "history steps");
    }
    mon::nontrivial();
}
MON_SUITE(history_probe, 250, 10000) { history<Probe>(rng); }
MON_SUITE(history_byte, 60, 3000) { history<Byte>(rng); }
MON_SUITE(history_copier, 60, 3000) { history<Copier>(rng); }
MON_SUITE(history_long, 60, 3000) { history<Long>(rng); }
MON_SUITE(history_empty, 40, 1500) { history<EmptyProbe>(rng); }
MON_SUITE(history_mover, 80, 4000) { history<Mover>(rng); }
MON_SUITE(history_nested, 100, 4000) { history<Array<Probe>>(rng); }

// sizes which cannot be represented
template<size_t N> struct Blob { unsigned char b[N]; Blob() : b() {} Blob(size_t) : b() {} };
template<size_t N> void oversize(Rng& rng) {
    size_t q = static_cast<size_t>(-1) / N;  // the largest representable number of elements
    size_t n;
    switch (rng.below(6)) {
    case 0: n = q + 1 + rng.below(20); break;
    case 1: n = q - rng.below(20); break;
    case 2: n = static_cast<size_t>(-1) - rng.below(20); break;
    case 3: n = (static_cast<size_t>(1) << (63 - rng.below(20))) + rng.below(3); break;
    case 4: n = q * (1 + rng.below(N > 3 ? N - 1 : 2)) + rng.below(2 * N) + 1; break;
    default: n = static_cast<size_t>(-1) / 2 + rng.below(10) - 5; break;
    }
    if (n < (static_cast<size_t>(1) << 40)) return;
    unsigned op = static_cast<unsigned>(rng.below(6)); size_t m = rng.below(5);
    mon::log("oversize %zu x %zu op %u", n, N, op);
    typedef Blob<N> T;
    Array<T> a(m); for (size_t i = 0; i < m; ++i) a[i].b[0] = static_cast<unsigned char>(i + 1);
    T const* where = a.begin();
    T x;
    // the variant which touches no element tells first, without running off the end of too little storage
    auto o = mon::attempt([&] { Array<T>* t = new Array<T>(n, Helper::Uninitialised()); (void)t; });
    MON_CHECK(o == mon::Outcome::threw_bad_alloc, "oversize/uninitialised", "an array of " << n << " elements of " << N << " bytes " << mon::name(o));
    o = mon::attempt([&] {
        switch (op) {
        case 0: { Array<T> t(n); break; }
        case 1: { Array<T> t(n, x); break; }
        case 2: { Array<T> t(n, [](size_t) { return T(); }); break; }
        case 3: a.resize(n); break;
        case 4: a.resize(n, x); break;
        case 5: a.reallocate(n); break;
        }
    });
    MON_CHECK(o == mon::Outcome::threw_bad_alloc, "oversize/constructing", "an array of " << n << " elements of " << N << " bytes " << mon::name(o));
    MON_CHECK(a.size() == m && a.begin() == where, "oversize/array-changed", "a failed request for " << n << " elements changes the array");
    for (size_t i = 0; i < m; ++i) MON_CHECK(a[i].b[0] == i + 1, "oversize/array-changed", "a failed request changes the elements");
    mon::event("unrepresentable sizes"); mon::nontrivial();
}
#ifndef MON_NO_ALLOC  // memcheck ends a program whose allocation fails
MON_SUITE(oversize, 400, 20000) {
    switch (rng.below(9)) { case 0: oversize<1>(rng); break; case 1: oversize<2>(rng); break; case 2: oversize<3>(rng); break; case 3: oversize<8>(rng); break; case 4: oversize<12>(rng); break;
        case 5: oversize<16>(rng); break; case 6: oversize<24>(rng); break; case 7: oversize<64>(rng); break; default: oversize<1000>(rng); }
}
#endif

// alignments
template<size_t A> void alignment(Rng& rng) {
    typedef mon::BasicProbe<A> T;
    size_t n = rng.below(6), m = rng.below(6); int x = static_cast<int>(rng.below(100));
    mon::log("alignment %zu n=%zu m=%zu", A, n, m);
    Array<T> a(n, T(x)); Array<T> b(m); Array<T> c(a); Array<T> d(std::move(c)); b = a; a.resize(m); b.resize(m + 1, T(x)); d.reallocate(m); Array<T> e = {T(1), T(2)}; d = e; d.assign(b.begin(), b.end());
    Array<int> s(m, x); Array<T> g(s); Array<T> h(n, [&](size_t i) { return T(static_cast<int>(i)); });
    for (Array<T> const* p : {&a, &b, &d, &e, &g, &h}) for (T const& y : *p) MON_CHECK(reinterpret_cast<uintptr_t>(&y) % A == 0, "misaligned", "an element is at " << &y << " but needs alignment " << A);
    MON_CHECK(d == b && b.size() == m + 1 && g.size() == m, "alignment/content", "wrong content");
    mon::event("alignments"); mon::nontrivial();
}
MON_SUITE(alignments, 200, 5000) {
    switch (rng.below(6)) { case 0: alignment<8>(rng); break; case 1: alignment<16>(rng); break; case 2: alignment<32>(rng); break; case 3: alignment<64>(rng); break; case 4: alignment<256>(rng); break; default: alignment<4096>(rng); }
}

// uninitialised storage belongs to the caller until it is filled; the arrays destroy what it constructed there
MON_SUITE(uninitialised, 60, 2000) {
    size_t n = rng.below(8); mon::log("uninitialised %zu", n);
    uint64_t c0 = mon::ps().constructed;
    { Array<Probe> a(n, Helper::Uninitialised());
      MON_CHECK(mon::ps().constructed == c0, "uninitialised/constructs", "an uninitialised array constructs elements");
      for (size_t i = 0; i < n; ++i) new (a.begin() + i) Probe(static_cast<int>(i)); }
    mon::nontrivial();
}

// arrays owned by the elements of others: moving a part of itself into an array releases what surrounds the source
struct Node { mon::Probe p; Array<Node> kids; };
MON_SUITE(owned_by_elements, 150, 6000) {
    int serial = 0; auto build = [&](auto& self, int depth) -> Array<Node> { Array<Node> a(1 + rng.below(3)); for (auto& n : a) { n.p = mon::Probe(serial++); if (depth > 0 && rng.chance(3, 4)) n.kids = self(self, depth - 1); } return a; };
    auto values = [&](auto& self, Array<Node> const& a, std::vector<int>& v) -> void { for (auto const& n : a) { { mon::Untracked u; v.push_back(n.p.get()); } self(self, n.kids, v); mon::Untracked u; v.push_back(-1); } };
    auto live = [] { mon::Untracked u; return mon::ps().live.size(); };
    { Array<Node> a = build(build, 4); mon::log("%d nodes", serial);
      for (int step = 0; step < 6 && !a.empty(); ++step) {
        size_t i = rng.below(a.size()); Array<Node>& part = a[i].kids; std::vector<int> want, got; values(values, part, want); bool move = part.size() == a.size() || rng.chance(1, 2); mon::log("%s part %zu", move ? "move" : "copy", i);
        if (move) a = std::move(part); else a = part;
        values(values, a, got); MON_CHECK(got == want, "own-part", "an array to which a part of itself is " << (move ? "moved" : "copied") << " holds " << mon::show(got) << ", expected " << mon::show(want));
        MON_CHECK(live() == got.size() / 2, "own-part/lifetime", live() << " elements live, expected " << got.size() / 2); mon::event("assignments of own parts"); } }
    MON_CHECK(live() == 0, "own-part/lifetime", live() << " elements outlive the arrays"); mon::nontrivial();
}
int main(int argc, char** argv) {
    mon::install_probe_monitor();
    mon::require("element failures injected", 1000); mon::require("allocation failures injected", 1000); mon::require("failures after which the array was unchanged", 500);
    
#ifndef MON_NO_ALLOC
    mon::require("unrepresentable sizes", 100);
#endif
    mon::require("alignments", 50); mon::require("history steps which failed", 100);
    mon::require("assignments of own parts", 100);
    return mon::main(argc, argv);
}
