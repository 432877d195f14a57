// C06: a Lazy object is computed at most once, on first use, and then stays the same.
#include "mon.hpp"
#include "probe.hpp"
#include <functional>
#include <memory>
#include <string>
#include "lazy.hpp"

using Helper::Lazy;
using mon::Probe;
using mon::Rng;

struct FuncError : std::runtime_error { FuncError() : std::runtime_error("function failed") {} };

// One object computed by a function: how many Lazies share it, and where it is
struct Obj { void const* where = nullptr; int value = 0; int owners = 0; };
struct Script { long calls = 0; std::vector<bool> fails; int next = 0; int last = 0; };
struct Slot { std::shared_ptr<Script> f; std::shared_ptr<Obj> o; };

template<class O> struct Make { static O* make(int x) { return new O(x); } static int val(O const& o) { return o.get(); } static constexpr bool counted = true; };
template<> struct Make<std::string> { static std::string* make(int x) { return new std::string(std::string(50, 's') + std::to_string(x)); } static int val(std::string const& s) { return std::atoi(s.c_str() + 50); } static constexpr bool counted = false; };
struct Base { virtual ~Base() = default; virtual int get() const = 0; };
struct Derived : Base { Probe p; Derived(int x) : p(x) {} int get() const override { return p.get(); } };
template<> struct Make<Base> { static Base* make(int x) { return new Derived(x); } static int val(Base const& b) { return b.get(); } static constexpr bool counted = true; };

template<class O> void history(Rng& r) {
    typedef Lazy<O> Z;
    constexpr int K = 5;
    std::unique_ptr<Z> z[K]; Slot m[K];
    int serial = 0;
    auto drop = [&](int i) { if (m[i].o) --m[i].o->owners; m[i] = Slot(); };
    auto own = [&](int i, Slot const& s) { Slot t = s; if (t.o) ++t.o->owners; drop(i); m[i] = t; };
    auto live_check = [&](const char* where) {
        if (!Make<O>::counted) return;
        mon::Untracked u; std::unordered_set<Obj*> objs; for (auto& s : m) if (s.o) objs.insert(s.o.get());
        MON_CHECK(mon::ps().live.size() == objs.size(), std::string("lifetime/") + where, "after " << where << " " << mon::ps().live.size() << " computed objects live, expected " << objs.size());
    };
    auto calls_check = [&](std::shared_ptr<Script> const& f, long expected, const char* where) {
        MON_CHECK(f->calls == expected, std::string("calls/") + where, where << ": the function was called " << f->calls << " times in all, expected " << expected); };
    int steps = 8 + static_cast<int>(r.below(40));
    for (int s = 0; s < steps; ++s) {
        int i = static_cast<int>(r.below(K)), k = static_cast<int>(r.below(K));
        // no operation but a first request may call any function
        std::vector<std::pair<std::shared_ptr<Script>, long>> before;
        { mon::Untracked u; for (auto& x : m) if (x.f) before.push_back({x.f, x.f->calls}); }
        std::shared_ptr<Script> may;
        switch (r.below(9)) {
        case 8: { if (!z[k] || i == k) break; mon::log("z%d=move z%d", i, k); if (z[i] && r.chance(1, 2)) { *z[i] = std::move(*z[k]); } else { z[i].reset(new Z(std::move(*z[k]))); } z[k].reset(); { mon::Untracked u; Slot t = m[k]; own(i, t); drop(k); } mon::event(m[i].o ? "moves after the first request" : "moves before the first request"); break; }
        case 0: { mon::Untracked* u = new mon::Untracked; auto f = std::make_shared<Script>(); f->next = 1000 * ++serial; for (int j = 0; j < 3; ++j) f->fails.push_back(r.chance(1, 4)); delete u;
            mon::log("z%d=Lazy(f%d fails %d%d%d)", i, serial, static_cast<int>(f->fails[0]), static_cast<int>(f->fails[1]), static_cast<int>(f->fails[2]));
            std::function<O*()> fn = [f]() -> O* { long c = f->calls++; if (c < static_cast<long>(f->fails.size()) && f->fails[static_cast<size_t>(c)]) throw FuncError(); f->last = ++f->next; return Make<O>::make(f->last); };
            z[i].reset(new Z(fn)); { mon::Untracked v; Slot t; t.f = f; own(i, t); } calls_check(f, 0, "construction"); break; }
        case 1: { if (!z[k] || i == k) break; mon::log("z%d=copy z%d", i, k); z[i].reset(new Z(*z[k])); { mon::Untracked u; own(i, m[k]); } mon::event(m[k].o ? "copies after the first request" : "copies before the first request"); break; }
        case 2: { if (!z[k] || !z[i]) break; mon::log("z%d:=z%d", i, k); Z& y = *z[k]; *z[i] = y; { mon::Untracked u; Slot t = m[k]; own(i, t); } mon::event(i == k ? "self assignments" : "assignments"); break; }
        case 3: { if (!z[i]) break; mon::log("del z%d", i); z[i].reset(); { mon::Untracked u; drop(i); } break; }
        default: { if (!z[i]) break; mon::log("z%d()", i);
            Z const& c = *z[i]; O const* p = nullptr; long n0 = m[i].f->calls;
            bool will_fail = !m[i].o && n0 < 3 && m[i].f->fails[static_cast<size_t>(n0)];
            may = m[i].f;
            auto o = mon::attempt([&] { p = &c(); });
            if (m[i].o) {
                MON_CHECK(o == mon::Outcome::returned, "later-request/fails", "a later request " << mon::name(o)); calls_check(m[i].f, n0, "a later request");
                MON_CHECK(p == m[i].o->where, "later-request/other-object", "a later request returns another object");
                mon::event(m[i].o->owners > 1 ? "requests of a shared object" : "later requests");
            } else if (will_fail) {
                MON_CHECK(o == mon::Outcome::threw_runtime, "function-error-lost", "the function fails, but the request " << mon::name(o)); calls_check(m[i].f, n0 + 1, "a failing request"); mon::event("failing requests");
            } else {
                MON_CHECK(o == mon::Outcome::returned, "first-request/fails", "a first request " << mon::name(o)); calls_check(m[i].f, n0 + 1, "a first request");
                mon::Untracked u; m[i].o = std::make_shared<Obj>(); m[i].o->where = p; m[i].o->value = m[i].f->last; m[i].o->owners = 1; mon::event(n0 ? "first successes after earlier calls" : "first requests");
            }
            if (p) MON_CHECK(Make<O>::val(*p) == m[i].o->value, "value", "the object has the value " << Make<O>::val(*p) << ", but the function produced " << m[i].o->value);
            break; }
        }
        for (auto& b : before) if (b.first != may) MON_CHECK(b.first->calls == b.second, "uninvited-call", "a function is called by an operation which requests nothing of it");
        { mon::Untracked u; before.clear(); may.reset(); }
        live_check("a step"); mon::event("steps");
    }
    for (int i = 0; i < K; ++i) { z[i].reset(); { mon::Untracked u; drop(i); } live_check("destruction"); }
    mon::nontrivial();
}
MON_SUITE(probe, 500, 25000) { history<Probe>(rng); }
MON_SUITE(text, 200, 8000) { history<std::string>(rng); }
MON_SUITE(polymorphic, 250, 10000) { history<Base>(rng); }

// functions which fail many times, with exceptions of many types, before they succeed
struct Stop { int n; };
MON_SUITE(stubborn, 120, 4000) {
    long fails = static_cast<long>(rng.chance(1, 4) ? rng.edge(1100) : rng.below(20)), calls = 0; uint64_t kinds = rng.next(); mon::log("%ld failures", fails); auto live = [] { mon::Untracked u; return mon::ps().live.size(); };
    Lazy<Probe> z([&]() -> Probe* { ++calls; Probe p(3); if (calls <= fails) switch ((kinds >> (calls % 20 * 3)) % 6) { case 0: throw FuncError(); case 1: throw 5L; case 2: throw Stop{7}; case 3: throw std::bad_alloc(); case 4: { std::unique_ptr<Probe> half(new Probe(9)); throw std::logic_error("half"); } default: throw std::string("text"); } return new Probe(static_cast<int>(calls)); });
    std::unique_ptr<Lazy<Probe>> early(new Lazy<Probe>(z)); if (rng.chance(1, 2)) early.reset();
    for (long i = 1; i <= fails; ++i) { bool right = false; int kind = static_cast<int>((kinds >> (i % 20 * 3)) % 6); try { z(); } catch (long x) { right = kind == 1 && x == 5; } catch (Stop const& s) { right = kind == 2 && s.n == 7; } catch (std::bad_alloc const&) { right = kind == 3; } catch (FuncError const&) { right = kind == 0; } catch (std::logic_error const&) { right = kind == 4; } catch (std::string const& t) { right = kind == 5 && t == "text"; } catch (...) {}
        MON_CHECK(right, "function-error-lost", "failure " << i << " of kind " << kind << " does not reach the caller as it is"); MON_CHECK(calls == i && live() == 0, "calls/a failing request", "after " << i << " failing requests there were " << calls << " calls and " << live() << " objects live"); mon::event("failing requests"); }
    Probe const* p = &z(); for (long i = 0, n = static_cast<long>(rng.chance(1, 10) ? 70000 : rng.edge(700)); i < n; ++i) if (&z() != p) { MON_CHECK(false, "later-request/other-object", "request " << i + 2 << " returns another object"); } MON_CHECK(calls == fails + 1 && p->get() == static_cast<int>(fails + 1) && live() == 1, "calls/a later request", "after many requests there were " << calls << " calls, expected " << fails + 1);
    if (early) { MON_CHECK((*early)().get() == static_cast<int>(fails + 2) && calls == fails + 2 && live() == 2 && &z() == p, "early-copy", "a copy made before the first request does not compute its own object"); early.reset(); MON_CHECK(live() == 1 && z().get() == static_cast<int>(fails + 1), "early-copy", "destroying a copy with its own object affects the other"); }
    mon::nontrivial();
}
// functions which remember what they did: the next request calls the same function again, not what it was in the beginning
MON_SUITE(remembering, 150, 4000) {
    long fails = static_cast<long>(rng.below(6)), copied_at = rng.range(-1, 5), calls = 0; mon::log("%ld failures, copied after %ld", fails, copied_at); auto live = [] { mon::Untracked u; return mon::ps().live.size(); };
    struct F { long fails, own = 0; long* all; std::vector<int> memory; Probe* operator()() { ++*all; ++own; memory.push_back(static_cast<int>(own)); if (own <= fails) throw FuncError(); return new Probe(static_cast<int>(own * 100 + static_cast<long>(memory.size()))); } };
    F f; f.fails = fails; f.all = &calls; std::unique_ptr<Lazy<Probe>> z(new Lazy<Probe>(f)), y; auto expected = [&] { return static_cast<int>((fails + 1) * 101); };
    for (long i = 0; i < fails; ++i) { if (i == copied_at) y.reset(new Lazy<Probe>(*z)); auto o = mon::attempt([&] { (*z)(); }); MON_CHECK(o == mon::Outcome::threw_runtime && calls == i + 1, "remembering/failing", "request " << i + 1 << " of a function which fails " << fails << " times " << mon::name(o) << " after " << calls << " calls"); }
    Probe const* p = nullptr; auto o = mon::attempt([&] { p = &(*z)(); }); MON_CHECK(o == mon::Outcome::returned && p && calls == fails + 1, "remembering/function-forgets", "after " << fails << " failures, counted by the function itself, the request " << mon::name(o)); if (!p) return; MON_CHECK(p->get() == expected() && &(*z)() == p && calls == fails + 1, "remembering/value", "the object has the value " << p->get());
    if (y) { long more = 0; Probe const* q = nullptr; while (!q && more < 10) { ++more; mon::attempt([&] { q = &(*y)(); }); } MON_CHECK(q && q != p && more <= fails + 1 && calls == fails + 1 + more, "remembering/copy", "a copy made before the first success takes " << more << " requests"); mon::event("copies of functions which remember"); if (q) y.reset(); }
    MON_CHECK(live() == 1 && (*z)().get() == expected(), "remembering/lifetime", live() << " objects live"); z.reset(); MON_CHECK(live() == 0, "remembering/lifetime", live() << " objects live in the end"); mon::event("functions which remember"); mon::nontrivial();
}
// very many copies of one lazy object
MON_SUITE(crowds, 12, 120) {
    size_t n = std::vector<size_t>{2, 101, 255, 256, 257, 300, 1000, 4096, 32768, 65535, 65536, 70001}[mon::st().case_no % 12]; long calls = 0; mon::log("%zu copies", n); auto live = [] { mon::Untracked u; return mon::ps().live.size(); };
    { Lazy<Probe> z([&] { ++calls; return new Probe(static_cast<int>(calls)); }); Probe const* p = &z(); std::vector<Lazy<Probe>> v; v.reserve(n); for (size_t i = 0; i < n; ++i) { v.push_back(rng.chance(1, 2) || v.empty() ? z : v[rng.below(v.size())]); if (rng.chance(1, 50)) MON_CHECK(&v.back()() == p, "later-request/other-object", "copy " << i << " returns another object"); }
      for (size_t i = 0; i < n; ++i) if (&v[i]() != p) { MON_CHECK(false, "later-request/other-object", "copy " << i << " of " << n << " returns another object"); } MON_CHECK(&z() == p && calls == 1 && live() == 1 && p->get() == 1, "calls/a later request", n << " copies made " << calls << " calls and " << live() << " objects");
      while (v.size() > rng.below(n)) v.pop_back(); MON_CHECK(&z() == p && live() == 1, "lifetime/crowd", "destroying copies destroys the object"); v.clear(); MON_CHECK(&z() == p && live() == 1 && calls == 1, "lifetime/crowd", "destroying copies destroys the object"); mon::event("crowds"); }
    MON_CHECK(live() == 0, "lifetime/crowd", "an object outlives all copies"); mon::nontrivial();
}
// lazy objects owned by the objects of others: a list computed as it is walked
struct Step { Probe p; std::shared_ptr<Lazy<Step>> next; Step(int x) : p(x) {} };
MON_SUITE(owned_by_objects, 80, 3000) {
    int depth = 1 + static_cast<int>(rng.below(40)), made = 0; std::function<Step*(int)> make = [&](int i) { ++made; Step* s = new Step(i); s->next = std::make_shared<Lazy<Step>>([&make, i] { return make(i + 1); }); return s; }; mon::log("walk of %d", depth);
    { Lazy<Step> l([&] { return make(0); }); for (int i = 0; i < depth; ++i) { bool twice = rng.chance(1, 3); if (twice) l(); MON_CHECK(l().p.get() == i && made == i + 1, "own-part/value", "step " << i << " has the value " << l().p.get() << " after " << made << " calls"); size_t live; { mon::Untracked u; live = mon::ps().live.size(); } MON_CHECK(live == 1, "own-part/lifetime", live << " objects live at step " << i); if (rng.chance(1, 2)) (*l().next)(); l = *l().next; mon::event("own parts"); } }
    mon::nontrivial();
}
// functions which use other lazy objects, and allocation failures on the first request
MON_SUITE(nested, 200, 8000) {
    int depth = 1 + static_cast<int>(rng.below(6)); mon::log("depth %d", depth);
    std::vector<std::unique_ptr<Lazy<Probe>>> z; std::vector<long> calls(static_cast<size_t>(depth), 0);
    for (int i = 0; i < depth; ++i) z.emplace_back(new Lazy<Probe>([&z, &calls, i]() { ++calls[static_cast<size_t>(i)]; return new Probe(i == 0 ? 1 : 2 * (*z[static_cast<size_t>(i - 1)])().get() + 1); }));
    for (int t = 0; t < 5; ++t) { int i = static_cast<int>(rng.below(static_cast<uint64_t>(depth))); mon::log("z%d()", i); MON_CHECK((*z[static_cast<size_t>(i)])().get() == (2 << i) - 1, "nested/value", "wrong value");
        for (long c : calls) MON_CHECK(c <= 1, "nested/calls", "a function is called " << c << " times"); }
    mon::event("nested lazies"); mon::nontrivial();
}
MON_SUITE(allocation, 60, 2000) {
    mon::log("allocation failures %llu", static_cast<unsigned long long>(mon::st().case_no));
    for (long k = 0; k < 50; ++k) {
        Lazy<Probe> z([] { return new Probe(4); }); mon::Outcome o; bool fired;
        { mon::FailAlloc f(k); o = mon::attempt([&] { z(); }); fired = f.fired(); }
        size_t live; { mon::Untracked u; live = mon::ps().live.size(); }
        if (!fired) { MON_CHECK(o == mon::Outcome::returned && live == 1, "allocation/no-failure", "a request " << mon::name(o)); break; }
        MON_CHECK(o == mon::Outcome::threw_bad_alloc && live == 0, "allocation/failure", "a request whose allocation fails " << mon::name(o) << " and leaves " << live << " objects");
        MON_CHECK(z().get() == 4, "allocation/retry", "wrong value"); mon::event("allocation failures");
    }
    mon::nontrivial();
}

int main(int argc, char** argv) {
    mon::install_probe_monitor();
    mon::require("copies after the first request", 100); mon::require("copies before the first request", 100); mon::require("failing requests", 100); mon::require("first requests", 100); mon::require("later requests", 100);
    mon::require("requests of a shared object", 100); mon::require("nested lazies", 50); mon::require("own parts", 100); mon::require("crowds", 12); mon::require("moves after the first request", 50); mon::require("moves before the first request", 50);
    return mon::main(argc, argv);
}
