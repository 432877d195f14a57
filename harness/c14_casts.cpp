// C14: casts of handles and extraction from them.  Oracle: for every pair of dynamic and requested type, convertibility
// of the class pointers as the compiler sees it; identity, lifetime and the text on the error stream are observed.
#include "mon.hpp"
#include "probe.hpp"
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <cstdlib>
#include <iostream>
#include "handle.hpp"

using Helper::Handle; using Helper::Wrapper; using Helper::WritableInterface; using Helper::dynamic_handle_cast; using Helper::dynamic_handle_extract; using Helper::dynamic_pointer_extract; using mon::Probe; using mon::Rng;

struct I { virtual ~I() = default; virtual int id() const = 0; virtual I* clone() const { MON_CHECK(false, "cloned", "a cast or an extraction clones the object"); return nullptr; } };
struct K { virtual ~K() = default; long k = 5; };
struct L : virtual I { virtual int l() const { return 1; } };
struct M : virtual I { long m = 6; };
struct N : I { int n = 8; };
struct Plain { Probe p; explicit Plain(int x) : p(x) {} virtual ~Plain() = default; };
struct Other { virtual ~Other() = default; };
struct NeverMade : I { int id() const override { return -1; } };
// dynamic types
struct D0 : I { Probe p; explicit D0(int x) : p(x) {} int id() const override { return p.get(); } };
struct D1 : K, N { Probe p; explicit D1(int x) : p(x) {} int id() const override { return p.get(); } };
struct D2 : L, K, M { Probe p; explicit D2(int x) : p(x) {} int id() const override { return p.get(); } };
struct D3 : Other, L, WritableInterface { Probe p; explicit D3(int x) : p(x) {} int id() const override { return p.get(); } std::ostream& _write(std::ostream& os) const override { return os << "<D3:" << p.get() << ">"; } };
struct D4 : I, private K { Probe p; explicit D4(int x) : p(x) {} int id() const override { return p.get(); } };
struct D5 : D1 { using D1::D1; int extra = 4; };
struct W6 : Wrapper<Plain, I> { explicit W6(int x) : Wrapper<Plain, I>(Plain(x)) {} int id() const override { return p.get(); } };
struct Twin : Plain { using Plain::Plain; };
struct W7 : Wrapper<Plain, I>, Twin, WritableInterface { explicit W7(int x) : Wrapper<Plain, I>(Plain(x)), Twin(x + 1) {} int id() const override { return Wrapper<Plain, I>::p.get(); } std::ostream& _write(std::ostream& os) const override { return os << "<W7:" << id() << ">"; } };  // Plain is ambiguous here
struct W8 : K, Wrapper<D0, I> { explicit W8(int x) : Wrapper<D0, I>(D0(x)) {} int id() const override { return p.get(); } };  // a wrapped object which has the interface itself
template<class D> constexpr size_t probes = std::is_same_v<D, W7> ? 2 : 1;
template<class D> constexpr bool writable = std::is_base_of_v<WritableInterface, D>;
template<class D> std::string text(int x) { return std::is_same_v<D, D3> ? "<D3:" + std::to_string(x) + ">" : "<W7:" + std::to_string(x) + ">"; }
template<class D> I const* iface(D const* d) { if constexpr (std::is_same_v<D, W8>) return static_cast<I const*>(static_cast<D0 const*>(d)); else return d; }
// where the part of the requested type is, or null if there is none
template<class T, class D> T const* part(D const* d) {
    if constexpr (std::is_same_v<T, I>) return iface(d);
    else if constexpr (std::is_convertible_v<D const*, T const*>) return d;
    else if constexpr (std::is_base_of_v<Wrapper<T, I>, D>) return static_cast<Wrapper<T, I> const*>(d);
    else return nullptr;
}
template<class T, class D> constexpr bool ambiguous = !std::is_convertible_v<D const*, T const*> && std::is_base_of_v<Wrapper<T, std::conditional_t<std::is_same_v<T, I>, K, I>>, D>;
template<class D> std::shared_ptr<I> hold(D* d) { if constexpr (std::is_same_v<D, W8>) { std::shared_ptr<D> s(d); return std::shared_ptr<I>(s, const_cast<I*>(iface(d))); } else return std::shared_ptr<I>(d); }

struct Captured {
    std::streambuf* old; std::ostringstream os; Captured() { mon::Untracked u; old = std::cerr.rdbuf(os.rdbuf()); } ~Captured() { std::cerr.rdbuf(old); }
    std::string text() { mon::Untracked u; return os.str(); }
};
size_t live() { mon::Untracked u; return mon::ps().live.size(); }
template<class T> struct Mine : Handle<T> { using Handle<T>::Handle; Mine(Handle<T> h) : Handle<T>(h) {} };  // a handle class as users derive them

// The judgements are made by functions which are not templates, to keep the harness quick to compile.
struct Subject { I const* ip; int x; size_t n0, probes; std::string text; };
void intact(Subject const& s, I const* held, char const* what) {
    if (held) MON_CHECK(held == s.ip && held->id() == s.x, std::string("handle-changed/") + what, what << " changes the handle or the object");
    MON_CHECK(live() == s.n0 && s.ip->id() == s.x, std::string("object-changed/") + what, what << " leaves " << live() << " objects alive and the value " << s.ip->id() << ", expected " << s.n0 << " and " << s.x);
}
void gone(Subject const& s) { MON_CHECK(live() == s.n0 - s.probes, "not-destroyed", "the object outlives its last owner, or died earlier"); mon::event("last owners"); }
void outcome(Subject const& s, mon::Outcome o, void const* got, void const* want, Captured& c, char const* what) {
    std::string t = c.text(); bool good = std::cerr.good(); std::cerr.clear();
    if (want) { MON_CHECK(o == mon::Outcome::returned, std::string("rejected/") + what, what << " for an object which has the type " << mon::name(o) << " " << t); MON_CHECK(got == want, std::string("identity/") + what, what << " refers to another object"); mon::event("successes"); return; }
    MON_CHECK(o == mon::Outcome::threw_bad_cast, std::string("accepted/") + what, what << " for an object without the type " << mon::name(o)); MON_CHECK(good && !t.empty(), std::string("unreported/") + what, what << " failed without a report, or damaged the error stream");
    MON_CHECK(t.find(s.text) != std::string::npos, std::string("report/") + what, what << " reports '" << t << "' without the object's text"); mon::event("failures");
}
void pointer_outcome(mon::Outcome o, void const* got, void const* want) {
    MON_CHECK(o == mon::Outcome::returned, "failed/pointer extraction", "pointer extraction " << mon::name(o)); MON_CHECK(got == want, "identity/pointer extraction", "pointer extraction" << (got ? " refers to another object" : " gives null") << ", expected " << (want ? "the object" : "null")); mon::event(want ? "successes" : "null pointers");
}
template<class D, class T, class II> void one(Rng& r, int x) {
    D* d = new D(x); std::shared_ptr<I> keep = hold(d); T const* want = part<T>(d); constexpr bool amb = !std::is_same_v<T, I> && ambiguous<T, D>; std::unique_ptr<Handle<II>> h(new Handle<II>(std::shared_ptr<II>(keep))); keep.reset(); std::vector<Handle<II>> crowd; if (r.chance(1, 4)) { mon::Untracked u; crowd.assign(r.chance(1, 12) ? 300 : r.below(40), *h); }  // other handles which hold the object
    Subject const s{iface(d), x, live(), probes<D>, writable<D> ? text<D>(x) : ""}; bool destroy = r.chance(1, 2); auto held = [&]() -> I const* { return h ? std::as_const(*h).pointer() : nullptr; };
    if constexpr (!amb) {
        std::unique_ptr<Handle<T const>> got; { Captured c; auto o = mon::attempt([&] { got.reset(new Handle<T const>(dynamic_handle_cast<Handle<T const>>(std::as_const(*h)))); }); outcome(s, o, got ? got->pointer() : nullptr, want, c, "cast to a constant handle"); }
        if (want && destroy) { { mon::Untracked u; crowd.clear(); } h.reset(); intact(s, nullptr, "destroying the original handle"); { Captured c; outcome(s, mon::Outcome::returned, got->pointer(), want, c, "the cast handle later"); } got.reset(); gone(s); return; }
        got.reset(); intact(s, held(), "cast to a constant handle");
        if constexpr (!std::is_const_v<II>) { std::unique_ptr<Mine<T>> own; { Captured c; auto o = mon::attempt([&] { own.reset(new Mine<T>(dynamic_handle_cast<Mine<T>>(std::as_const(*h)))); }); outcome(s, o, own ? std::as_const(*own).pointer() : nullptr, want, c, "cast to a mutable handle"); } intact(s, held(), "cast to a mutable handle"); own.reset(); intact(s, held(), "destroying a cast handle"); }
    }
    if constexpr (!std::is_same_v<T, I>) {
        { T const* got = nullptr; Captured c; auto o = mon::attempt([&] { got = &dynamic_handle_extract<T>(std::as_const(*h)); }); outcome(s, o, got, want, c, "extraction"); } intact(s, held(), "extraction");
        { T const* got = nullptr; Captured c; auto o = mon::attempt([&] { auto& y = dynamic_handle_extract<T>(*h); if constexpr (std::is_const_v<II>) static_assert(std::is_const_v<std::remove_reference_t<decltype(y)>>); got = &y; }); outcome(s, o, got, want, c, "extraction from a variable"); } intact(s, held(), "extraction from a variable");
        std::shared_ptr<I const> p = std::as_const(*h).managed_pointer(); std::shared_ptr<T const> q; { Captured c; auto o = mon::attempt([&] { q = dynamic_pointer_extract<T>(p); }); pointer_outcome(o, q.get(), want); } intact(s, held(), "pointer extraction");
        if (q) { { mon::Untracked u; crowd.clear(); } p.reset(); h.reset(); intact(s, nullptr, "dropping all but the extracted pointer"); q.reset(); gone(s); return; }
    }
    { mon::Untracked u; crowd.clear(); } h.reset(); gone(s);
}
template<class D, class II, class... T> void targets(Rng& r, int x) { ((mon::log("%s -> %s", typeid(D).name(), typeid(T).name()), one<D, T, II>(r, x)), ...); }
template<class D> void dynamic(Rng& r) { int x = static_cast<int>(r.below(100000)); mon::log("value %d", x); targets<D, I, I, K, L, M, N, Plain, Other, Twin, NeverMade, WritableInterface, D0, D1, D2, D3, D4, D5, W6>(r, x); targets<D, I const, I, K, L, M, N, Plain, Other, Twin, NeverMade, WritableInterface, D0, D1, D2, D3, D4, D5, W6>(r, x); mon::nontrivial(); }
#if PART == 0
MON_SUITE(d0, 15, 600) { dynamic<D0>(rng); }
MON_SUITE(d1, 15, 600) { dynamic<D1>(rng); }
MON_SUITE(d2, 15, 600) { dynamic<D2>(rng); }
#endif
#if PART == 1
MON_SUITE(d3, 15, 600) { dynamic<D3>(rng); }
MON_SUITE(d4, 15, 600) { dynamic<D4>(rng); }
MON_SUITE(d5, 15, 600) { dynamic<D5>(rng); }
#endif
#if PART == 2
MON_SUITE(w6, 15, 600) { dynamic<W6>(rng); }
MON_SUITE(w7, 15, 600) { dynamic<W7>(rng); }
MON_SUITE(w8, 15, 600) { dynamic<W8>(rng); }
#endif

#if PART == 0
// ------------------------------------------------------------------ chains of casts
struct State { std::shared_ptr<Handle<I>> i; std::shared_ptr<Handle<K>> k; std::shared_ptr<Handle<L>> l; std::shared_ptr<Handle<M const>> m; };
template<class To, class From, class D> void link(std::shared_ptr<To>& to, std::shared_ptr<From> const& from, D const* d) {
    typedef std::remove_const_t<typename To::Interface> T; T const* want = part<T>(d); Captured c; std::shared_ptr<To> got; auto o = mon::attempt([&] { got = std::make_shared<To>(dynamic_handle_cast<To>(std::as_const(*from))); });
    if (want) { MON_CHECK(o == mon::Outcome::returned && std::as_const(*got).pointer() == want, "chain", "a cast in a chain " << mon::name(o) << " or refers to another object"); to = got; } else { MON_CHECK(o == mon::Outcome::threw_bad_cast, "chain", "an impossible cast in a chain " << mon::name(o)); }
    mon::event("casts in chains");
}
template<class D> void chain(Rng& r) {
    int x = static_cast<int>(r.below(100000)); D* d = new D(x); State s; s.i = std::make_shared<Handle<I>>(hold(d)); size_t n0 = live();
    for (int n = 0; n < 25; ++n) {
        switch (r.below(9)) {
        case 0: mon::log("i->k"); if (s.i) link(s.k, s.i, d); break; case 1: mon::log("i->l"); if (s.i) link(s.l, s.i, d); break; case 2: mon::log("k->i"); if (s.k) link(s.i, s.k, d); break; case 3: mon::log("l->k"); if (s.l) link(s.k, s.l, d); break;
        case 4: mon::log("k->l"); if (s.k) link(s.l, s.k, d); break; case 5: mon::log("k->m"); if (s.k) link(s.m, s.k, d); break; case 6: mon::log("i->m"); if (s.i) link(s.m, s.i, d); break;
        default: { int owners = !!s.i + !!s.k + !!s.l + !!s.m; if (owners < 2) break; switch (r.below(4)) { case 0: mon::log("del i"); s.i.reset(); break; case 1: mon::log("del k"); s.k.reset(); break; case 2: mon::log("del l"); s.l.reset(); break; default: mon::log("del m"); s.m.reset(); break; } if (!s.i && !s.k && !s.l && !s.m) { MON_CHECK(live() == n0 - probes<D>, "not-destroyed", "the object outlives its last owner"); mon::nontrivial(); return; } break; }
        }
        MON_CHECK(live() == n0 && d->id() == x, "chain-object", "after a cast in a chain " << live() << " objects live, expected " << n0);
    }
    s = State(); MON_CHECK(live() == n0 - probes<D>, "not-destroyed", "the object outlives its last owner"); mon::event("chains"); mon::nontrivial();
}
MON_SUITE(chain_d1, 100, 5000) { chain<D1>(rng); }
MON_SUITE(chain_d2, 100, 5000) { chain<D2>(rng); }
MON_SUITE(chain_d3, 100, 5000) { chain<D3>(rng); }
MON_SUITE(chain_d5, 100, 5000) { chain<D5>(rng); }
// ------------------------------------------------------------------ objects of all types in turn, at addresses which come again
struct Mixed { std::unique_ptr<Handle<I>> h; std::unique_ptr<Handle<I const>> c; std::vector<void const*> want; Subject s; };
template<class... T> struct Targets {
    template<class D> static Mixed make(int x) { D* d = new D(x); std::shared_ptr<I> p = hold(d); Mixed m; m.h.reset(new Handle<I>(p)); m.c.reset(new Handle<I const>(std::as_const(*m.h))); { mon::Untracked u; m.want = {part<T>(d)...}; m.s = Subject{iface(d), x, 0, probes<D>, writable<D> ? text<D>(x) : ""}; } return m; }
    template<class X> static void request(Mixed& m, size_t k, int way) {
        void const* got = nullptr; void const* want = m.want[k]; Captured c; mon::Outcome o; std::shared_ptr<X const> q;
        switch (way) {
        case 0: o = mon::attempt([&] { Handle<X const> t = dynamic_handle_cast<Handle<X const>>(std::as_const(*m.h)); got = t.pointer(); }); outcome(m.s, o, got, want, c, "cast among others"); break;
        case 1: o = mon::attempt([&] { Handle<X const> t = dynamic_handle_cast<Handle<X const>>(*m.c); got = t.pointer(); }); outcome(m.s, o, got, want, c, "cast of a constant handle among others"); break;
        case 2: o = mon::attempt([&] { got = &dynamic_handle_extract<X>(std::as_const(*m.h)); }); outcome(m.s, o, got, want, c, "extraction among others"); break;
        case 3: o = mon::attempt([&] { got = &dynamic_handle_extract<X>(*m.c); }); outcome(m.s, o, got, want, c, "extraction from a constant handle among others"); break;
        case 4: o = mon::attempt([&] { Mine<X> t = dynamic_handle_cast<Mine<X>>(std::as_const(*m.h)); got = std::as_const(t).pointer(); }); outcome(m.s, o, got, want, c, "mutable cast among others"); break;
        default: o = mon::attempt([&] { q = dynamic_pointer_extract<X>(std::shared_ptr<I const>(m.c->managed_pointer())); got = q.get(); }); pointer_outcome(o, got, want); break;
        }
        mon::event("requests among others");
    }
    static void request(Mixed& m, size_t k, int way) { size_t i = 0; ((i++ == k ? request<T>(m, i - 1, way) : void()), ...); }
    static size_t count() { return sizeof...(T); }
};
MON_SUITE(mixed, 150, 6000) {
    typedef Targets<K, M, N, Plain, WritableInterface, D0, D1, D3, D5, Other> All; std::vector<Mixed> v; size_t k = rng.below(All::count()); int way = 0;
    for (int n = 0; n < 60; ++n) {
        if (v.empty() || (v.size() < 6 && rng.chance(1, 2))) { int x = static_cast<int>(rng.below(1000)), t = static_cast<int>(rng.below(8)); mon::log("make %d value %d", t, x); Mixed m; switch (t) { case 0: m = All::make<D0>(x); break; case 1: m = All::make<D1>(x); break; case 2: m = All::make<D2>(x); break; case 3: m = All::make<D3>(x); break; case 4: m = All::make<D4>(x); break; case 5: m = All::make<D5>(x); break; case 6: m = All::make<W6>(x); break; default: m = All::make<W8>(x); break; } mon::Untracked u; v.push_back(std::move(m)); }
        else if (rng.chance(1, 4)) { size_t i = rng.below(v.size()); mon::log("drop %zu", i); Mixed m; { mon::Untracked u; m = std::move(v[i]); v.erase(v.begin() + static_cast<std::ptrdiff_t>(i)); } size_t n0 = live(); m.h.reset(); m.c.reset(); MON_CHECK(live() == n0 - m.s.probes, "not-destroyed", "the object outlives its last owner, or died earlier"); }
        // the same request to several objects, and different requests to one
        if (rng.chance(1, 3)) { k = rng.below(All::count()); way = static_cast<int>(rng.below(6)); }
        for (size_t i = 0; i < v.size(); ++i) if (rng.chance(2, 3)) { mon::log("request %zu way %d of %zu", k, way, i); size_t n0 = live(); All::request(v[i], k, way); MON_CHECK(live() == n0 && v[i].s.ip->id() == v[i].s.x && std::as_const(*v[i].h).pointer() == v[i].s.ip && v[i].c->pointer() == v[i].s.ip, "handle-changed/among others", "a request changes a handle or an object"); }
    }
    { mon::Untracked u; for (auto& m : v) { m.h.reset(); m.c.reset(); } v.clear(); v.shrink_to_fit(); } mon::nontrivial();
}
MON_SUITE(null_pointer, 3, 30) { mon::log("null"); std::shared_ptr<I const> p; auto q = dynamic_pointer_extract<D0>(p); MON_CHECK(!q, "null", "extracting from a null pointer gives an object"); mon::nontrivial(); }
#endif
int main(int c, char** v) {
    mon::install_probe_monitor();
    for (char const* e : {"successes", "failures", "null pointers", "last owners"}) mon::require(e, 300);
#if PART == 0
    mon::require("casts in chains", 300); mon::require("requests among others", 2000);
#endif
    return mon::main(c, v);
}
