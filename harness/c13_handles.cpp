// C13: handles share one object until one of them is used for writing.  Oracle: a model of which handles refer to the
// same object and of the objects' values; object lifetimes are observed by Probe members and the tracked allocator.
#include "mon.hpp"
#include "probe.hpp"
#include <memory>
#include <string>
#include <set>
#include <vector>
#include <functional>
#include <cstdlib>
#include <iostream>
#include "handle.hpp"

using Helper::Handle; using Helper::Wrapper; using mon::Probe; using mon::Rng;

// ------------------------------------------------------------------ a hierarchy: J is an I
struct I { virtual ~I() = default; virtual I* clone() const = 0; virtual I* _copy() const = 0; virtual I* _move() = 0; virtual int get() const = 0; virtual void set(int) = 0; virtual char kind() const = 0; };
struct J : virtual I { J* clone() const override = 0; };
struct Counts { long clones = 0, copies = 0, moves = 0; }; inline Counts counts;
struct A : I { Probe p; explicit A(int x) : p(x) {} A(A const&) = default; A(A&&) = default; I* clone() const override { ++counts.clones; return new A(*this); } I* _copy() const override { ++counts.copies; return new A(*this); } I* _move() override { ++counts.moves; return new A(std::move(*this)); } int get() const override { return p.get(); } void set(int x) override { p.must_live("written"); p.v = x; } char kind() const override { return 'A'; } };
struct Pad { virtual ~Pad() = default; long pad[3] = {1, 2, 3}; };
struct B : Pad, J { Probe p; explicit B(int x) : p(x) {} B(B const&) = default; B(B&&) = default; J* clone() const override { ++counts.clones; return new B(*this); } I* _copy() const override { ++counts.copies; return new B(*this); } I* _move() override { ++counts.moves; return new B(std::move(*this)); } int get() const override { return p.get(); } void set(int x) override { p.must_live("written"); p.v = x; } char kind() const override { return 'B'; } };
struct Plain { Probe p; explicit Plain(int x) : p(x) {} virtual ~Plain() = default; };
struct C : Wrapper<Plain, I> { explicit C(Plain const& q) : Wrapper<Plain, I>(q) {} explicit C(Plain&& q) : Wrapper<Plain, I>(std::move(q)) {} C(C const& o) : I(o), Wrapper<Plain, I>(static_cast<Plain const&>(o)) {} C(C&& o) : I(o), Wrapper<Plain, I>(std::move(static_cast<Plain&>(o))) {}
    I* clone() const override { ++counts.clones; return new C(*this); } I* _copy() const override { ++counts.copies; return new C(*this); } I* _move() override { ++counts.moves; return new C(std::move(*this)); } int get() const override { return p.get(); } void set(int x) override { p.must_live("written"); p.v = x; } char kind() const override { return 'C'; } };

struct Obj { int v; char kind; void const* at; int owners = 0; };
constexpr int K = 5;
struct World {
    Rng& r; int serial = 0;
    // h: handles to mutable I; c: handles to constant I; j: handles to mutable J; s: shared pointers taken from handles
    std::unique_ptr<Handle<I>> h[K]; std::unique_ptr<Handle<I const>> c[K]; std::unique_ptr<Handle<J>> j[2]; std::shared_ptr<I const> s[2];
    std::shared_ptr<Obj> mh[K], mc[K], mj[2], ms[2];
    explicit World(Rng& rng) : r(rng) {}
    template<class F> void each(F f) {
        for (int i = 0; i < K; ++i) if (h[i]) f(static_cast<I const*>(std::as_const(*h[i]).pointer()), mh[i], "mutable handle");
        for (int i = 0; i < K; ++i) if (c[i]) f(c[i]->pointer(), mc[i], "constant handle");
        for (int i = 0; i < 2; ++i) if (j[i]) f(static_cast<I const*>(std::as_const(*j[i]).pointer()), mj[i], "derived handle");
        for (int i = 0; i < 2; ++i) if (s[i]) f(s[i].get(), ms[i], "shared pointer");
    }
    void check(std::string const& op) {
        mon::Untracked u; std::vector<Obj*> seen;
        each([&](I const* p, std::shared_ptr<Obj> const& m, char const* what) {
            MON_CHECK(p == m->at, "identity/" + op, "after " << op << " a " << what << " refers to another object");
            MON_CHECK(p->get() == m->v, "value/" + op, "after " << op << " a " << what << " sees the value " << p->get() << ", expected " << m->v);
            MON_CHECK(p->kind() == m->kind, "kind/" + op, "after " << op << " a " << what << " sees a " << p->kind() << ", expected " << m->kind);
            bool dup = false; for (Obj* o : seen) dup = dup || o == m.get(); if (!dup) seen.push_back(m.get()); });
        for (size_t a = 0; a < seen.size(); ++a) for (size_t b = 0; b < a; ++b) MON_CHECK(seen[a]->at != seen[b]->at, "distinct/" + op, "after " << op << " two objects are one");
        size_t live = mon::ps().live.size(); MON_CHECK(live == seen.size(), "lifetime/" + op, "after " << op << " " << live << " objects live, but the handles hold " << seen.size());
    }
    std::shared_ptr<Obj> obj(int v, char kind, void const* at) { mon::Untracked u; return std::make_shared<Obj>(Obj{v, kind, at}); }
    template<class X, class Y> void put(X& slot, std::shared_ptr<Obj>& m, Y&& made, std::shared_ptr<Obj> o) { slot = std::move(made); mon::Untracked u; m = std::move(o); }
    // Reading by every way must see the object and change nothing.
    template<class II> void read(Handle<II> const& x, Obj const& m, int way) {
        Counts before = counts; II const* p = nullptr;
        switch (way) {
        case 0: p = &x.const_reference(); break; case 1: p = &x.reference(); break; case 2: p = x.const_pointer(); break; case 3: p = x.pointer(); break; case 4: p = x.raw_const_pointer(); break; case 5: p = x.raw_pointer(); break;
        case 6: p = &x.ref(); break; case 7: p = x.ptr(); break; case 8: p = x.managed_const_pointer().get(); break; case 9: p = x.managed_pointer().get(); break; default: p = &static_cast<II const&>(x); break;
        }
        MON_CHECK(static_cast<I const*>(p) == m.at && p->get() == m.v, "read", "reading by way " << way << " sees another object or value");
        MON_CHECK(counts.clones == before.clones && counts.copies == before.copies, "read-copies", "reading by way " << way << " copies the object"); mon::event("reads");
    }
    template<class II> II* write_access(Handle<II>& x, int way) {
        switch (way) { case 0: return &x.reference(); case 1: return x.pointer(); case 2: return x.raw_pointer(); case 3: return &x.ref(); case 4: return x.ptr(); default: return x.managed_pointer().get(); }
    }
    template<class II> void write(Handle<II>& x, std::shared_ptr<Obj>& m, std::string const& what) {
        int way = static_cast<int>(r.below(6)); bool shared = m.use_count() > 1; mon::log("write %s way %d", what.c_str(), way); II* p = nullptr;
        if (r.chance(1, 5)) {  // the copy which is needed for writing fails: nothing may change
            long n = static_cast<long>(r.below(4)); bool elem = r.chance(1, 2), fired; mon::Outcome o; mon::log("with a failure at %ld", n);
            if (elem) { mon::FailElement fe(n / 2); o = mon::attempt([&] { p = write_access(x, way); }); fired = fe.fired(); } else { mon::FailAlloc fa(n); o = mon::attempt([&] { p = write_access(x, way); }); fired = fa.fired(); }
            if (fired) { MON_CHECK(o == (elem ? mon::Outcome::threw_runtime : mon::Outcome::threw_bad_alloc), "lost-failure", "a failure to clone " << mon::name(o)); check("a failed write access"); mon::event("failed write accesses"); return; }
            MON_CHECK(o == mon::Outcome::returned, "write-access", "write access " << mon::name(o));
        } else p = write_access(x, way);
        I* q = p; MON_CHECK(q != nullptr && q->get() == m->v && q->kind() == m->kind, "write-value", "the object got for writing has the value " << q->get() << ", expected " << m->v);
        MON_CHECK(static_cast<I const*>(std::as_const(x).pointer()) == q, "write-object", "write access gives another object than reading afterwards");
        if (shared) MON_CHECK(q != m->at, "write-shared", "write access gives the object which others see");
        auto n = obj(m->v, m->kind, q); { mon::Untracked u; m = n; } check("write access");
        int v = ++serial; q->set(v); m->v = v; check("writing"); mon::event(shared ? "writes to shared objects" : "writes to unshared objects");
    }
    template<class X> int some(X& a, int n) { int b = static_cast<int>(r.below(static_cast<uint64_t>(n))); for (int k = 0; k < n; ++k) if (a[(b + k) % n]) return (b + k) % n; return -1; }
    // Makes an object and a handle to it in one of the ways there are.
    template<class II> std::unique_ptr<Handle<II>> make(std::shared_ptr<Obj>& m) {
        int v = ++serial, way = static_cast<int>(r.below(9)); mon::log("make way %d value %d", way, v); std::unique_ptr<Handle<II>> x; char k = 'A';
        switch (way) {
        case 0: x.reset(new Handle<II>(new A(v))); break;
        case 1: x.reset(new Handle<II>(std::shared_ptr<II>(std::make_shared<B>(v)))); k = 'B'; break;
        case 2: { A a(v); x.reset(new Handle<II>(static_cast<A const&>(a))); MON_CHECK(a.get() == v, "source", "the source of a handle changed"); a.set(-1); break; }
        case 3: { A a(v); x.reset(new Handle<II>(std::move(a))); break; }
        case 4: { B b(v); I const& i = b; x.reset(new Handle<II>(i)); MON_CHECK(b.get() == v, "source", "the source of a handle changed"); b.set(-1); k = 'B'; break; }
        case 5: if constexpr (!std::is_const_v<II>) { B b(v); I& i = b; x.reset(new Handle<II>(std::move(i))); k = 'B'; break; } [[fallthrough]];
        case 6: { Plain p(v); x.reset(new Handle<II>(C(p))); p.p.v = -1; k = 'C'; break; }
        case 7: { Handle<A> a = Helper::make_handle<A>(v); x.reset(new Handle<II>(a)); break; }
        default: { Plain p(v); C q(p); x.reset(new Handle<II>(static_cast<C const&>(q))); k = 'C'; break; }
        }
        m = obj(v, k, static_cast<I const*>(std::as_const(*x).pointer())); mon::event("handles made"); return x;
    }
    void step() {
        int i = static_cast<int>(r.below(K)), k = some(h, K), q = some(c, K);
        switch (r.below(16)) {
        case 0: { std::shared_ptr<Obj> m; auto x = make<I>(m); put(h[i], mh[i], std::move(x), m); check("making"); break; }
        case 1: { std::shared_ptr<Obj> m; auto x = make<I const>(m); put(c[i], mc[i], std::move(x), m); check("making constant"); break; }
        case 2: { int v = ++serial; mon::log("derived handle %d", v); size_t n = r.below(2); std::unique_ptr<Handle<J>> x(new Handle<J>(B(v))); auto m = obj(v, 'B', static_cast<I const*>(std::as_const(*x).pointer())); put(j[n], mj[n], std::move(x), m); check("making derived"); break; }
        case 3: case 4: { if (k < 0) break; mon::log("h%d=copy h%d", i, k); Counts b = counts; std::unique_ptr<Handle<I>> x(new Handle<I>(*h[k])); MON_CHECK(b.clones == counts.clones && b.copies == counts.copies, "copy-copies", "copying a handle copies the object"); put(h[i], mh[i], std::move(x), mh[k]); check("copying"); mon::event("copies"); break; }
        case 5: { if (k < 0 || !h[i]) break; mon::log("h%d:=h%d", i, k); Counts b = counts; Handle<I>& y = *h[k]; *h[i] = y; MON_CHECK(b.clones == counts.clones && b.copies == counts.copies, "assign-copies", "assigning a handle copies the object"); { mon::Untracked u; mh[i] = std::shared_ptr<Obj>(mh[k]); } check("assigning"); mon::event(i == k ? "self assignments" : "assignments"); break; }
        case 6: { if (k < 0 || i == k) break; mon::log("h%d=move h%d", i, k); if (h[i] && r.chance(1, 2)) { *h[i] = std::move(*h[k]); mon::Untracked u; mh[i] = mh[k]; } else { std::unique_ptr<Handle<I>> x(new Handle<I>(std::move(*h[k]))); put(h[i], mh[i], std::move(x), mh[k]); } h[k].reset(); { mon::Untracked u; mh[k].reset(); } check("moving"); mon::event("moves"); break; }
        case 7: { if (k < 0) break; mon::log("c%d=const h%d", i, k); Counts b = counts; std::unique_ptr<Handle<I const>> x(new Handle<I const>(std::as_const(*h[k]))); MON_CHECK(b.clones == counts.clones && b.copies == counts.copies, "convert-copies", "converting a handle copies the object"); put(c[i], mc[i], std::move(x), mh[k]); check("converting to constant"); mon::event("conversions"); break; }
        case 8: { size_t n = r.below(2); if (!j[n]) break; mon::log("h%d=base j%zu", i, n); Counts b = counts; std::unique_ptr<Handle<I>> x(new Handle<I>(std::as_const(*j[n]))); MON_CHECK(b.clones == counts.clones && b.copies == counts.copies, "convert-copies", "converting a handle copies the object"); put(h[i], mh[i], std::move(x), mj[n]); check("converting to base"); mon::event("conversions"); break; }
        case 9: { if (k < 0 || mh[k]->kind != 'B') break; size_t n = r.below(2); mon::log("j%zu=cast h%d", n, k); std::unique_ptr<Handle<J>> x(new Handle<J>(Helper::dynamic_handle_cast<Handle<J>>(std::as_const(*h[k])))); put(j[n], mj[n], std::move(x), mh[k]); check("casting"); mon::event("conversions"); break; }
        case 10: { if (q < 0) break; mon::log("c%d:=c%d", i, q); if (c[i]) { Handle<I const>& y = *c[q]; *c[i] = y; } else c[i].reset(new Handle<I const>(*c[q])); { mon::Untracked u; mc[i] = std::shared_ptr<Obj>(mc[q]); } check("copying constant"); break; }
        case 11: { int way = static_cast<int>(r.below(11)); mon::log("read way %d", way); if (k >= 0) read(std::as_const(*h[k]), *mh[k], way); if (q >= 0) { read(std::as_const(*c[q]), *mc[q], way); Counts b = counts; I const* p = &c[q]->reference(); I const* p2 = c[q]->pointer(); std::shared_ptr<I const> p3 = c[q]->managed_pointer();
                MON_CHECK(p == mc[q]->at && p2 == p && p3.get() == p && b.clones == counts.clones, "constant-clones", "access through a handle to a constant object clones it or sees another"); static_assert(std::is_same_v<decltype(c[q]->reference()), I const&> && std::is_same_v<decltype(c[q]->pointer()), I const*>); } check("reading"); break; }
        case 12: case 13: { if (k >= 0) write(*h[k], mh[k], "h"); break; }
        case 14: { size_t n = r.below(2); if (j[n]) write(*j[n], mj[n], "j"); break; }
        default: switch (r.below(5)) {
            case 0: if (k >= 0) { mon::log("del h%d", k); mon::event(mh[k].use_count() == 1 ? "last handles destroyed" : "other handles destroyed"); h[k].reset(); mon::Untracked u; mh[k].reset(); } break;
            case 1: if (q >= 0) { mon::log("del c%d", q); mon::event(mc[q].use_count() == 1 ? "last handles destroyed" : "other handles destroyed"); c[q].reset(); mon::Untracked u; mc[q].reset(); } break;
            case 2: { size_t n = r.below(2); mon::log("del j%zu s%zu", n, n); j[n].reset(); s[n].reset(); mon::Untracked u; mj[n].reset(); ms[n].reset(); break; }
            case 3: if (k >= 0) { size_t n = r.below(2); mon::log("s%zu=pointer h%d", n, k); s[n] = std::as_const(*h[k]).managed_pointer(); mon::Untracked u; ms[n] = mh[k]; } break;
            default: if (q >= 0) { size_t n = r.below(2); mon::log("s%zu=pointer c%d", n, q); s[n] = c[q]->managed_const_pointer(); mon::Untracked u; ms[n] = mc[q]; } break;
            }
            check("destroying"); break;
        }
        mon::event("steps");
    }
};
MON_SUITE(history, 2500, 120000) {
    World w(rng); for (int n = 12 + static_cast<int>(rng.below(60)); n > 0; --n) w.step();
    // destroyed in a random order
    for (int n = 0; n < 40; ++n) { size_t i = rng.below(K), k = rng.below(2); switch (rng.below(4)) { case 0: w.h[i].reset(); break; case 1: w.c[i].reset(); break; case 2: w.j[k].reset(); break; default: w.s[k].reset(); break; } mon::Untracked u; if (!w.h[i]) w.mh[i].reset(); if (!w.c[i]) w.mc[i].reset(); if (!w.j[k]) w.mj[k].reset(); if (!w.s[k]) w.ms[k].reset(); w.check("destroying at the end"); }
    mon::nontrivial();
}
// Very many handles to one object: a change through any of them concerns only that one.
MON_SUITE(many_handles, 6, 60) {
    size_t n = std::vector<size_t>{2, 255, 256, 257, 65536, 70001}[mon::st().case_no % 6]; mon::log("%zu handles", n); std::vector<Handle<I>> v; v.reserve(n); v.emplace_back(new A(5)); size_t live; { mon::Untracked u; live = mon::ps().live.size(); }
    for (size_t i = 1; i < n; ++i) v.push_back(v[rng.below(i)]); Handle<I const> c(std::as_const(v[n - 1])); I const* at = &c.reference();
    std::set<size_t> written; for (int k = 0; k < 6; ++k) { size_t i = rng.below(n); I& x = v[i].reference(); MON_CHECK(&x != at && x.get() == (written.count(i) ? static_cast<int>(i) + 1000 : 5), "many/shared", "write access through one of " << n << " handles"); x.set(static_cast<int>(i) + 1000); mon::Untracked u; written.insert(i); }
    size_t seen = 0; for (size_t i = 0; i < n; ++i) { int w = written.count(i) ? static_cast<int>(i) + 1000 : 5; I const& x = std::as_const(v[i]).reference(); MON_CHECK(x.get() == w && (&x == at) == (w == 5), "many/seen", "handle " << i << " of " << n << " sees " << x.get() << ", expected " << w); ++seen; }
    { Handle<I> jh(B(77)); std::vector<Handle<I>> jv(std::min<size_t>(n, 300), jh); I const* jat = &std::as_const(jh).reference(); Counts before = counts; Handle<I>& mut = jv[rng.below(jv.size())]; Handle<J> d(Helper::dynamic_handle_cast<Handle<J>>(std::as_const(mut))); Handle<J> e(Helper::dynamic_handle_cast<Handle<J>>(mut)); Handle<I> up(std::as_const(e)); J const& x = Helper::dynamic_handle_extract<J>(std::as_const(mut));
      MON_CHECK(static_cast<I const*>(&std::as_const(d).reference()) == jat && static_cast<I const*>(&std::as_const(e).reference()) == jat && &std::as_const(up).reference() == jat && static_cast<I const*>(&x) == jat && before.clones == counts.clones && before.copies == counts.copies, "many/cast", "casting one of " << jv.size() << " handles clones the object"); d.reference().set(78); MON_CHECK(&std::as_const(e).reference() != &std::as_const(d).reference() && std::as_const(e).reference().get() == 77 && std::as_const(mut).reference().get() == 77 && std::as_const(jh).reference().get() == 77, "many/cast", "writing by the result of a cast is seen by others"); mon::event("casts of one of many"); }
    MON_CHECK(c.reference().get() == 5, "many/seen", "a constant handle sees a change"); { mon::Untracked u; MON_CHECK(mon::ps().live.size() == live + written.size(), "many/objects", "there are " << mon::ps().live.size() << " objects, expected " << live + written.size()); }
    while (v.size() > 1) v.pop_back(); v.clear(); { mon::Untracked u; MON_CHECK(mon::ps().live.size() == live, "many/objects", "objects outlive their handles, or die earlier"); } { Handle<I const> d(c); } MON_CHECK(c.reference().get() == 5, "many/last", "the object of the last handle changed"); mon::event("many handles"); mon::nontrivial();
}
// Objects which contain handles: assigning the handle of a part to the handle of the whole, and writing into the parts.
struct Node : I { Probe p; std::vector<Handle<I>> sub; explicit Node(int x) : p(x) {} Node(Node const&) = default; Node(Node&&) = default; I* clone() const override { return new Node(*this); } I* _copy() const override { return new Node(*this); } I* _move() override { return new Node(std::move(*this)); } int get() const override { return p.get(); } void set(int x) override { p.must_live("written"); p.v = x; } char kind() const override { return 'N'; } };
struct Tree { int v; std::vector<std::shared_ptr<Tree const>> sub; };
typedef std::shared_ptr<Tree const> TreeP;
static void same_tree(I const& x, Tree const& t, char const* op) { MON_CHECK(x.get() == t.v, std::string("nested/") + op, op << ": a nested object has the value " << x.get() << ", expected " << t.v); Node const* n = dynamic_cast<Node const*>(&x); MON_CHECK((n ? n->sub.size() : 0) == t.sub.size(), std::string("nested/") + op, op << ": a nested object has another number of parts"); if (n) for (size_t i = 0; i < n->sub.size(); ++i) same_tree(n->sub[i].reference(), *t.sub[i], op); }
MON_SUITE(nested, 400, 16000) {
    int serial = 0; std::vector<Handle<I>> h; std::vector<TreeP> m; size_t live0; { mon::Untracked u; live0 = mon::ps().live.size(); }
    auto tree = [&](int v, std::vector<TreeP> s) { mon::Untracked u; return std::make_shared<Tree const>(Tree{v, s}); };
    for (int i = 0; i < 3; ++i) { h.emplace_back(new Node(++serial)); auto t = tree(serial, {}); mon::Untracked u; m.push_back(t); }
    for (int n = 0; n < 20; ++n) {
        size_t i = rng.below(3), k = rng.below(3); const char* op = "nothing";
        switch (rng.below(7)) {
        case 0: case 1: { op = "adding a part"; if (m[i]->sub.size() > 3) break; Handle<I> g(h[k]); Node& x = static_cast<Node&>(h[i].reference()); x.sub.push_back(g); mon::Untracked u; auto s = m[i]->sub; s.push_back(m[k]); m[i] = tree(m[i]->v, s); break; }
        case 2: { op = "assigning a part to the whole"; if (m[i]->sub.empty()) break; size_t q = rng.below(m[i]->sub.size()); Node const& x = static_cast<Node const&>(std::as_const(h[i]).reference()); h[i] = x.sub[q]; mon::Untracked u; TreeP t = m[i]->sub[q]; m[i] = t; mon::event("assignments of own parts"); break; }
        case 3: { op = "moving a part to the whole"; if (m[i]->sub.empty()) break; size_t q = rng.below(m[i]->sub.size()); Node& x = static_cast<Node&>(h[i].reference()); h[i] = std::move(x.sub[q]); mon::Untracked u; TreeP t = m[i]->sub[q]; m[i] = t; mon::event("assignments of own parts"); break; }
        case 4: { op = "writing into a part"; if (m[i]->sub.empty()) break; size_t q = rng.below(m[i]->sub.size()); Node& x = static_cast<Node&>(h[i].reference()); x.sub[q].reference().set(++serial); mon::Untracked u; auto s = m[i]->sub; s[q] = tree(serial, s[q]->sub); m[i] = tree(m[i]->v, s); break; }
        case 5: { op = "writing"; h[i].reference().set(++serial); mon::Untracked u; m[i] = tree(serial, m[i]->sub); break; }
        default: { op = "copying"; h[i] = h[k]; mon::Untracked u; m[i] = TreeP(m[k]); break; }
        }
        mon::log("%s %zu %zu", op, i, k); mon::Untracked u; for (size_t t = 0; t < 3; ++t) same_tree(std::as_const(h[t]).reference(), *m[t], op); mon::event("steps of nested objects");
        size_t size = 0; std::function<void(Tree const&)> cnt = [&](Tree const& t) { ++size; for (auto const& s : t.sub) cnt(*s); }; for (auto const& t : m) cnt(*t); if (size > 300) break;
    }
    h.clear(); { mon::Untracked u; m.clear(); MON_CHECK(mon::ps().live.size() == live0, "nested-leak", "nested objects outlive their handles"); } mon::nontrivial();
}
// Handles to objects with their own way of being deleted.
MON_SUITE(deleters, 60, 1500) {
    long deleted = 0; A* a = new A(3); std::weak_ptr<I> w; mon::log("deleter");
    { std::shared_ptr<I> p(a, [&](I* x) { ++deleted; delete x; }); w = p; Handle<I> h(p); p.reset(); Handle<I const> c(std::as_const(h)); Handle<I> g(h); MON_CHECK(deleted == 0 && w.lock().get() == a, "deleter/early", "an object is deleted while it has handles");
      int first = static_cast<int>(rng.below(3)); if (first == 0) { h.reference().set(4); MON_CHECK(&std::as_const(g).reference() == a && &c.reference() == a && deleted == 0, "deleter/shared", "other handles lose the object"); g.reference().set(5); MON_CHECK(deleted == 0 && &c.reference() == a && c.reference().get() == 3, "deleter/shared", "other handles lose the object"); }
      else if (first == 1) { Handle<I> x(std::move(h)); h = g; MON_CHECK(deleted == 0, "deleter/early", "an object is deleted while it has handles"); } else { c = Handle<I const>(new A(8)); g = Handle<I>(new A(9)); MON_CHECK(deleted == 0 && &std::as_const(h).reference() == a, "deleter/early", "an object is deleted while it has handles"); h = g; MON_CHECK(deleted == 1 && w.expired(), "deleter/late", "an object without handles is not deleted"); } }
    MON_CHECK(deleted == 1 && w.expired(), "deleter/once", "the object is deleted " << deleted << " times"); mon::event("deleters"); mon::nontrivial();
}
// Making a handle while anything fails: the error reaches the caller, nothing is leaked.
MON_SUITE(failing_construction, 150, 4000) {
    int way = static_cast<int>(rng.below(6)); mon::log("way %d", way);
    for (int elem = 0; elem < 2; ++elem) for (long n = 0;; ++n) {
        Handle<I> keep(new A(1)); size_t live = 0; { mon::Untracked u; live = mon::ps().live.size(); } bool fired; mon::Outcome o; A a(5); B b(6); Plain p(7); C c(p);
        auto go = [&] { switch (way) { case 0: { Handle<I> x(static_cast<A const&>(a)); break; } case 1: { Handle<I> x{A(9)}; break; } case 2: { Handle<I> x(static_cast<I const&>(b)); break; } case 3: { Handle<I> x(static_cast<C const&>(c)); break; } case 4: { Handle<A> x = Helper::make_handle<A>(3); Handle<I> y(x); break; } default: { Handle<I> x(keep); x.reference().set(2); break; } } };
        if (elem) { mon::FailElement f(n); o = mon::attempt(go); fired = f.fired(); } else { mon::FailAlloc f(n); o = mon::attempt(go); fired = f.fired(); }
        { mon::Untracked u; MON_CHECK(mon::ps().live.size() == live + 4 - 0, "leak-on-failure", "after a failed construction " << mon::ps().live.size() << " objects live, expected " << live + 4); }
        MON_CHECK(std::as_const(keep).reference().get() == 1 && a.get() == 5 && b.get() == 6 && c.get() == 7, "changed-on-failure", "a failed construction changes another object");
        if (!fired) { MON_CHECK(o == mon::Outcome::returned, "spurious-failure", "construction " << mon::name(o)); break; }
        MON_CHECK(o == (elem ? mon::Outcome::threw_runtime : mon::Outcome::threw_bad_alloc), "lost-failure", "a failed construction " << mon::name(o)); mon::event("failed constructions"); if (n > 30) break;
    }
    mon::nontrivial();
}
// Handles made from temporaries take over what these contain; the objects need not be copyable.
struct Mover : I { std::unique_ptr<Probe> p; explicit Mover(int x) : p(new Probe(x)) {} Mover(Mover&& o) : I(o), p(std::move(o.p)) { ++counts.moves; } I* clone() const override { ++counts.clones; return new Mover(p->get()); } I* _copy() const override { ++counts.copies; return new Mover(p->get()); } I* _move() override { return new Mover(std::move(*this)); } int get() const override { return p ? p->get() : -1; } void set(int x) override { p->v = x; } char kind() const override { return 'M'; } };
struct FromParts : Mover { std::string s, t; int n; FromParts(std::unique_ptr<Probe>&& q, std::string& changed, std::string&& taken, std::string const& copied, int m) : Mover(q->get()), s(std::move(taken)), t((changed += "!", copied)), n(m) { p = std::move(q); } };
MON_SUITE(temporaries, 60, 1500) {
    int v = static_cast<int>(rng.below(1000)); mon::log("temporary %d", v); Counts const b = counts; Mover a(v), c(v); Probe const* pa = a.p.get(); Probe const* pc = c.p.get(); I& i = c;
    Handle<I> x(std::move(a)), y(std::move(i)), z(Mover{v}); Handle<I const> u(Mover{v}); Mover const* mx = dynamic_cast<Mover const*>(std::as_const(x).pointer()); Mover const* my = dynamic_cast<Mover const*>(std::as_const(y).pointer());
    MON_CHECK(mx && my && mx->p.get() == pa && my->p.get() == pc && !a.p && !c.p && std::as_const(z).reference().get() == v && u.reference().get() == v, "temporary/content", "a handle made from a temporary does not take over its content"); MON_CHECK(counts.copies == b.copies && counts.clones == b.clones, "temporary/copied", "a handle made from a temporary copies the object"); mon::event("temporaries"); mon::nontrivial();
    Mover d(v); Probe const* pd = d.p.get(); Counts const e = counts; Handle<Mover> m = Helper::make_handle<Mover>(std::move(d)); Mover const& made = std::as_const(m).reference();
    MON_CHECK(made.p.get() == pd && !d.p && counts.copies == e.copies && counts.clones == e.clones, "temporary/make_handle", "make_handle does not take over the content of a temporary");
    std::unique_ptr<Probe> q(new Probe(v + 1)); Probe const* pq = q.get(); std::string kept(30, 'k'), given(30, 'g'); char const* at = given.data(); Handle<FromParts> w = Helper::make_handle<FromParts>(std::move(q), kept, std::move(given), static_cast<std::string const&>(kept), 7); FromParts const& f = std::as_const(w).reference();
    MON_CHECK(f.p.get() == pq && !q && f.s == std::string(30, 'g') && f.s.data() == at && f.n == 7 && kept == std::string(30, 'k') + "!" && f.t == kept, "temporary/arguments", "make_handle does not pass its arguments on as they are");
}
// Extraction from a handle which is not constant is write access, too.
MON_SUITE(extract, 60, 600) {
    int v = static_cast<int>(rng.below(1000)); bool wrapped = rng.chance(1, 2); mon::log("extract %d wrapped %d", v, wrapped); Handle<I> h = wrapped ? Handle<I>(C(Plain(v))) : Handle<I>(A(v)), g(h); Handle<I const> k(std::as_const(h));
    Probe* p = wrapped ? &Helper::dynamic_handle_extract<Plain>(h).p : &Helper::dynamic_handle_extract<A>(h).p; MON_CHECK(p->get() == v, "extract-value", "the extracted object has the value " << p->get());
    p->v = v + 1; bool g_sees = std::as_const(g).reference().get() != v, k_sees = k.reference().get() != v; p->v = v;
    MON_CHECK(!g_sees && !k_sees, "extract/mutable-reference-to-shared-object", "a change through the reference extracted from one handle is seen through another"); mon::event("extractions"); mon::nontrivial();
}
// Nothing obtained from a handle to a constant interface, or by a constant handle, gives write access to the object.
template<class X> constexpr bool read_only = std::is_const_v<std::remove_pointer_t<std::remove_reference_t<X>>>;
template<class X> constexpr bool read_only<std::shared_ptr<X>> = std::is_const_v<X>; template<class X> constexpr bool read_only<std::shared_ptr<X> const> = std::is_const_v<X>;
template<class H> void never_writes(char const* what) {
#define READS(e) { using X = decltype(e); MON_CHECK(read_only<X>, "write-access-from-constant", #e " gives write access by " << what); }
    READS(std::declval<H>().reference()) READS(std::declval<H>().pointer()) READS(std::declval<H>().raw_pointer()) READS(std::declval<H>().ref()) READS(std::declval<H>().ptr()) READS(std::declval<H>().const_reference()) READS(std::declval<H>().const_pointer()) READS(std::declval<H>().raw_const_pointer())
    if constexpr (std::is_const_v<typename std::remove_cvref_t<H>::Interface>) { READS(std::declval<H>().managed_pointer()) READS(std::declval<H>().managed_const_pointer()) }
    if constexpr (std::is_lvalue_reference_v<H>) { READS(Helper::dynamic_handle_extract<A>(std::declval<H>())) READS(Helper::dynamic_handle_extract<Plain>(std::declval<H>())) READS(Helper::dynamic_handle_extract<J>(std::declval<H>())) }
}
MON_SUITE(constness, 1, 1) {
    mon::log("types"); never_writes<Handle<I> const&>("a constant handle"); never_writes<Handle<J> const&>("a constant handle"); never_writes<Handle<I const> const&>("a constant handle to a constant object"); never_writes<Handle<I const>&>("a handle to a constant object"); never_writes<Handle<I const>>("a temporary handle to a constant object"); never_writes<Handle<J const>&>("a handle to a constant object"); mon::nontrivial();
}
int main(int c, char** v) {
    mon::install_probe_monitor();
    for (char const* e : {"writes to shared objects", "writes to unshared objects", "reads", "self assignments", "moves", "conversions", "last handles destroyed", "other handles destroyed", "failed write accesses", "failed constructions"}) mon::require(e, 100);
    mon::require("steps", 20000); mon::require("many handles", 6); mon::require("temporaries", 50); mon::require("assignments of own parts", 100); mon::require("steps of nested objects", 1000); mon::require("deleters", 50);
    return mon::main(c, v);
}
