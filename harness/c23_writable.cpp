// C23: objects with a write method, the writable interface and writers.  Every write method records itself, its object
// and its stream; the records and the text are compared with those of a model.
#include <cstdlib>
#include <iostream>
#include <array>
#include <fstream>
#include <iomanip>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include "array.hpp"
#include "container.hpp"
#include "handle.hpp"
#include "string.hpp"
#include "stlio.hpp"
#include "tuple.hpp"
#include "writable.hpp"
#include "probe.hpp"
using mon::Rng;

// ------------------------------------------------------------------ what is recorded
struct Written { void const* object; std::ostream const* stream; int method; bool operator==(Written const&) const = default; };
std::vector<Written> record;
int objections = 0; // how many more write methods run before one throws; 0: none throws
struct Objection : std::runtime_error { Objection() : std::runtime_error("objection") {} };
static void note(void const* o, std::ostream& os, int m) { mon::Untracked u; record.push_back({o, &os, m}); mon::event("write methods called"); if (objections > 0 && --objections == 0) throw Objection(); }

// ------------------------------------------------------------------ writable objects
enum Method { BASE = 1, PLAIN, PRIVATE, DERIVED, VIRTUAL, SECOND, OVERLOADED, TEMPLATE, INSIDE, FORMATS, NOCOPY, FINAL, DEFAULTED, WRAPPED, CLOSED, SUBCLASS };
struct Canary { int alive = 0x600D; ~Canary() { alive = 0xDEAD; } };
namespace User {
    struct Base : Helper::WritableInterface { Canary c; int v; Base(int v) : v(v) {} std::ostream& _write(std::ostream& os) const override { note(this, os, BASE); return os << "base" << v << (c.alive == 0x600D ? "" : "dead"); } };
    struct Derived : Base { using Base::Base; std::ostream& _write(std::ostream& os) const override { note(this, os, DERIVED); return os << "derived" << v; } };
    struct Subclass : Derived { using Derived::Derived; }; // inherits its method
    struct Private : Helper::WritableInterface { int v; Private(int v) : v(v) {} private: std::ostream& _write(std::ostream& os) const override { note(this, os, PRIVATE); return os << "private" << v; } };
    struct Before { long a = 77; virtual ~Before() = default; virtual std::string other() const { return "other"; } };
    struct Second : Before, Helper::WritableInterface { int v; Second(int v) : v(v) {} std::ostream& _write(std::ostream& os) const override { note(this, os, SECOND); return os << "second" << v << (a == 77 ? "" : "?"); } };
    struct Virtual : Before, virtual Helper::WritableInterface { int v; Virtual(int v) : v(v) {} std::ostream& _write(std::ostream& os) const override { note(this, os, VIRTUAL); return os << "virtual" << v; } };
    struct Final final : Helper::WritableInterface { int v; Final(int v) : v(v) {} std::ostream& _write(std::ostream& os) const final { note(this, os, FINAL); return os << "final" << v; } };
    struct NoCopy : Helper::WritableInterface { int v; NoCopy(int v) : v(v) {} NoCopy(NoCopy const&) = delete; std::ostream& _write(std::ostream& os) const override { note(this, os, NOCOPY); return os << "nocopy" << v; } };
    struct Formats : Helper::WritableInterface { int v; Formats(int v) : v(v) {} std::ostream& _write(std::ostream& os) const override { note(this, os, FORMATS); return os << v; } };
    struct Writing : Helper::WritableInterface { virtual ~Writing() = default; virtual Writing* clone() const = 0; }; struct Closed : Writing { int v; Closed(int v) : v(v) {} Closed* clone() const override { return new Closed(*this); } std::ostream& _write(std::ostream& os) const override { note(this, os, CLOSED); return os << "closed" << v; } };
    // not recognised: no usable method
    struct Changing { std::ostream& _write(std::ostream& os) { return os; } }; struct Silent { void _write(std::ostream&) const {} }; struct Data { int _write; }; struct Needs { std::ostream& _write(std::ostream& os, int) const { return os; } }; struct Hidden { private: std::ostream& _write(std::ostream& os) const { return os; } }; struct Gone { std::ostream& _write(std::ostream& os) const = delete; }; struct Rvalue { std::ostream& _write(std::ostream& os) && { return os; } }; struct Reads { std::istream& _write(std::istream& is) const { return is; } }; struct Other { std::ostream& write(std::ostream& os) const { return os; } };
    // recognised
    struct Abstract { virtual std::ostream& _write(std::ostream&) const = 0; }; struct Static { static std::ostream& _write(std::ostream& os) { return os; } }; struct Qualified { std::ostream& _write(std::ostream& os) const& { return os; } }; struct Narrow { std::ostringstream& _write(std::ostream& os) const { return static_cast<std::ostringstream&>(os); } }; struct Any { template<class S> S& _write(S& os) const { return os; } };
}
namespace Helper {
    struct Plain { int v; std::ostream& _write(std::ostream& os) const { note(this, os, PLAIN); return os << "plain" << v; } };
    struct Overloaded { int v; std::ostream& _write(std::ostream& os) { os << "changed"; return os; } std::ostream& _write(std::ostream& os) const { note(this, os, OVERLOADED); return os << "overloaded" << v; } void _write(std::ostream&, int) const {} };
    struct Defaulted { int v; std::ostream& _write(std::ostream& os, char c = '!') const { note(this, os, DEFAULTED); return os << "defaulted" << v << c; } };
    template<class T> struct Inside { T t; std::ostream& _write(std::ostream& os) const { note(this, os, INSIDE); return os << "inside(" << t << ")"; } };
}
template<class T> struct Sub { T t; Sub(int v) : t(v) {} };
// what one such object writes, and which calls are made for it
template<class T> void const* identity(T const& t) { return &t; }
template<class T> Method method = PLAIN;
template<> Method method<User::Base> = BASE; template<> Method method<User::Derived> = DERIVED; template<> Method method<User::Subclass> = DERIVED; template<> Method method<User::Private> = PRIVATE; template<> Method method<User::Second> = SECOND; template<> Method method<User::Virtual> = VIRTUAL; template<> Method method<User::Final> = FINAL; template<> Method method<User::NoCopy> = NOCOPY; template<> Method method<User::Formats> = FORMATS; template<> Method method<User::Closed> = CLOSED; template<> Method method<Helper::Overloaded> = OVERLOADED; template<> Method method<Helper::Defaulted> = DEFAULTED;
static std::string text_of(Method m, int v) { std::string n = std::to_string(v); switch (m) { case BASE: return "base" + n; case DERIVED: return "derived" + n; case PRIVATE: return "private" + n; case SECOND: return "second" + n; case VIRTUAL: return "virtual" + n; case FINAL: return "final" + n; case NOCOPY: return "nocopy" + n; case FORMATS: return n; case PLAIN: return "plain" + n; case OVERLOADED: return "overloaded" + n; case DEFAULTED: return "defaulted" + n + "!"; case CLOSED: return "closed" + n; default: return "?"; } }

struct Expected { std::string text; std::vector<Written> calls; };
static void judge(char const* how, Expected const& e, std::string const& text, std::ostream const* returned, std::ostream const* stream, std::string const& o) {
    bool same = record == e.calls; std::string what = std::string(how) + " " + o; mon::log("%s:%s", what.c_str(), e.text.c_str());
    MON_CHECK(same, std::string("calls/") + how, "writing " << what << " made " << record.size() << " calls of write methods, not the " << e.calls.size() << " expected for these objects and this stream, or others");
    MON_CHECK(text == e.text, std::string("text/") + how, "writing " << what << " gives '" << text << "' instead of '" << e.text << "'"); MON_CHECK(returned == stream, std::string("stream/") + how, "writing " << what << " returns another stream");
    mon::event("objects written"); record.clear();
}
#define WRITE(how, expected, object) do { std::ostringstream os_; record.clear(); Expected e_ = expected(&os_); std::ostream* r_ = &(os_ << object); judge(how, e_, os_.str(), r_, &os_, o); } while (0)

// ------------------------------------------------------------------ one object, in every way
template<class T> void one(Rng& r) {
    int v = static_cast<int>(r.range(-99, 99)); T t{v}; T const& c = t; Method m = method<T>; std::string o = text_of(m, v);
    auto exp = [&](std::ostream* s) { return Expected{text_of(m, v), {{identity(t), s, m}}}; };
    WRITE("object", exp, c); if (m != OVERLOADED) WRITE("variable", exp, t); else WRITE("variable", exp, t);
    { std::ostringstream os; record.clear(); std::ostream* s = &(os << "a " << std::setw(3) << 7 << c << " b" << c << 'c'); judge("in a row", Expected{"a   7" + o + " b" + o + "c", {{identity(t), &os, m}, {identity(t), &os, m}}}, os.str(), s, &os, o); }
    { Helper::String got = Helper::to_string(c); MON_CHECK(got == o, "to_string", "to_string of " << o << " is '" << got << "'"); MON_CHECK(record.size() == 1 && record[0].object == identity(t), "calls/to_string", "to_string of " << o << " makes " << record.size() << " calls"); record.clear(); }
    { auto p = std::make_shared<std::ostringstream>(); std::ostream& os = *p; record.clear(); std::ostream* s = &(os << c); judge("to a base of the stream", exp(s), p->str(), s, p.get(), o); }
    { std::ostringstream base; std::ostream os(base.rdbuf()); os << std::hex << std::showbase << std::setfill('*'); record.clear(); auto before = os.flags(); std::ostream* s = &(os << std::setw(10) << c); std::string got = base.str(); MON_CHECK(record.size() == 1 && s == &os && os.flags() == before, "formatting", "a formatted stream changes or gets " << record.size() << " calls"); 
      std::ostringstream direct; direct << std::hex << std::showbase << std::setfill('*') << std::setw(10); { std::ostringstream& d = direct; if constexpr (requires { c._write(d); }) { c._write(d); MON_CHECK(d.str() == got, "formatting", o << " written to a formatted stream gives '" << got << "' instead of '" << d.str() << "'"); } } record.clear(); }
    for (std::ios::iostate state : {std::ios::failbit, std::ios::badbit, std::ios::eofbit, std::ios::failbit | std::ios::badbit | std::ios::eofbit}) {
        auto failed = [&](char const* how, auto&& write) { std::ostringstream os; os.setstate(state); record.clear(); std::ostream* s = write(os); MON_CHECK(record == (std::vector<Written>{{identity(t), &os, m}}) && s == &os && (os.rdstate() & state) == state && os.str().empty(), "failed-stream", "writing " << o << " " << how << " to a stream in state " << state << " makes " << record.size() << " calls or changes its state"); record.clear(); mon::event("writes to failed streams"); };
        failed("itself", [&](std::ostream& os) { return &(os << c); });
        if constexpr (std::is_base_of_v<Helper::WritableInterface, T>) { Helper::WritableInterface const& i = c; failed("by the interface", [&](std::ostream& os) { return &(os << i); }); failed("by write", [&](std::ostream& os) { return &i.write(os); }); Helper::Handle<Helper::WritableInterface const> h(std::shared_ptr<Helper::WritableInterface const>(std::shared_ptr<void>(), &c)); failed("by a handle", [&](std::ostream& os) { return &(os << h); }); }
    }
    { std::ostringstream os; objections = 1; bool thrown = false; try { os << c; } catch (Objection const&) { thrown = true; } objections = 0; MON_CHECK(thrown && record.size() == 1 && os.good(), "throwing-method", "an exception of the write method of " << o << (thrown ? " is passed on after more calls" : " is lost")); record.clear(); }
    if constexpr (std::is_base_of_v<Helper::WritableInterface, T>) {
        Helper::WritableInterface const& i = c; WRITE("by the interface", exp, i); Helper::WritableInterface& vi = t; WRITE("by the variable interface", exp, vi);
        { std::ostringstream os; record.clear(); std::ostream* s = &i.write(os); judge("by write", exp(&os), os.str(), s, &os, o); record.clear(); if constexpr (!std::is_same_v<T, User::Private>) { s = &c.write(os); judge("by the object's write", Expected{o + o, {{identity(t), &os, m}}}, os.str(), s, &os, o); } }
        { auto p = std::make_shared<T>(v); std::shared_ptr<Helper::WritableInterface const> q = p; auto e = [&](std::ostream* s) { return Expected{o, {{p.get(), s, m}}}; }; WRITE("by a pointer to the interface", e, *q); Helper::Handle<Helper::WritableInterface const> h(q); WRITE("by a handle", e, h); WRITE("by a handle's reference", e, h.const_reference()); Helper::Handle<T const> g(p); WRITE("by a handle to the object", e, g); q.reset(); p.reset(); auto e2 = [&](std::ostream* s) { return Expected{o, {{&g.const_reference(), s, m}}}; }; WRITE("by the last handle", e2, g); }
        { std::ostringstream os; record.clear(); std::ostream* s = &(static_cast<std::ostream&>(os) << static_cast<Helper::WritableInterface const&>(T{v})); MON_CHECK(os.str() == o && record.size() == 1 && s == &os, "temporary", "a temporary " << o << " gives '" << os.str() << "'"); record.clear(); }
    }
    if constexpr (std::is_same_v<T, User::Derived> || std::is_same_v<T, User::Subclass>) { User::Base const& b = c; WRITE("by a base", exp, b); User::Derived const& d = c; WRITE("by a base", exp, d); }
    mon::nontrivial();
}
MON_SUITE(objects, 300, 15000) { one<User::Base>(rng); one<User::Derived>(rng); one<User::Subclass>(rng); one<User::Private>(rng); one<User::Second>(rng); one<User::Virtual>(rng); one<User::Final>(rng); one<User::NoCopy>(rng); one<User::Formats>(rng); one<Helper::Plain>(rng); one<Helper::Overloaded>(rng); one<Helper::Defaulted>(rng); }
// write methods which change the stream: what they leave is what calling them leaves
static std::ostream& change(std::ostream& os, int v) {
    if (v & 1) os << std::hex << std::showbase; if (v & 2) os.precision(3 + v % 7); if (v & 4) os.fill('#'); if (v & 8) os << std::fixed << std::boolalpha; os << v * 1.5 << ' ' << v << ' ' << true;
    if (v & 16) os.width(9); if (v & 32) os.setstate(v & 64 ? std::ios::failbit : std::ios::eofbit); if (v & 128) os.iword(0) = v; if (v & 256) os << std::unitbuf; if (v & 512) os << std::uppercase << std::left; return os;
}
namespace User { struct Setting : Helper::WritableInterface { int v; Setting(int v) : v(v) {} std::ostream& _write(std::ostream& os) const override { return change(os, v); } }; }
namespace Helper { struct PlainSetting { int v; std::ostream& _write(std::ostream& os) const { return change(os, v); } }; }
MON_SUITE(changed_streams, 300, 10000) {
    int v = static_cast<int>(rng.below(1024)); User::Setting const t(v); Helper::PlainSetting const p{v}; Helper::WritableInterface const& i = t; Helper::Handle<Helper::WritableInterface const> h(std::make_shared<User::Setting>(v)); bool grouped = rng.chance(1, 2); mon::log("settings %d", v); mon::nontrivial();
    auto prepare = [&](std::ostream& os) { if (grouped) { os << std::oct << std::setprecision(5) << std::setfill('-') << std::right; } }; std::ostringstream direct; prepare(direct); t._write(direct);
    auto as = [&](char const* how, auto write) { std::ostringstream os; prepare(os); write(os); MON_CHECK(os.str() == direct.str(), "changed-stream/text", "a method which changes the stream, called " << how << ", writes '" << os.str() << "' instead of '" << direct.str() << "'"); MON_CHECK(os.flags() == direct.flags() && os.precision() == direct.precision() && os.width() == direct.width() && os.fill() == direct.fill() && os.rdstate() == direct.rdstate() && os.iword(0) == direct.iword(0), "changed-stream/format", "a method which changes the stream, called " << how << ", leaves another format or state than calling it");
        std::ostringstream d; prepare(d); t._write(d); d.clear(); os.clear(); d << 255 << 'x' << 2.25; os << 255 << 'x' << 2.25; MON_CHECK(os.str() == d.str(), "changed-stream/after", "after a method which changes the stream, called " << how << ", the stream gives '" << os.str() << "' instead of '" << d.str() << "'"); mon::event("changed streams"); };
    as("by an object", [&](std::ostream& os) { os << t; }); as("by the interface", [&](std::ostream& os) { os << i; }); as("by write", [&](std::ostream& os) { i.write(os); }); as("by a handle", [&](std::ostream& os) { os << h; }); as("by a plain object", [&](std::ostream& os) { os << p; });
}
// a class in a class, whose elements write themselves
MON_SUITE(nested, 200, 10000) {
    int v = static_cast<int>(rng.range(0, 99)); using Helper::Inside; mon::nontrivial(); std::string o = std::to_string(v);
    { Inside<User::Derived> t{{v}}; auto e = [&](std::ostream* s) { return Expected{"inside(derived" + o + ")", {{&t, s, INSIDE}, {&t.t, s, DERIVED}}}; }; WRITE("inside", e, t); }
    { Inside<Inside<Helper::Plain>> t{{{v}}}; auto e = [&](std::ostream* s) { return Expected{"inside(inside(plain" + o + "))", {{&t, s, INSIDE}, {&t.t, s, INSIDE}, {&t.t.t, s, PLAIN}}}; }; WRITE("inside", e, t); }
    { Inside<int> t{v}; auto e = [&](std::ostream* s) { return Expected{"inside(" + o + ")", {{&t, s, INSIDE}}}; }; WRITE("inside", e, t); }
    { Inside<std::vector<User::Private>> t{{User::Private(v), User::Private(v + 1)}}; auto e = [&](std::ostream* s) { return Expected{"inside([private" + o + ",private" + std::to_string(v + 1) + "])", {{&t, s, INSIDE}, {&t.t[0], s, PRIVATE}, {&t.t[1], s, PRIVATE}}}; }; WRITE("inside", e, t); }
}
// ------------------------------------------------------------------ elements of containers
template<class T> struct ByValue { bool operator()(T const& a, T const& b) const { return a.v < b.v; } };
template<class T> Expected listing(std::vector<T const*> const& es, std::ostream* s, char open, char close) { Expected e; e.text = open; for (size_t i = 0; i < es.size(); ++i) { e.text += (i ? "," : "") + text_of(method<T>, es[i]->v); e.calls.push_back({identity(*es[i]), s, method<T>}); } e.text += close; return e; }
template<class C> auto addresses(C const& c) { std::vector<typename C::value_type const*> v; for (auto& x : c) v.push_back(&x); return v; }
template<class T> void elements(Rng& r) {
    size_t n = r.chance(1, 15) ? r.edge(300) : r.below(6); std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(T{static_cast<int>(r.range(-9, 99))}); std::string o = std::to_string(n) + " of " + text_of(method<T>, 0);
#define CONTAINER(how, c, open, close) { auto const& c_ = c; auto e = [&](std::ostream* s) { std::vector<T const*> a; for (auto it = c_.begin(); it != c_.end(); ++it) a.push_back(&*it); return listing<T>(a, s, open, close); }; WRITE(how, e, c_); }
    CONTAINER("vector", v, '[', ']') Helper::List<T> l(v); CONTAINER("list", l, '[', ']') std::list<T> sl(v.begin(), v.end()); Helper::LinkedList<T> ll(v.begin(), v.end()); CONTAINER("linked list", ll, '[', ']') Helper::Array<T> a(v.begin(), v.end()); CONTAINER("array", a, '[', ']')
    if constexpr (std::is_same_v<T, User::Derived> || std::is_same_v<T, Helper::Plain>) { Helper::Array<Helper::Array<T>> aa{Helper::Array<T>(v.begin(), v.end())}; auto e = [&](std::ostream* s) { std::vector<T const*> p; for (size_t i = 0; i < n; ++i) p.push_back(&aa[0][i]); Expected x = listing<T>(p, s, '[', ']'); x.text = "[" + x.text + "]"; return x; }; WRITE("array of arrays", e, aa); }
    { Helper::Map<int, T> m; std::vector<T const*> p; for (size_t i = 0; i < n; ++i) m.insert(std::make_pair(static_cast<int>(i), v[i])); Helper::Map<int, std::string> texts; for (auto& [k, t] : m) texts.insert(std::make_pair(k, text_of(method<T>, t.v))); std::ostringstream plain; plain << texts; auto e2 = [&](std::ostream* s) { Expected x; x.text = plain.str(); for (auto& [k, t] : m) x.calls.push_back({identity(t), s, method<T>}); return x; }; WRITE("map", e2, m); }
    if (n >= 2) { std::pair<T, int> p{v[0], 5}; auto e = [&](std::ostream* s) { return Expected{"(" + text_of(method<T>, p.first.v) + ",5)", {{identity(p.first), s, method<T>}}}; }; WRITE("pair", e, p); std::tuple<T, T> t{v[0], v[1]}; auto e2 = [&](std::ostream* s) { return Expected{"(" + text_of(method<T>, std::get<0>(t).v) + "," + text_of(method<T>, std::get<1>(t).v) + ")", {{identity(std::get<0>(t)), s, method<T>}, {identity(std::get<1>(t)), s, method<T>}}}; }; WRITE("tuple", e2, t); }
    mon::nontrivial();
}
MON_SUITE(containers, 200, 10000) { elements<User::Base>(rng); elements<User::Derived>(rng); elements<User::Private>(rng); elements<User::Second>(rng); elements<User::Virtual>(rng); elements<Helper::Plain>(rng); }
// ------------------------------------------------------------------ which types are writable
template<class T> void recognised(bool want, char const* name) { mon::log("%s%d", name, want); mon::event("types judged"); MON_CHECK(Helper::IsWritable<T>::value == want, "recognised", name << (want ? " is not recognised as writable" : " is recognised as writable")); MON_CHECK(Helper::IsWritable<T const>::value == want, "recognised", name << " const" << (want ? " is not recognised as writable" : " is recognised as writable")); }
MON_SUITE(recognition, 1, 1) {
    mon::nontrivial();
#define YES(...) recognised<__VA_ARGS__>(true, #__VA_ARGS__)
#define NO(...) recognised<__VA_ARGS__>(false, #__VA_ARGS__)
    YES(User::Base); YES(User::Derived); YES(User::Subclass); YES(User::Second); YES(User::Virtual); YES(User::Final); YES(User::NoCopy); YES(User::Formats); YES(User::Closed); YES(User::Writing); YES(Helper::Plain); YES(Helper::Overloaded); YES(Helper::Defaulted); YES(Helper::Inside<int>); YES(Helper::Inside<User::Base>); YES(Helper::WritableInterface); YES(User::Abstract); YES(User::Static); YES(User::Qualified); YES(User::Narrow); YES(User::Any);
    NO(User::Changing); NO(User::Silent); NO(User::Data); NO(User::Needs); NO(User::Hidden); NO(User::Gone); NO(User::Rvalue); NO(User::Reads); NO(User::Other); NO(User::Before); NO(int); NO(int*); NO(User::Base*); NO(std::string); NO(std::vector<User::Base>); NO(Helper::List<Helper::Plain>); NO(Helper::Handle<Helper::WritableInterface const>); NO(std::shared_ptr<User::Base>); NO(void); NO(int[3]); NO(Helper::Writer<int>); NO(std::ostream); NO(Canary); NO(Helper::Fallback);
}
// ------------------------------------------------------------------ writers
static int serial = 0; static std::map<int, int> implementations; // how many objects of each implementation live
template<class T> struct Style : Helper::WriterInterface<T> {
    int id; Style() : id(++serial) { mon::Untracked u; ++implementations[id]; } Style(Style const& s) : Helper::WriterInterface<T>(s), id(s.id) { mon::Untracked u; ++implementations[id]; } ~Style() { mon::Untracked u; --implementations[id]; }
  private:
    std::ostream& _write(std::ostream& os, T const& t) const override { note(&t, os, 1000 + id); return os << "<" << id << ":" << value(t) << ">"; }
    static int value(int i) { return i; } static int value(Helper::Plain const& p) { return p.v; } static int value(User::NoCopy const& p) { return p.v; } static int value(std::vector<int> const& v) { return static_cast<int>(v.size()); }
};
// a writer which writes the elements of a list by another writer
struct Listing : Helper::WriterInterface<std::vector<int>> { Helper::Writer<int> each; Listing(Helper::Writer<int> const& w) : each(w) {} private: std::ostream& _write(std::ostream& os, std::vector<int> const& v) const override { note(&v, os, 5000); os << "{"; for (auto& i : v) os << each(i) << ";"; return os << "}"; } };
template<class T> void writers(Rng& r) {
    serial = 0; { mon::Untracked u; implementations.clear(); } constexpr size_t N = 5; using W = Helper::Writer<T>; using I = Helper::WriterInterface<T>; std::optional<W> w[N]; int id[N] = {}; T a{1}, b{2}; long steps = r.range(8, 45); std::string o = "with a writer";
    auto check = [&] { std::map<int, int> want; for (auto& [k, n] : implementations) want[k] = 0; for (size_t i = 0; i < N; ++i) if (w[i]) want[id[i]] = 1; for (auto& [k, n] : implementations) MON_CHECK(n == want[k], n < want[k] ? "implementation-dies-early" : "implementation-not-released", n << " implementations number " << k << " live, used by " << (want[k] ? "some" : "no") << " writer"); };
    for (long s = 0; s < steps; ++s) {
        size_t i = r.below(N), j = r.below(N); mon::log("%zu.%zu", i, j);
        switch (r.below(12)) {
        case 0: if (w[i]) break; w[i].emplace(std::make_shared<Style<T>>()); id[i] = serial; mon::log("new%d", serial); break;
        case 1: if (w[i]) break; w[i].emplace(Style<T>()); id[i] = serial; mon::log("moved%d", serial); break;
        case 2: { if (w[i]) break; Style<T> st; w[i].emplace(std::as_const(st)); id[i] = st.id; mon::log("copied%d", st.id); break; }
        case 3: { if (w[i]) break; Helper::Handle<I> h(std::make_shared<Style<T>>()); w[i].emplace(h); id[i] = serial; mon::log("handle%d", serial); break; }
        case 4: if (w[i]) break; w[i].emplace(new Style<T>()); id[i] = serial; mon::log("pointer%d", serial); break;
        case 5: if (w[i] || !w[j]) break; w[i].emplace(std::as_const(*w[j])); id[i] = id[j]; mon::log("copy"); break;
        case 6: if (w[i] && w[j]) { *w[i] = std::as_const(*w[j]); id[i] = id[j]; mon::log("assign"); } break;
        case 7: if (w[i] && w[j] && i != j) { *w[i] = std::move(*w[j]); id[i] = id[j]; w[j].reset(); mon::log("move"); } break;
        case 8: w[i].reset(); mon::log("destroy"); break;
        case 9: if (w[i] && !w[j]) { w[j].emplace(std::move(*w[i])); id[j] = id[i]; w[i].reset(); mon::log("move"); } break;
        case 10: if (w[i] && w[j] && i != j) { std::swap(*w[i], *w[j]); std::swap(id[i], id[j]); mon::log("swap"); } break;
        default: if (w[i] && w[j]) { *w[i] = static_cast<Helper::Handle<I>>(*w[j]); id[i] = id[j]; mon::log("assign-handle"); } break;
        }
        check();
        for (size_t k = 0; k < N; ++k) if (w[k]) {
            T const& t = r.chance(1, 2) ? a : b; int v = &t == &a ? 1 : 2; if constexpr (std::is_same_v<T, std::vector<int>>) v = static_cast<int>(t.size()); std::string tx = "<" + std::to_string(id[k]) + ":" + std::to_string(v) + ">"; W const& wk = *w[k];
            auto e = [&](std::ostream* st) { return Expected{tx, {{&t, st, 1000 + id[k]}}}; }; WRITE("by a writer", e, wk(t)); if (r.chance(1, 4)) { WRITE("by a variable writer", e, (*w[k])(t)); auto temporary = wk(t); WRITE("by a kept temporary", e, temporary); auto e2 = [&](std::ostream* st) { return Expected{tx, {{&t, st, 1000 + id[k]}}}; }; auto other = temporary; WRITE("by a copied temporary", e2, other); }
            if (r.chance(1, 4)) { Helper::Handle<I> const& h = wk; WRITE("by an implementation", e, h.const_reference()(t)); WRITE("by a copied writer", e, W(wk)(t)); }
            if (r.chance(1, 4)) { size_t q = r.below(N); if (w[q]) { std::string ty = "<" + std::to_string(id[q]) + ":" + std::to_string(v) + ">"; std::ostringstream os; record.clear(); std::ostream* st = &(os << wk(t) << "," << (*w[q])(t)); judge("two writers in a row", Expected{tx + "," + ty, {{&t, &os, 1000 + id[k]}, {&t, &os, 1000 + id[q]}}}, os.str(), st, &os, o); } }
            if (r.chance(1, 6)) { std::ostringstream os; os.setstate(r.chance(1, 2) ? std::ios::failbit : std::ios::badbit); record.clear(); std::ostream* st = &(os << wk(t)); MON_CHECK(record == (std::vector<Written>{{&t, &os, 1000 + id[k]}}) && st == &os && os.fail(), "failed-stream", "a writer to a failed stream makes " << record.size() << " calls"); record.clear(); }
            if (r.chance(1, 6)) { auto lazy = wk(t); W keeper = wk; std::optional<W> gone = std::move(w[k]); w[k].reset(); gone.reset(); auto e3 = [&](std::ostream* st) { return Expected{tx, {{&t, st, 1000 + id[k]}}}; }; WRITE("by a temporary whose writer has been copied", e3, lazy); w[k].emplace(keeper); }
            if (r.chance(1, 6)) { std::ostringstream os; objections = 1; bool thrown = false; try { os << wk(t); } catch (Objection const&) { thrown = true; } objections = 0; MON_CHECK(thrown && os.good(), "throwing-method", "an exception of a writer is lost"); record.clear(); }
        }
        check();
    }
    if constexpr (std::is_same_v<T, int>) { for (size_t k = 0; k < N; ++k) if (w[k]) { Helper::Writer<std::vector<int>> all{Helper::Handle<Helper::WriterInterface<std::vector<int>>>(std::make_shared<Listing>(*w[k]))}; w[k].reset(); std::vector<int> v{4, 5}; std::string n = std::to_string(id[k]); auto e = [&](std::ostream* st) { return Expected{"{<" + n + ":4>;<" + n + ":5>;}", {{&v, st, 5000}, {&v[0], st, 1000 + id[k]}, {&v[1], st, 1000 + id[k]}}}; }; WRITE("by a writer which uses another", e, all(v)); } }
    for (auto& x : w) x.reset(); check(); mon::nontrivial();
}
MON_SUITE(writer_histories, 250, 3000) { writers<int>(rng); writers<Helper::Plain>(rng); writers<User::NoCopy>(rng); writers<std::vector<int>>(rng); }
// files and streams with exceptions
MON_SUITE(streams, 60, 2000) {
    mon::nontrivial(); int v = static_cast<int>(rng.below(100)); User::Derived d(v); User::Private p(v); Helper::Plain q{v}; std::string name = "c23.txt"; std::string want = "derived" + std::to_string(v) + "private" + std::to_string(v) + "plain" + std::to_string(v);
    { std::ofstream f(name); f << d << p << q; MON_CHECK(f.good(), "file", "a file is not good after writing"); } { std::ifstream f(name); std::string s((std::istreambuf_iterator<char>(f)), {}); MON_CHECK(s == want, "file", "a file contains '" << s << "' instead of '" << want << "'"); } ::unlink(name.c_str()); record.clear();
    struct Small : std::streambuf { size_t left; std::string got; Small(size_t n) : left(n) {} int overflow(int c) override { if (!left) return traits_type::eof(); --left; got += static_cast<char>(c); return c; } std::streamsize xsputn(char const* s, std::streamsize n) override { std::streamsize k = std::min<std::streamsize>(n, static_cast<std::streamsize>(left)); got.append(s, static_cast<size_t>(k)); left -= static_cast<size_t>(k); return k; } };
    for (size_t n = 0; n <= want.size(); n += 1 + rng.below(4)) { Small b(n); std::ostream os(&b); bool ex = rng.chance(1, 2), thrown = false; try { if (ex) os.exceptions(std::ios::badbit | std::ios::failbit); os << d << p << q; } catch (std::ios_base::failure const&) { thrown = true; } bool full = n < want.size(); MON_CHECK(b.got == want.substr(0, n) && os.good() == !full && thrown == (full && ex), "full-stream", "writing to a stream with room for " << n << " characters gives '" << b.got << "', state " << os.rdstate() << (thrown ? ", thrown" : "")); } record.clear();
    { std::ostringstream s; std::move(s) << d << p; MON_CHECK(s.str() == "derived" + std::to_string(v) + "private" + std::to_string(v), "temporary-stream", "a temporary stream contains '" << s.str() << "'"); } record.clear();
}
int main(int c, char** v) { mon::require("write methods called", 20000); mon::require("objects written", 20000); mon::require("types judged", 40); mon::require("changed streams", 500); return mon::main(c, v); }
