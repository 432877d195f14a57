// C24: threads which use objects of their own, or only read shared ones.  Each task is a deterministic computation which
// renders all its results as text; it runs alone and together with others, and the texts must be equal.  The race
// detector watches the accesses.
#include <cstdlib>
#include <iostream>
#include <algorithm>
#include <atomic>
#include <cassert>
#include <deque>
#include <iomanip>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <sched.h>
#include "array.hpp"
#include "binary_word.hpp"
#include "container.hpp"
#include "handle.hpp"
#include "iterator.hpp"
#include "lazy.hpp"
#include "lru_cache.hpp"
#include "macros.hpp"
#include "range.hpp"
#include "stlio.hpp"
#include "stopwatch.hpp"
#include "string.hpp"
#include "tuple.hpp"
#include "variant.inl.hpp"
#include "writable.hpp"
#include "mon.hpp"
using mon::Rng;
using namespace std::string_literals;

thread_local Rng* delays = nullptr;
// The steps of the threads in the order they were taken: how often another thread took the next one, and a signature of
// the whole order. All relaxed, so that the monitor orders no accesses of the threads.
static std::atomic<long> steps{0}, switches{0}; static std::atomic<int> last{-1}; static std::atomic<uint64_t> signature{0}; thread_local int me = 0;
static inline void delay() { if (!delays) return; uint64_t k0 = static_cast<uint64_t>(steps.fetch_add(1, std::memory_order_relaxed)); if (last.exchange(me, std::memory_order_relaxed) != me) { switches.fetch_add(1, std::memory_order_relaxed); signature.fetch_xor((k0 * 8 + static_cast<uint64_t>(me) + 1) * 0x9E3779B97F4A7C15ull, std::memory_order_relaxed); } uint64_t k = delays->below(24); if (k == 0) sched_yield(); else if (k < 3) for (volatile int i = 0; i < 100 * static_cast<int>(k); i = i + 1) {} }
// a value whose copies and comparisons take time
struct Slow { std::string s; Slow(int i = 0) : s("slow" + std::to_string(i)) {} Slow(Slow const& o) : s(o.s) { delay(); } Slow& operator=(Slow const& o) { delay(); s = o.s; return *this; } bool operator<(Slow const& o) const { return s < o.s; } bool operator==(Slow const& o) const { return s == o.s; } friend std::ostream& operator<<(std::ostream& os, Slow const& x) { delay(); return os << x.s; } friend std::istream& operator>>(std::istream& is, Slow& x) { delay(); return is >> x.s; } };
template<class T> T value(Rng& r) { return T(static_cast<int>(r.below(12))); }
template<> std::string value<std::string>(Rng& r) { return std::string(r.below(30), static_cast<char>('a' + r.below(26))) + std::to_string(r.below(10)); }
struct Failed {};
template<class F> void outcome(std::ostream& o, F&& f) { try { f(); o << ";"; } catch (std::exception const& e) { o << "!" << e.what() << ";"; } }

// ------------------------------------------------------------------ tasks with objects of their own
template<class T> void arrays(Rng& r, std::ostream& o) {
    using Helper::Array; Array<T> a, b(r.below(6), value<T>(r)); Helper::SharedArray<T> s(r.below(5), value<T>(r)), s2(s);
    for (int n = 0; n < 30; ++n) { delay(); switch (r.below(10)) { case 0: a = b; break; case 1: b = Array<T>(r.below(9), value<T>(r)); break; case 2: a.resize(r.below(12)); for (auto& x : a) x = value<T>(r); break; case 3: if (a.size()) a[r.below(a.size())] = value<T>(r); break; case 4: std::swap(a, b); break; case 5: o << (a == b) << a.size(); break; case 6: a = Array<T>(b.begin(), b.end()); break; case 7: o << a << b; break; case 8: { std::vector<T> v(a.begin(), a.end()); b = Array<T>(v.begin(), v.end()); std::reverse(b.begin(), b.end()); break; } default: if (s.size()) s2 = s; if (s.size()) s[0] = value<T>(r); o << s << s2.size(); } }
}
template<class T> void containers(Rng& r, std::ostream& o) {
    Helper::List<T> l; Helper::Set<T> s, q; Helper::Map<T, int> m, m2; Helper::LinkedList<T> k;
    for (int n = 0; n < 30; ++n) { delay(); T x = value<T>(r); switch (r.below(14)) { case 0: l.append(x); break; case 1: l.append(Helper::List<T>(l)); if (l.size() > 40) l.clear(); break; case 2: s.insert(x); break; case 3: q.adjoin(s); q.insert(x); break; case 4: s.remove(x); break; case 5: q.restrict(s); break; case 6: o << Helper::join(s, q) << Helper::intersection(s, q) << Helper::difference(q, s) << s.subset(q) << s.disjoint(q) << s.contains(x); break; case 7: m.insert(x, n); break; case 8: m2[x] = n; m.adjoin(m2); break; case 9: outcome(o, [&] { o << m.get(x) << m.value(x); }); break; case 10: o << m.keys() << m.values() << m << m.has_key(x) << Helper::restrict_keys(m, s); break; case 11: k.append(x); if (k.size() < 20) k.append(k); break; case 12: o << l << k << s << Helper::make_list(s) << Helper::catenate(l, l); break; default: m.remove_keys(s); o << elementwise([&](T const& t) { delay(); return Helper::to_string(t); }, l); } }
}
void words(Rng& r, std::ostream& o) {
    using Helper::BinaryWord; BinaryWord a, b; for (int n = 0; n < 30; ++n) { delay(); switch (r.below(8)) { case 0: a.append(r.chance(1, 2)); break; case 1: b = a; b.append(r.chance(1, 2)); break; case 2: a.append(b); if (a.size() > 64) a.erase_prefix(50); break; case 3: o << (a < b) << a.is_prefix(b) << a.is_subword(b) << a.bytes(); break; case 4: o << a << b; break; case 5: { std::stringstream s; s << a << " " << b; s >> b >> a; break; } case 6: if (a.size()) a.set_back(r.chance(1, 2)); break; default: b = Helper::BinaryWord(r.chance(1, 2) ? "[1,0,1,1]" : "0110"); a.erase_prefix(static_cast<int>(r.below(4))); } }
}
template<class L, class V> void caches(Rng& r, std::ostream& o) {
    Helper::LRUCache<L, V> c(1 + r.below(4)); for (int n = 0; n < 40; ++n) { delay(); L l = value<L>(r); switch (r.below(4)) { case 0: outcome(o, [&] { if (!c.has_label(l)) c.put(l, value<V>(r)); }); break; case 1: outcome(o, [&] { o << c.get(l); }); break; case 2: outcome(o, [&] { o << c.age(l); }); break; default: o << c.current_size() << c.maximum_size() << c.has_label(l); } } Helper::LRUCache<L, V> d(c); o << d.current_size();
}
void lazies(Rng& r, std::ostream& o) {
    int made = 0; std::vector<Helper::Lazy<Slow>> v; for (int i = 0; i < 4; ++i) v.emplace_back([&made, i] { delay(); ++made; if (made % 5 == 4) throw std::runtime_error("not now"); return new Slow(i); });
    for (int n = 0; n < 20; ++n) { delay(); size_t i = r.below(v.size()); switch (r.below(3)) { case 0: { Helper::Lazy<Slow> c(v[i]); outcome(o, [&] { o << c(); }); break; } case 1: v[i] = v[r.below(v.size())]; break; default: outcome(o, [&] { o << v[i](); }); } o << made; }
}
struct Shape : virtual Helper::WritableInterface { virtual ~Shape() = default; virtual Shape* clone() const = 0; virtual Shape* _copy() const = 0; virtual Shape* _move() = 0; virtual void set(int) = 0; };
struct Circle : Shape { Slow v; Circle(int i) : v(i) {} Circle* clone() const override { return new Circle(*this); } Circle* _copy() const override { return clone(); } Circle* _move() override { return clone(); } void set(int i) override { v = Slow(i); } std::ostream& _write(std::ostream& os) const override { return os << "circle" << v; } };
struct Square : Shape { int v; Square(int i) : v(i) {} Square* clone() const override { delay(); return new Square(*this); } Square* _copy() const override { return clone(); } Square* _move() override { return clone(); } void set(int i) override { v = i; } std::ostream& _write(std::ostream& os) const override { return os << "square" << v; } };
void handles(Rng& r, std::ostream& o) {
    using H = Helper::Handle<Shape>; std::vector<H> v; for (int i = 0; i < 4; ++i) v.push_back(i % 2 ? H(std::make_shared<Circle>(i)) : H(std::make_shared<Square>(i)));
    for (int n = 0; n < 30; ++n) { delay(); size_t i = r.below(4), j = r.below(4); switch (r.below(6)) { case 0: v[i] = v[j]; break; case 1: v[i].reference().set(static_cast<int>(r.below(50))); break; case 2: o << std::as_const(v[i]); break; case 3: { H c(v[j]); c.reference().set(-1); o << c; break; } case 4: outcome(o, [&] { o << Helper::dynamic_handle_extract<Circle>(std::as_const(v[i])).v; }); break; default: outcome(o, [&] { auto h = Helper::dynamic_handle_cast<Helper::Handle<Circle const>>(std::as_const(v[i])); o << h.const_reference().v; }); } }
}
void reading(Rng& r, std::ostream& o) {
    for (int n = 0; n < 12; ++n) { delay(); std::string t = "["; for (size_t i = r.below(5); i-- > 0;) t += std::to_string(r.below(99)) + (i ? "," : ""); if (r.chance(4, 5)) t += "]"; if (r.chance(1, 5)) t += "x"; std::istringstream is(t); std::vector<int> v; outcome(o, [&] { Helper::read_sequence(is, v); o << v.size(); for (int x : v) o << x << " "; }); std::istringstream w("(a;b;slow)"); std::vector<Slow> sv; outcome(o, [&] { Helper::read_sequence(w, sv, '(', ')', ';'); o << sv.size(); }); }
}
void writing(Rng& r, std::ostream& o) {
    for (int n = 0; n < 12; ++n) { delay(); std::vector<Slow> v; for (size_t i = r.below(5); i-- > 0;) v.push_back(value<Slow>(r)); std::map<int, Slow> m; for (size_t i = r.below(4); i-- > 0;) m.insert({static_cast<int>(i), value<Slow>(r)}); Helper::write_sequence(o, v.begin(), v.end(), '<', '>', '|'); Helper::write_map_sequence(o, m.begin(), m.end()); o << Helper::to_string(r.below(1000)) << Helper::to_str(0.5 * static_cast<double>(r.below(99))) << Helper::String("s" + std::to_string(n)); std::ostringstream os; os << std::hex << std::setw(5) << 255; o << os.str(); }
}
template<int N> struct Alt { static constexpr int code() { return N * 3; } };
using Coded = Helper::CodedVariant<int, Alt<0>, Alt<1>, Alt<2>, Alt<3>, Alt<4>, Alt<5>, Alt<6>>;
struct Visit { template<int N> std::string operator()(Alt<N> const&) const { delay(); return "alternative" + std::to_string(N); } };
void variants(Rng& r, std::ostream& o) { for (int n = 0; n < 30; ++n) { Coded c(static_cast<int>(r.below(7)) * 3); Coded d = c; if (r.chance(1, 3)) d = Coded(Alt<5>()); o << c.accept(Visit()) << d.accept(Visit()) << Helper::holds_alternative<Alt<5>>(d) << c.code(); } }
void stopwatches(Rng& r, std::ostream& o) { Helper::Stopwatch<Helper::Microseconds> s; Helper::Stopwatch<Helper::Seconds> t; for (int n = 0; n < 10; ++n) { delay(); s.click(); auto d = s.duration(); o << (d.count() >= 0) << (s.elapsed_seconds() >= 0) << (s.duration() == d); s.restart(); o << s.duration().count(); t.click(); o << (t.elapsed_seconds() < 1000); } (void)r; }
void assertions(Rng& r, std::ostream& o) {
    for (int n = 0; n < 12; ++n) { delay(); int x = static_cast<int>(r.below(4)); Slow s(x); outcome(o, [&] { HELPER_ASSERT_MSG(x != 1, "x is " << s); }); outcome(o, [&] { HELPER_ASSERT(x != 2); }); outcome(o, [&] { HELPER_ASSERT_EQUAL(x, 3); }); outcome(o, [&] { HELPER_PRECONDITION_MSG(x < 2, "large " << x << s); }); outcome(o, [&] { HELPER_FAIL_MSG("failed " << x); }); outcome(o, [&] { HELPER_THROW(std::logic_error, "task", "thrown " << s); }); }
}
class Walk : public Helper::IteratorFacade<Walk, int const, Helper::RandomAccessTraversalTag> { int const* p; friend class Helper::IteratorCoreAccess; bool equal(Walk const& o) const { return p == o.p; } std::ptrdiff_t distance_to(Walk const& o) const { return o.p - p; } void advance(std::ptrdiff_t n) { p += n; } int const& dereference() const { return *p; } public: explicit Walk(int const* q) : p(q) {} };
void iterators(Rng& r, std::ostream& o) { std::vector<int> v; for (size_t i = r.below(20) + 2; i-- > 0;) v.push_back(static_cast<int>(r.below(99))); Walk b(v.data()), e(v.data() + v.size()); for (int n = 0; n < 10; ++n) { delay(); size_t i = r.below(v.size()); o << *(b + static_cast<std::ptrdiff_t>(i)) << (e - b) << (b < e) << *(e - 1); long sum = 0; for (Walk w = b; w != e; ++w) sum += *w; o << sum; Helper::Range g(r.below(5), 5 + r.below(9)); for (auto x : g) o << x; o << g.size() << g[1]; Helper::PairIterator<std::vector<int>::iterator, std::vector<int>::iterator> p(v.begin(), v.begin()); p.advance(static_cast<std::ptrdiff_t>(i)); o << p.dereference().first; } }
void tuples(Rng& r, std::ostream& o) { for (int n = 0; n < 20; ++n) { int a = 0; Slow b; Helper::make_lpair(a, b) = std::make_pair(static_cast<int>(r.below(9)), value<Slow>(r)); std::string c; Helper::make_ltuple(c, a) = std::make_tuple("t"s + std::to_string(a), 4); auto t = Helper::make_tuple(a, b, c); delay(); o << Helper::get_first(t) << Helper::get_second(t) << Helper::get_third(t); } }
template<class T> struct Style : Helper::WriterInterface<T> { std::string s; Style(std::string s) : s(s) {} private: std::ostream& _write(std::ostream& os, T const& t) const override { delay(); return os << s << t << s; } };
void writers(Rng& r, std::ostream& o) { Helper::Writer<int> w(std::make_shared<Style<int>>("*")), u(std::make_shared<Style<int>>("#")); for (int n = 0; n < 20; ++n) { delay(); int x = static_cast<int>(r.below(99)); switch (r.below(3)) { case 0: o << w(x) << u(x); break; case 1: std::swap(w, u); break; default: { Helper::Writer<int> k(w); o << k(n); } } } }
void smart(Rng& r, std::ostream& o) { using A = Helper::SharedArray<int>; std::vector<A> v(3, A(2, 7)); for (int n = 0; n < 20; ++n) { delay(); size_t i = r.below(3); switch (r.below(4)) { case 0: v[i] = A(r.below(5) + 1, n); break; case 1: v[i] = v[r.below(3)]; break; case 2: v[i][0] = n; break; default: for (auto& a : v) o << a; } } }

// ------------------------------------------------------------------ the remaining functions, each with objects of its own
struct Term { size_t i; Slow c; size_t index() const { delay(); return i; } Slow const& coefficient() const { return c; } };
template<class T> void conversions(Rng& r, std::ostream& o) {
    Helper::List<T> l; for (size_t i = r.below(8); i-- > 0;) l.append(value<T>(r)); std::vector<T> const& v = l;
    for (int n = 0; n < 12; ++n) { delay(); T x = value<T>(r); switch (r.below(12)) {
        case 0: o << Helper::unique_elements(v) << Helper::duplicate_elements(v); l.append(x); break; case 1: o << Helper::make_array(v) << Helper::make_array(x) << Helper::make_array(Helper::make_array(v)); break; case 2: { Helper::Set<T> s = Helper::make_set(v); o << s << Helper::make_list(s) << Helper::make_list(v) << Helper::make_list(Helper::make_array(v)) << Helper::make_list(x); break; }
        case 3: { Helper::Set<T> s = Helper::make_set(v), q; q.insert(x); o << Helper::disjoint(s, q) << Helper::disjoint(s, v) << s.disjoint(v) << Helper::intersection(s, v) << Helper::subset(q, s) << Helper::contains(s, x); s.remove(v); o << s; break; } case 4: { Helper::Set<T> s = Helper::make_set(v), q; q.insert(x); std::set<T> a(s), b(s); Helper::remove(a, q); Helper::restrict(b, q); o << Helper::make_list(Helper::Set<T>(a)) << Helper::make_list(Helper::Set<T>(b)); break; }
        case 5: o << Helper::apply([](T const& t) { delay(); return Helper::to_string(t).size(); }, l) << Helper::apply([](T const& t) { return Helper::to_string(t).size(); }, Helper::make_set(v)); break; case 6: o << elementwise([](T const& a, T const& b) { delay(); return a < b; }, l, Helper::catenate(Helper::List<T>(l.begin(), l.begin() + (l.empty() ? 0 : 1)), Helper::List<T>(l.begin() + (l.empty() ? 0 : 1), l.end()))); break; case 7: o << Helper::catenate(l, x) << static_cast<Helper::List<T>>(Helper::make_set(v)); l.concatenate(v); if (l.size() > 20) l.clear(); break;
        case 8: { Helper::Map<T, short> m; m.insert(x, static_cast<short>(4)); m.insert(std::make_pair(value<T>(r), static_cast<short>(n))); Helper::Map<T, long> w(m); o << w << Helper::join(w, w); Helper::insert(w, x, 9L) += 1; o << w; break; } case 9: { Helper::Array<T> a(v.begin(), v.end()), b; b.assign(v.begin(), v.end()); a.fill(x); b.reallocate(r.below(5)); outcome(o, [&] { o << a.at(r.below(9)); }); o << a << b; Helper::Array<T> g(r.below(6), [&](size_t) { delay(); return value<T>(r); }); o << g; g.resize(r.below(9), x); o << g; a.swap(g); o << a; break; }
        case 10: { Helper::LinkedList<T> k(l), k2(static_cast<unsigned>(r.below(4)), x), k3(v.begin(), v.end()); k.append(k2); k.concatenate(k3); o << k; break; } default: { std::vector<T const*> p; std::map<int, T> m; std::map<int, std::shared_ptr<T>> q; for (auto const& t : v) { p.push_back(&t); m.insert({static_cast<int>(m.size()), t}); q[static_cast<int>(m.size())] = std::make_shared<T>(t); } Helper::write_pointer_sequence(o, p.begin(), p.end()); Helper::write_map_sequence(o, m.begin(), m.end()); Helper::write_map_pointer_sequence(o, q.begin(), q.end(), '(', ')', ';', '='); } } }
}
void indices(Rng& r, std::ostream& o) {
    for (int n = 0; n < 25; ++n) { delay(); size_t m = r.below(12); std::vector<size_t> v; for (size_t i = 0; i < m; ++i) if (r.chance(1, 2)) v.push_back(i); o << Helper::complement(m, Helper::Array<size_t>(v.begin(), v.end())); std::vector<Term> t; for (size_t i = r.below(4); i-- > 0;) t.push_back({i, value<Slow>(r)}); Helper::write_coefficient_map_sequence(o, t.begin(), t.end()); size_t a = r.below(9), b = a + r.below(9); for (size_t i : Helper::range(a, b)) o << i; for (size_t i : Helper::range(b)) o << i; o << Helper::range(a, b).stride() << Helper::range(a, b)[2]; }
}
using Helper::operator<<;
void collections(Rng& r, std::ostream& o) {
    for (int n = 0; n < 8; ++n) { delay(); std::vector<Slow> v; for (size_t i = r.below(5); i-- > 0;) v.push_back(value<Slow>(r)); std::deque<Slow> d(v.begin(), v.end()); std::list<Slow> l(v.begin(), v.end()); std::set<Slow> s(v.begin(), v.end()); std::map<Slow, int> m; for (auto& x : v) m[x] = n; std::pair<int, Slow> q(n, value<Slow>(r)); std::tuple<int, Slow, std::string> t(n, value<Slow>(r), "t"); Helper::write_sequence(o, d.begin(), d.end()); o << q << t << l << s << m << v; o << Helper::get_first(t) << Helper::get_third(t); auto u = Helper::make_tuple(1, 2, 3, n, value<Slow>(r)); o << Helper::get_fourth(u) << Helper::get_fifth(u); int x = 0, y = 0; Slow z; Helper::make_ltuple(x, y, z) = std::make_tuple(n, n + 1, value<Slow>(r)); o << x << y << z; }
}
struct Plain { int v; Plain(int i) : v(i) {} virtual ~Plain() = default; Plain* clone() const { return new Plain(*this); } };
struct Anything { virtual ~Anything() = default; virtual Anything* clone() const = 0; };
void pointers(Rng& r, std::ostream& o) {
    for (int n = 0; n < 20; ++n) { delay(); std::shared_ptr<Shape const> p; if (r.chance(1, 2)) p = std::make_shared<Circle>(n); else p = std::make_shared<Square>(n); auto c = Helper::dynamic_pointer_extract<Circle>(p); o << (c ? "circle" : "other"); if (c) o << c->v; c = Helper::dynamic_pointer_extract<Circle>(std::shared_ptr<Shape const>()); o << !c; auto h = Helper::make_handle<Plain>(n); auto k = h; k.reference().v += 3; o << h.const_reference().v << std::as_const(k).reference().v << h.managed_const_pointer().use_count(); k = h; o << k.ptr()->v << k.managed_pointer()->v << std::as_const(k).raw_pointer()->v; o << Helper::make_binary_word(r.chance(1, 2) ? "[1,0]" : "111"); Helper::Handle<Shape> w{Circle(n)}; Helper::Handle<Shape> x(std::as_const(w)); x.ref().set(n + 1); o << w << x; o << Helper::class_name<Helper::String>(); }
}
struct Worker : Helper::WritableInterface { int v; Worker(int i) : v(i) {} std::ostream& _write(std::ostream& os) const override { delay(); return os << "worker" << v; } };
struct Duck { int v; std::ostream& _write(std::ostream& os) const { delay(); return os << "duck" << v; } };
void writables(Rng& r, std::ostream& o) { for (int n = 0; n < 25; ++n) { delay(); Worker w(static_cast<int>(r.below(99))); Duck d{n}; Helper::WritableInterface const& i = w; o << w << i << d; i.write(o); o << Helper::to_string(w) << Helper::to_str(d); Helper::List<Worker> l; l.append(w); l.append(Worker(n)); o << l; Helper::Set<int> s{1, n}; o << s; Helper::Map<int, std::string> m; m[n] = "x"; o << m << m[n]; Helper::SharedArray<int> a{n, 2, 3}; a = Helper::SharedArray<int>(2); a[0] = a[1] = n; o << a; } }

struct Task { char const* name; void (*run)(Rng&, std::ostream&); };
constexpr Task tasks[] = {{"arrays of integers", arrays<int>}, {"arrays of strings", arrays<std::string>}, {"arrays of slow values", arrays<Slow>}, {"containers of integers", containers<int>}, {"containers of slow values", containers<Slow>}, {"words", words}, {"caches of integers", caches<int, int>}, {"caches of slow values", caches<Slow, Slow>}, {"caches of strings", caches<std::string, std::string>}, {"lazy objects", lazies}, {"handles", handles}, {"reading", reading}, {"writing", writing}, {"variants", variants}, {"stopwatches", stopwatches}, {"assertions", assertions}, {"iterators", iterators}, {"tuples", tuples}, {"writers", writers}, {"shared arrays", smart}, {"conversions of integers", conversions<int>}, {"conversions of slow values", conversions<Slow>}, {"conversions of strings", conversions<std::string>}, {"indices", indices}, {"collections", collections}, {"pointers", pointers}, {"writable objects", writables}};
constexpr size_t TASKS = std::size(tasks);
static std::string alone(size_t task, uint64_t seed) { Rng r(seed); std::ostringstream o; tasks[task].run(r, o); return o.str(); }

static std::string difference(std::string const& a, std::string const& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return "at " + std::to_string(i) + ": '" + b.substr(i, 60) + "' instead of '" + a.substr(i, 60) + "'"; }
template<class F> size_t together(size_t T, Rng& rng, F&& body) {
    steps = 0; switches = 0; last = -1; signature = 0;
    std::atomic<bool> go{false}; std::atomic<size_t> ready{0}; std::vector<uint64_t> seeds; for (size_t t = 0; t < T; ++t) seeds.push_back(rng.next()); std::vector<std::thread> ts;
    for (size_t t = 0; t < T; ++t) ts.emplace_back([&, t] { Rng d(seeds[t]); ready.fetch_add(1, std::memory_order_relaxed); while (!go.load(std::memory_order_relaxed)) {} delays = &d; me = static_cast<int>(t); body(t); delays = nullptr; });
    while (ready.load(std::memory_order_relaxed) < T) sched_yield(); go.store(true, std::memory_order_relaxed); for (auto& t : ts) t.join();
    mon::log("order %llx", static_cast<unsigned long long>(signature.load())); mon::event("points at which threads may be delayed", static_cast<uint64_t>(steps.load())); mon::event("switches between threads", static_cast<uint64_t>(switches.load())); if (switches.load() >= static_cast<long>(T)) mon::nontrivial();
    return T;
}
MON_SUITE(own_objects, 120, 6000) {
    size_t T = 2 + rng.below(4); struct Job { size_t task; uint64_t seed; std::string alone, together; }; std::vector<Job> jobs(T); size_t one = rng.below(TASKS); bool same = rng.chance(1, 3), first = rng.chance(1, 2); uint64_t common = rng.next();
    for (auto& j : jobs) { j.task = same ? one : rng.below(TASKS); j.seed = rng.chance(1, 4) ? common : rng.next(); mon::log("%s,%llu", tasks[j.task].name, static_cast<unsigned long long>(j.seed % 1000)); }
    if (mon::st().case_no < TASKS) for (auto& j : jobs) j.task = mon::st().case_no; // each kind of task together with itself
    if (first) for (auto& j : jobs) j.alone = alone(j.task, j.seed);
    mon::event("threads", together(T, rng, [&](size_t t) { for (int k = 0; k < 2; ++k) { std::string s = alone(jobs[t].task, jobs[t].seed); if (k == 0 || s != jobs[t].together) jobs[t].together = std::move(s); } }));
    if (!first) for (auto& j : jobs) j.alone = alone(j.task, j.seed);
    for (auto& j : jobs) { mon::event("results compared"); MON_CHECK(j.alone == j.together, std::string("other-result/") + tasks[j.task].name, tasks[j.task].name << " in a thread give another result than alone, " << difference(j.alone, j.together)); }
}
// ------------------------------------------------------------------ shared objects which are only read
struct Shared {
    Helper::Array<int> ints; Helper::Array<Slow> slows; Helper::SharedArray<int> shared_array; Helper::List<Slow> list; Helper::Set<Slow> set, other; Helper::Map<Slow, int> map; Helper::LinkedList<int> linked; Helper::BinaryWord word, longer; Helper::Handle<Shape> handle; Helper::Handle<Shape const> constant; Helper::Lazy<Slow> lazy; Helper::Range range; Coded coded; Helper::String string; Helper::Writer<int> writer; Style<int> style; Helper::Stopwatch<Helper::Microseconds> stopwatch; Helper::LRUCache<int, int> cache; Circle circle; std::shared_ptr<Shape const> pointer = std::make_shared<Circle>(11); Helper::Array<size_t> indices{1, 2, 5}; std::tuple<int, Slow> tuple; std::vector<int> numbers;
    Shared(Rng& r) : ints(1 + r.below(9), 5), slows(r.below(9), value<Slow>(r)), shared_array(3, 8), handle(std::make_shared<Circle>(4)), constant(std::make_shared<Square>(6)), lazy([] { return new Slow(9); }), range(r.below(4), 4 + r.below(9)), coded(static_cast<int>(r.below(7)) * 3), string("text"), writer(std::make_shared<Style<int>>("+")), style("="), cache(3), circle(2), tuple(5, value<Slow>(r)) {
        for (size_t i = r.below(9); i-- > 0;) { list.append(value<Slow>(r)); set.insert(value<Slow>(r)); other.insert(value<Slow>(r)); map.insert(value<Slow>(r), static_cast<int>(i)); linked.append(static_cast<int>(i)); word.append(r.chance(1, 2)); numbers.push_back(static_cast<int>(i)); } longer = word; longer.append(word); longer.append(true); lazy(); stopwatch.click(); cache.put(1, 2); cache.put(2, 3); numbers.push_back(1); }
};
void read_all(Shared const& s, Rng& r, std::ostream& o) {
    for (int n = 0; n < 40; ++n) { delay(); switch (r.below(26)) {
        case 0: o << s.ints << s.ints.size() << s.ints[0] << *s.ints.begin() << (s.ints == s.ints); break; case 1: { Helper::Array<Slow> c(s.slows); o << c << (c == s.slows); for (auto& x : s.slows) o << x; break; } case 2: o << s.shared_array << s.shared_array[1] << s.shared_array.size(); break;
        case 3: o << s.list << Helper::catenate(s.list, s.list) << elementwise([](Slow const& x) { return x.s.size(); }, s.list); break; case 4: { Slow x = value<Slow>(r); o << s.set << s.set.contains(x) << s.set.subset(s.other) << s.set.disjoint(s.other) << Helper::contains(s.set, x); break; } case 5: o << Helper::join(s.set, s.other) << Helper::intersection(s.set, s.other) << Helper::difference(s.set, s.other) << Helper::make_list(s.set); break;
        case 6: { Slow x = value<Slow>(r); o << s.map << s.map.has_key(x) << s.map.keys() << s.map.values(); outcome(o, [&] { o << s.map.get(x); }); outcome(o, [&] { o << s.map.value(x) << s.map[x]; }); o << Helper::restrict_keys(s.map, s.set) << Helper::join(s.map, s.map); break; } case 7: { Helper::LinkedList<int> c(s.linked); c.append(s.linked); o << s.linked << c; break; }
        case 8: o << s.word << s.longer << (s.word < s.longer) << s.word.is_prefix(s.longer) << s.longer.is_subword(s.word) << s.word.is_subword(s.longer) << s.word.bytes(); break; case 9: { Helper::BinaryWord c(s.word); c.append(s.longer); o << c; break; }
        case 10: o << s.handle << s.handle.const_reference() << *s.handle.pointer() << s.constant << *s.constant.ptr(); break; case 11: { Helper::Handle<Shape> h(s.handle); delay(); h.reference().set(static_cast<int>(n)); o << h << s.handle; break; } case 12: outcome(o, [&] { o << Helper::dynamic_handle_extract<Circle>(s.handle).v << Helper::dynamic_handle_cast<Helper::Handle<Circle const>>(s.handle).const_reference().v; }); outcome(o, [&] { o << Helper::dynamic_handle_extract<Square>(s.handle).v; }); break;
        case 13: o << s.lazy(); break; case 14: { Helper::Lazy<Slow> c(s.lazy); o << c() << (&c() == &s.lazy()); break; } case 15: for (auto x : s.range) o << x; o << s.range.size() << s.range[2] << s.range.start() << s.range.stop(); break; case 16: o << s.coded.accept(Visit()) << s.coded.code() << Helper::holds_alternative<Alt<3>>(s.coded); { Coded c(s.coded); o << c.accept(Visit()); } break;
        case 17: o << s.string << Helper::c_str(s.string) << Helper::to_string(s.string) << Helper::to_str(s.circle); break; case 18: o << s.writer(n) << s.style(n); { Helper::Writer<int> w(s.writer); o << w(4); } break; case 19: o << (s.stopwatch.duration().count() >= 0) << s.stopwatch.elapsed_seconds(); break; case 20: o << s.cache.current_size() << s.cache.maximum_size(); { Helper::LRUCache<int, int> c(s.cache); outcome(o, [&] { o << c.get(1) << c.age(2) << c.has_label(7); }); } break;
        case 21: o << Helper::unique_elements(s.list) << Helper::duplicate_elements(s.list) << Helper::make_set(s.list) << Helper::make_array(s.ints) << Helper::make_list(s.slows) << Helper::disjoint(s.set, s.list) << s.set.disjoint(s.list) << Helper::intersection(s.set, s.list); break; case 22: o << Helper::apply([](Slow const& x) { return x.s.size(); }, s.list) << Helper::apply([](Slow const& x) { return x.s.size(); }, s.set) << elementwise([](Slow const& a, Slow const& b) { return a < b; }, s.list, s.list) << Helper::subset(s.set, s.other) << Helper::disjoint(s.set, s.other); break;
        case 23: { Helper::Array<size_t> c = Helper::complement(s.indices.size() + 6, s.indices); o << c; Helper::write_sequence(o, s.slows.begin(), s.slows.end()); Helper::write_map_sequence(o, s.map.begin(), s.map.end()); outcome(o, [&] { o << s.ints.at(r.below(12)); }); break; } case 24: { auto p = Helper::dynamic_pointer_extract<Circle>(s.pointer); o << p->v << *s.pointer; break; }
        default: o << s.circle << static_cast<Helper::WritableInterface const&>(s.circle) << Helper::get_first(s.tuple) << Helper::get_second(s.tuple) << Helper::to_string(s.list); { Walk b(s.numbers.data()); o << *b << (b + 1 - b); } } }
}
MON_SUITE(shared_objects, 150, 7000) {
    size_t T = 2 + rng.below(4); Shared const s(rng); bool first = rng.chance(1, 2); std::vector<uint64_t> seeds; std::vector<std::string> a(T), b(T); for (size_t t = 0; t < T; ++t) { seeds.push_back(rng.next()); mon::log("%llu", static_cast<unsigned long long>(seeds.back() % 100000)); } auto by_oneself = [&] { for (size_t t = 0; t < T; ++t) { Rng r(seeds[t]); std::ostringstream o; read_all(s, r, o); a[t] = o.str(); } };
    if (first) by_oneself(); mon::event("threads", together(T, rng, [&](size_t t) { Rng r(seeds[t]); std::ostringstream o; read_all(s, r, o); b[t] = o.str(); })); if (!first) by_oneself();
    for (size_t t = 0; t < T; ++t) { mon::event("results compared"); MON_CHECK(a[t] == b[t], "other-result/shared", "reading shared objects in a thread gives another result than alone, " << difference(a[t], b[t])); }
}
int main(int c, char** v) { mon::require("threads", 500); mon::require("results compared", 500); mon::require("switches between threads", 2000); mon::require("points at which threads may be delayed", 10000); return mon::main(c, v); }
