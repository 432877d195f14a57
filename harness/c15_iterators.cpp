// C15: iterator facades, pairs of iterators and ranges.  Oracle: positions as integers.
#include "mon.hpp"
#include <algorithm>
#include <list>
#include <memory>
#include <set>
#include <string>
#include <cstdlib>
#include <iostream>
#include "iterator.hpp"
#include "range.hpp"

using Helper::IteratorFacade; using Helper::PairIterator; using Helper::Range; using Helper::RangeIterator; using mon::Rng;
typedef std::ptrdiff_t Pos;

// an iterator over a vector, by reference or by value
template<class Val, class Ref> class VecIt : public IteratorFacade<VecIt<Val, Ref>, Val, Helper::RandomAccessTraversalTag, Ref> {
    friend class Helper::IteratorCoreAccess; typedef std::vector<std::remove_const_t<Val>> V; std::conditional_t<std::is_const_v<Val>, V const, V>* v; Pos p;
    bool equal(VecIt const& o) const { return p == o.p; } Pos distance_to(VecIt const& o) const { return o.p - p; } void advance(Pos n) { p += n; } Ref dereference() const { return (*v)[static_cast<size_t>(p)]; }
  public:
    VecIt(decltype(v) w, Pos q) : v(w), p(q) {} Pos position() const { return p; }
};
// an iterator which only counts, for far positions
class Count : public IteratorFacade<Count, long const, Helper::RandomAccessTraversalTag, long> {
    friend class Helper::IteratorCoreAccess; long p; bool equal(Count const& o) const { return p == o.p; } Pos distance_to(Count const& o) const { return o.p - p; } void advance(Pos n) { p += n; } long dereference() const { return p * 3 + 1; }
  public:
    explicit Count(long q) : p(q) {} long position() const { return p; }
};
static_assert(std::is_same_v<VecIt<int, int&>::value_type, int> && std::is_same_v<VecIt<int const, int const&>::value_type, int> && std::is_same_v<VecIt<int, int&>::reference, int&> && std::is_same_v<Count::reference, long> && std::is_same_v<VecIt<int, int&>::difference_type, std::ptrdiff_t>);
static_assert(std::is_same_v<std::iterator_traits<VecIt<int, int&>>::iterator_category, std::random_access_iterator_tag>);

template<class It> void relations(It const& a, It const& b, Pos p, Pos q, char const* what) {
    MON_CHECK((a == b) == (p == q), "equal", what << ": positions " << p << " == " << q << " is " << (a == b)); MON_CHECK((a != b) == (p != q), "unequal", what << ": positions " << p << " != " << q << " is " << (a != b));
    MON_CHECK((a < b) == (p < q), "less", what << ": positions " << p << " < " << q << " is " << (a < b)); MON_CHECK((a <= b) == (p <= q), "less-equal", what << ": positions " << p << " <= " << q << " is " << (a <= b));
    MON_CHECK((a > b) == (p > q), "greater", what << ": positions " << p << " > " << q << " is " << (a > b)); MON_CHECK((a >= b) == (p >= q), "greater-equal", what << ": positions " << p << " >= " << q << " is " << (a >= b));
    MON_CHECK(a - b == p - q, "difference", what << ": positions " << p << " - " << q << " is " << (a - b)); mon::event(p < q ? "comparisons below" : p == q ? "comparisons equal" : "comparisons above");
}
template<class It, class Make, class Deref> void walk(Rng& r, Pos lo, Pos hi, Make make, Deref deref, char const* what) {
    Pos p = r.range(lo, hi); It a = make(p), b = make(r.range(lo, hi));
    for (int n = 0; n < 30; ++n) {
        Pos q = r.range(lo, hi), k = q - p; It before = a; Pos pb = p;
        switch (r.below(8)) {
        case 0: mon::log("+=%td", k); { It& z = (a += k); p = q; MON_CHECK(&z == &a, "compound-result", what << ": += returns another iterator"); } break;
        case 1: mon::log("-=%td", -k); { It& z = (a -= -k); p = q; MON_CHECK(&z == &a, "compound-result", what << ": -= returns another iterator"); } break;
        case 2: mon::log("+%td", k); { It z = a + k; MON_CHECK(a.position() == p, "operand-changed", what << ": + changes its operand"); a = z; p = q; } break;
        case 3: mon::log("-%td", -k); { It z = a - (-k); MON_CHECK(a.position() == p, "operand-changed", what << ": - changes its operand"); a = z; p = q; } break;
        case 4: if (p == hi) break; mon::log("++"); { It& z = ++a; ++p; MON_CHECK(&z == &a, "increment-result", what << ": ++ returns another iterator"); } break;
        case 5: if (p == lo) break; mon::log("--"); { It& z = --a; --p; MON_CHECK(&z == &a, "decrement-result", what << ": -- returns another iterator"); } break;
        case 6: mon::log("new b %td", q); b = make(q); break;
        default: mon::log("swap"); std::swap(a, b); p = a.position(); break;
        }
        MON_CHECK(a.position() == p, "position", what << " is at " << a.position() << ", expected " << p); MON_CHECK(before.position() == pb || true, "copy", ""); relations(a, b, p, b.position(), what); relations(b, a, b.position(), p, what); relations(a, make(p), p, p, what); deref(a, p);
        Pos d = r.range(-3, 3); if (p + d >= lo && p + d <= hi) relations(a, a + d, p, p + d, what); mon::event("walk steps");
    }
    mon::nontrivial();
}
MON_SUITE(by_reference, 600, 30000) {
    typedef VecIt<int, int&> It; std::vector<int> v, m; for (size_t n = rng.below(20); n > 0; --n) v.push_back(static_cast<int>(rng.below(1000))); m = v; Pos n = static_cast<Pos>(v.size());
    walk<It>(rng, 0, n, [&](Pos p) { return It(&v, p); }, [&](It const& a, Pos p) { if (p == n) return; MON_CHECK(&*a == &v[static_cast<size_t>(p)] && a.operator->() == &v[static_cast<size_t>(p)], "reference", "dereferencing position " << p << " gives another element"); if (rng.chance(1, 4)) { *a = 7; m[static_cast<size_t>(p)] = 7; } MON_CHECK(v == m, "write", "writing at position " << p << " gives " << mon::show(v)); }, "iterator");
    It b(&v, 0), e(&v, n); MON_CHECK(std::distance(b, e) == n, "std::distance", "std::distance is " << std::distance(b, e)); Pos k = 0; for (It i = b; i != e; ++i) { MON_CHECK(*i == m[static_cast<size_t>(k)], "iteration", "element " << k << " is " << *i); ++k; } MON_CHECK(k == n, "iteration", "iterating visits " << k << " elements of " << n);
    It j = b; std::advance(j, n / 2); MON_CHECK(j.position() == n / 2, "std::advance", "std::advance moves to " << j.position());
}
struct Field { int x = 0; };
MON_SUITE(constant, 400, 20000) {
    typedef VecIt<Field const, Field const&> It; std::vector<Field> v; for (size_t n = 1 + rng.below(20); n > 0; --n) v.push_back(Field{static_cast<int>(rng.below(1000))}); Pos n = static_cast<Pos>(v.size());
    walk<It>(rng, 0, n, [&](Pos p) { return It(&v, p); }, [&](It const& a, Pos p) { if (p == n) return; static_assert(std::is_same_v<decltype(*a), Field const&>); MON_CHECK(&*a == &v[static_cast<size_t>(p)] && a->x == v[static_cast<size_t>(p)].x && &a->x == &v[static_cast<size_t>(p)].x, "reference", "dereferencing position " << p << " gives another element"); }, "constant iterator");
}
MON_SUITE(by_value, 400, 20000) {
    Pos far = rng.chance(1, 2) ? Pos(1) << 40 : rng.chance(1, 2) ? Pos(1) << 61 : 100;
    walk<Count>(rng, -far, far, [](Pos p) { return Count(p); }, [](Count const& a, Pos p) { if (p < -(Pos(1) << 60) || p > (Pos(1) << 60)) return; long x = *a; MON_CHECK(x == p * 3 + 1, "value", "position " << p << " has the value " << x); }, "counting iterator");
}
// ------------------------------------------------------------------ the forward facade
struct Node { int x; Node* next; };
template<class Val> class FwdIt : public IteratorFacade<FwdIt<Val>, Val, Helper::ForwardTraversalTag> {
    friend class Helper::IteratorCoreAccess; Node* p; bool equal(FwdIt const& o) const { return p == o.p; } void increment() { p = p->next; } Val& dereference() const { return p->x; }
  public:
    explicit FwdIt(Node* q) : p(q) {} Node* node() const { return p; }
};
static_assert(std::is_same_v<std::iterator_traits<FwdIt<int>>::iterator_category, std::forward_iterator_tag> && std::is_same_v<FwdIt<int const>::value_type, int>);
template<class Val> void forward(Rng& r) {
    size_t n = r.below(15); std::vector<Node> v(n); std::vector<int> m; for (size_t i = 0; i < n; ++i) { v[i] = Node{static_cast<int>(r.below(1000)), nullptr}; m.push_back(v[i].x); } std::vector<size_t> o(n); for (size_t i = 0; i < n; ++i) o[i] = i; for (size_t i = n; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
    for (size_t i = 0; i + 1 < n; ++i) v[o[i]].next = &v[o[i + 1]]; Node* head = n ? &v[o[0]] : nullptr; mon::log("%zu nodes", n);
    typedef FwdIt<Val> It; It i(head), e(nullptr); for (size_t k = 0; k < n; ++k) { It at(&v[o[k]]);
        MON_CHECK(i == at && !(i != at) && i != e && !(i == e), "forward-equal", "comparison of forward iterators at position " << k << " is wrong"); MON_CHECK(&*i == &v[o[k]].x && i.operator->() == &v[o[k]].x, "forward-reference", "position " << k << " refers to another element");
        if constexpr (!std::is_const_v<Val>) { *i = static_cast<int>(k) + 5000; MON_CHECK(v[o[k]].x == static_cast<int>(k) + 5000, "forward-write", "writing at position " << k << " changes another element"); }
        if (r.chance(1, 2)) { It old = i++; mon::log("post"); MON_CHECK(old == at, "post-increment", "post-increment at position " << k << " does not return the old position"); mon::event("post-increments"); } else { It& z = ++i; mon::log("pre"); MON_CHECK(&z == &i, "pre-increment", "pre-increment returns another iterator"); mon::event("pre-increments"); }
        MON_CHECK(i.node() == v[o[k]].next, "forward-increment", "increment at position " << k << " goes elsewhere"); }
    MON_CHECK(i == e, "forward-end", "iterating does not end at the end"); size_t c = 0; for (It j(head); j != e; j++) ++c; MON_CHECK(c == n && std::distance(It(head), e) == static_cast<Pos>(n), "forward-count", "iterating visits " << c << " of " << n << " elements"); mon::nontrivial();
}
MON_SUITE(forward_mutable, 400, 20000) { forward<int>(rng); }
MON_SUITE(forward_constant, 400, 20000) { forward<int const>(rng); }
// ------------------------------------------------------------------ pairs of iterators
MON_SUITE(pairs, 600, 30000) {
    std::vector<int> v; std::vector<double> w; for (size_t n = 1 + rng.below(15); n > 0; --n) { v.push_back(static_cast<int>(rng.below(1000))); w.push_back(rng.real()); } Pos n = static_cast<Pos>(v.size()); auto vb = v.begin(); auto wb = w.cbegin();
    typedef PairIterator<std::vector<int>::iterator, std::vector<double>::const_iterator> It; typedef PairIterator<std::vector<int>::const_iterator, std::vector<double>::const_iterator> CIt; Pos p = rng.range(0, n), s = rng.range(0, n); It a(vb + p, wb + p);
    for (int k = 0; k < 15; ++k) {
        Pos q = rng.range(0, n); mon::log("advance %td", q - p); a.advance(q - p); p = q; MON_CHECK(a.equal(It(vb + p, wb + p)) && It(vb + p, wb + p).equal(a), "pair-advance", "advancing a pair to " << p << " does not give the pair at it");
        s = rng.chance(1, 3) ? p : rng.range(0, n); Pos t = rng.chance(1, 2) ? s : rng.range(0, n); It b(vb + s, wb + t); MON_CHECK(a.equal(b) == (p == s && p == t) && b.equal(a) == (p == s && p == t), "pair-equal", "pairs at " << p << "," << p << " and " << s << "," << t << " are " << (a.equal(b) ? "equal" : "unequal")); mon::event(p == s && p == t ? "equal pairs" : p == s || p == t ? "pairs equal in one part" : "unequal pairs");
        It c(vb + s, wb + s); MON_CHECK(a.distance_to(c) == s - p && c.distance_to(a) == p - s, "pair-distance", "the distance from " << p << " to " << s << " is " << a.distance_to(c));
        CIt d(c); MON_CHECK(d.equal(CIt(v.cbegin() + s, wb + s)) && d.equal(c) && c.equal(d) && a.distance_to(d) == s - p, "pair-convert", "converting a pair moves it");
        if (p < n) { auto x = a.dereference(); size_t i = static_cast<size_t>(p); MON_CHECK(&x.first == &v[i] && &x.second == &w[i], "pair-reference", "a pair at " << p << " refers to other elements"); x.first = 5; MON_CHECK(v[i] == 5, "pair-write", "writing through a pair changes another element"); mon::event("pair references"); }
    }
    mon::nontrivial();
}
// ------------------------------------------------------------------ ranges
MON_SUITE(ranges, 1500, 60000) {
    size_t a, b; switch (rng.below(8)) { case 7: a = 0; b = rng.chance(1, 2) ? rng.next() >> rng.below(64) : (size_t(1) << rng.below(64)) + rng.below(8); break; case 5: case 6: a = (size_t(1) << rng.below(64)) - rng.below(8); b = a + rng.below(20); if (b < a) b = a; break; case 0: a = b = rng.chance(1, 2) ? 0 : rng.next(); break; case 1: a = rng.below(100); b = a + rng.below(50); break; case 2: b = SIZE_MAX - rng.below(3); a = b - rng.below(50); break; case 3: a = 0; b = rng.below(60); break; default: a = rng.next(); b = rng.next(); if (a > b) std::swap(a, b); break; }
    mon::log("range %zu %zu", a, b); Range const g(a, b); Range h = a == 0 && rng.chance(3, 4) ? Helper::range(b) : Helper::range(a, b);
    for (Range const& x : {g, h}) { MON_CHECK(x.size() == b - a && x.start() == a && x.stop() == b && x.stride() == 1, "range-size", "the range " << a << " to " << b << " has size " << x.size() << ", start " << x.start() << ", stop " << x.stop());
        for (int k = 0; k < 5; ++k) if (b > a) { size_t i = k == 0 ? 0 : k == 1 ? b - a - 1 : rng.below(b - a); MON_CHECK(x[i] == a + i, "range-value", "value " << i << " of the range from " << a << " is " << x[i]); }
        size_t n = 0; for (size_t v : x) { MON_CHECK(n < b - a && v == a + n, "range-iteration", "iterating the range " << a << " to " << b << " gives " << v << " at step " << n); ++n; if (n == 200) break; }
        if (b - a <= 200) { MON_CHECK(n == b - a, "range-iteration", "iterating the range " << a << " to " << b << " gives " << n << " values"); mon::event("whole ranges"); } mon::event(a == b ? "empty ranges" : "ranges"); }
    RangeIterator i(a); RangeIterator& z = ++i; MON_CHECK(&z == &i && (a == SIZE_MAX || *i == a + 1), "range-iterator", "increment of a range iterator is wrong"); RangeIterator e = end(g), s = begin(g); MON_CHECK((s != e) == (a != b) && (e != s) == (a != b) && !(s != s) && *s == a && *e == b, "range-iterator", "begin or end of the range " << a << " to " << b << " is wrong");
    mon::nontrivial();
}
// ------------------------------------------------------------------ iterators with a state which is more than a position
class Strided : public IteratorFacade<Strided, std::string const, Helper::RandomAccessTraversalTag> {   // every third element, from the back, with the text of its element made ready
    friend class Helper::IteratorCoreAccess; std::vector<std::string> const* v; Pos p; std::string trail; mutable std::shared_ptr<std::string> cur;
    bool equal(Strided const& o) const { ++calls; return p == o.p; } Pos distance_to(Strided const& o) const { ++calls; return o.p - p; } void advance(Pos n) { ++calls; p += n; trail += "."; cur.reset(); } std::string const& dereference() const { ++calls; return (*v)[v->size() - 1 - static_cast<size_t>(p * 3)]; }
  public:
    static inline long calls = 0; Strided(std::vector<std::string> const* w, Pos q) : v(w), p(q), trail(40, 't'), cur(new std::string("c")) {} Pos position() const { return p; }
};
MON_SUITE(strided, 250, 12000) {
    Pos n = static_cast<Pos>(1 + rng.below(15)); std::vector<std::string> v; for (Pos i = 0; i < 3 * n; ++i) v.push_back(std::to_string(i) + std::string(rng.below(30), 's')); mon::log("strided %td", n);
    walk<Strided>(rng, 0, n, [&](Pos p) { return Strided(&v, p); }, [&](Strided const& a, Pos p) { if (p == n) return; std::string const& w = v[v.size() - 1 - static_cast<size_t>(3 * p)]; MON_CHECK(&*a == &w && a.operator->() == &w && a->size() == w.size(), "reference", "dereferencing position " << p << " gives another element"); }, "strided iterator");
    mon::event("strided iterators");
}
// an increment which is not repeatable: each element of a source may be taken only once
class Taking : public IteratorFacade<Taking, int, Helper::ForwardTraversalTag, int> {
    friend class Helper::IteratorCoreAccess; std::vector<int> const* v; size_t i; long* steps; std::string state; bool equal(Taking const& o) const { return i == o.i; } void increment() { ++i; ++*steps; state += static_cast<char>('a' + i % 26); } int dereference() const { return (*v)[i]; }
  public:
    Taking(std::vector<int> const* w, size_t k, long* s) : v(w), i(k), steps(s) {} std::string const& trail() const { return state; }
};
MON_SUITE(increments, 200, 10000) {
    std::vector<int> v(rng.edge(300)); for (auto& x : v) x = static_cast<int>(rng.next()); long steps = 0; Taking i(&v, 0, &steps), e(&v, v.size(), &steps); mon::log("%zu elements", v.size()); std::string trail;
    for (size_t k = 0; i != e; ++k) { MON_CHECK(k < v.size() && *i == v[k], "taking/value", "element " << k << " is wrong"); if (rng.chance(1, 2)) { Taking o = i++; MON_CHECK(*o == v[k] && o.trail() == trail, "taking/post", "post-increment does not return the old iterator"); } else ++i; trail += static_cast<char>('a' + (k + 1) % 26); MON_CHECK(steps == static_cast<long>(k + 1) && i.trail() == trail, "taking/steps", "an increment takes " << steps << " steps after " << k + 1 << " increments"); }
    MON_CHECK(steps == static_cast<long>(v.size()), "taking/steps", "iterating takes " << steps << " steps for " << v.size() << " elements"); Taking c(i); MON_CHECK(c == e && !(c != e), "taking/end", "the end is not reached"); mon::event("increments taken", static_cast<unsigned long>(steps)); mon::nontrivial();
}
// ------------------------------------------------------------------ pairs of proxies, of pointers and of facades
MON_SUITE(other_pairs, 200, 10000) {
    size_t n = rng.chance(1, 25) ? 33000 + rng.below(67000) : 1 + rng.edge(140); std::vector<bool> v(n), m; std::vector<int> w(n); for (size_t i = 0; i < n; ++i) { v[i] = rng.chance(1, 2); w[i] = static_cast<int>(i) * 3; } m = v; mon::log("other pairs %zu", n);
    PairIterator<std::vector<bool>::iterator, VecIt<int, int&>> a(v.begin(), VecIt<int, int&>(&w, 0)); PairIterator<int*, std::vector<bool>::const_iterator> b(w.data(), v.cbegin()); size_t p = 0;
    for (int k = 0; k < 12; ++k) { size_t q = rng.chance(1, 5) ? rng.chance(1, 2) ? 0 : n - 1 : rng.below(n); Pos d = static_cast<Pos>(q) - static_cast<Pos>(p); a.advance(d); b.advance(d); p = q; auto x = a.dereference(); auto y = b.dereference(); MON_CHECK(x.first == m[p] && &x.second == &w[p] && &y.first == &w[p] && y.second == m[p], "pair-proxy", "a pair at " << p << " refers to other elements"); x.first = !m[p]; m[p] = !m[p]; x.second = static_cast<int>(p) * 3 + 1; MON_CHECK(v == m && w[p] == static_cast<int>(p) * 3 + 1, "pair-proxy-write", "writing through a pair changes another element"); w[p] = static_cast<int>(p) * 3;
        size_t t = rng.below(n); PairIterator<int*, std::vector<bool>::const_iterator> c(w.data() + t, v.cbegin() + static_cast<Pos>(t)); MON_CHECK(b.distance_to(c) == static_cast<Pos>(t) - static_cast<Pos>(p) && b.equal(c) == (t == p), "pair-distance", "distance or equality of pairs is wrong"); PairIterator<int const*, std::vector<bool>::const_iterator> g(c); MON_CHECK(g.equal(c) && c.equal(g) && g.equal(PairIterator<int const*, std::vector<bool>::const_iterator>(w.data() + t, v.cbegin() + static_cast<Pos>(t))), "pair-convert", "converting a pair moves it"); mon::event("pairs of other iterators"); }
    mon::nontrivial();
}
// ranges nested, and iterated while others are
MON_SUITE(nested_ranges, 100, 4000) {
    size_t a = rng.below(5), b = a + rng.below(30), n = 0; mon::log("nested %zu %zu", a, b); Range const r(a, b); for (size_t i : r) { size_t k = 0; for (size_t j : r) { MON_CHECK(j == a + k, "nested-range", "an inner loop gives " << j); ++k; } MON_CHECK(k == b - a && i == a + n, "nested-range", "an outer loop gives " << i << " after " << n); ++n; Range c = r; for (size_t j : c) { if (j > i) break; } } MON_CHECK(n == b - a && r.size() == n, "nested-range", "an outer loop takes " << n << " steps");
    size_t s = 0; for (size_t i : Range(0, 70000)) s += i; MON_CHECK(s == 70000ull * 69999 / 2, "long-range", "the sum of a long range is " << s); std::vector<size_t> l; for (size_t i : Helper::range(rng.below(300))) l.push_back(i); for (size_t i = 0; i < l.size(); ++i) MON_CHECK(l[i] == i, "range-list", "value " << i << " of a range is " << l[i]); mon::event("nested ranges"); mon::nontrivial();
}
int main(int c, char** v) { for (char const* e : {"comparisons below", "comparisons equal", "comparisons above", "walk steps", "post-increments", "pre-increments", "equal pairs", "pairs equal in one part", "pair references", "whole ranges", "empty ranges", "strided iterators", "increments taken", "pairs of other iterators"}) mon::require(e, 200); mon::require("nested ranges", 80); return mon::main(c, v); }
