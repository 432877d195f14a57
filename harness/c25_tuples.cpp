// C25: pairs and tuples of references, access by position, strings and conversion to strings.
#include <cstdlib>
#include <iostream>
#include <array>
#include <cstring>
#include <iomanip>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <vector>
#include "tuple.hpp"
#include "string.hpp"
#include "array.hpp"
#include "container.hpp"
#include "binary_word.hpp"
#include "stlio.hpp"
#include "probe.hpp"
using mon::Rng; using mon::Probe; using Helper::make_lpair; using Helper::make_ltuple; using Helper::String;
template<class A, class B> constexpr bool same = std::is_same_v<A, B>;

// ------------------------------------------------------------------ values
struct NoCopy { int v; explicit NoCopy(int v) : v(v) {} NoCopy(NoCopy const&) = delete; NoCopy& operator=(NoCopy const& o) { v = o.v; return *this; } bool operator==(NoCopy const&) const = default; };
struct MoveOnly { std::unique_ptr<int> p; MoveOnly(int v) : p(std::make_unique<int>(v)) {} bool operator==(MoveOnly const& o) const { return p && o.p ? *p == *o.p : !p && !o.p; } };
// whose address and construction are misleading
struct Greedy { int v; Greedy(int v) : v(v) {} template<class T> Greedy(T const&) : v(-777) {} bool operator==(Greedy const& o) const { return v == o.v; } };
template<class T> T some(Rng& r) {
    if constexpr (std::is_same_v<T, std::string>) return r.chance(1, 3) ? std::string(static_cast<size_t>(r.range(0, 40)), static_cast<char>(r.range('a', 'z'))) : std::to_string(r.range(-99, 99)); else if constexpr (std::is_same_v<T, std::vector<int>>) { std::vector<int> v; for (size_t i = r.below(5); i-- > 0;) v.push_back(static_cast<int>(r.below(9))); return v; } else if constexpr (std::is_same_v<T, double>) return static_cast<double>(r.range(-999, 999)) / 8; else if constexpr (std::is_same_v<T, std::tuple<int>>) return std::tuple<int>(static_cast<int>(r.below(99))); else if constexpr (std::is_same_v<T, std::pair<int, int>>) return std::pair<int, int>(static_cast<int>(r.below(99)), static_cast<int>(r.below(99))); else return T(static_cast<int>(r.range(-99, 99)));
}
static bool check_same(bool c, char const* key, char const* what) { mon::event("references compared"); MON_CHECK(c, key, what); return c; }
// ------------------------------------------------------------------ pairs and tuples of references
template<class A, class B> void pairs(Rng& r) {
    mon::log("%s,%s", typeid(A).name(), typeid(B).name()); A a(some<A>(r)); B b(some<B>(r)); A other_a(some<A>(r)); B other_b(some<B>(r)); mon::nontrivial();
    { auto p = make_lpair(a, b); check_same(same<decltype(p), std::pair<A&, B&>>, "pair-type", "make_lpair of variables is no pair of references"); check_same(&p.first == &a && &p.second == &b, "pair-variable", "make_lpair does not refer to the variables"); auto q = p; check_same(&q.first == &a && &q.second == &b, "pair-variable", "a copied pair does not refer to the variables"); auto m = std::move(q); check_same(&m.first == &a && &m.second == &b, "pair-variable", "a moved pair does not refer to the variables"); }
    { A const& ca = a; B const& cb = b; auto p = make_lpair(ca, b); auto q = make_lpair(a, cb); auto s = make_lpair(ca, cb); check_same(same<decltype(p), std::pair<A const&, B&>> && same<decltype(q), std::pair<A&, B const&>> && same<decltype(s), std::pair<A const&, B const&>>, "pair-type", "make_lpair of constants is no pair of references to constants"); check_same(&p.first == &a && &q.second == &b && &s.first == &a && &s.second == &b, "pair-variable", "make_lpair does not refer to the constants"); }
    { auto t = make_ltuple(a, b); check_same(same<decltype(t), std::tuple<A&, B&>>, "tuple-type", "make_ltuple of variables is no tuple of references"); check_same(&std::get<0>(t) == &a && &std::get<1>(t) == &b, "tuple-variable", "make_ltuple does not refer to the variables"); A const& ca = a; auto u = make_ltuple(ca); check_same(same<decltype(u), std::tuple<A const&>> && &std::get<0>(u) == &a, "tuple-variable", "make_ltuple of one constant"); auto w = make_ltuple(a); check_same(same<decltype(w), std::tuple<A&>> && &std::get<0>(w) == &a, "tuple-variable", "make_ltuple of one variable"); auto x = make_ltuple(a, b, a, ca, b); check_same(same<decltype(x), std::tuple<A&, B&, A&, A const&, B&>> && &std::get<2>(x) == &a && &std::get<3>(x) == &a && &std::get<4>(x) == &b, "tuple-variable", "make_ltuple of five"); check_same(same<decltype(make_ltuple()), std::tuple<>>, "tuple-type", "make_ltuple of nothing"); }
    // assignment
    if constexpr (std::is_copy_assignable_v<A> && std::is_copy_assignable_v<B> && std::is_copy_constructible_v<A> && std::is_copy_constructible_v<B>) {
        A wa(other_a); B wb(other_b); A const ka(other_a); B const kb(other_b); { make_lpair(a, b) = std::pair<A, B>(wa, wb); check_same(a == ka && b == kb && other_a == ka && other_b == kb, "pair-assignment", "assigning to a pair of references does not assign the values to the variables"); }
        A na(some<A>(r)); B nb(some<B>(r)); { auto p = make_lpair(a, b); p = make_lpair(na, nb); check_same(&p.first == &a && &p.second == &b && a == na && b == nb, "pair-assignment", "assigning another pair of references rebinds or loses values"); }
        A ma(some<A>(r)); B mb(some<B>(r)); { std::tuple<A, B> v(ma, mb); make_ltuple(a, b) = v; check_same(a == ma && b == mb && std::get<0>(v) == ma && std::get<1>(v) == mb, "tuple-assignment", "assigning to a tuple of references does not assign the values to the variables"); A xa(some<A>(r)), xa2(xa); B xb(some<B>(r)), xb2(xb); make_ltuple(a, b) = std::make_tuple(std::move(xa), std::move(xb)); check_same(a == xa2 && b == xb2, "tuple-assignment", "assigning a temporary tuple"); A ya(some<A>(r)); B yb(some<B>(r)); make_ltuple(a, b) = std::pair<A, B>(ya, yb); check_same(a == ya && b == yb, "tuple-assignment", "assigning a pair to a tuple of references"); }
        { A one(some<A>(r)), two(some<A>(r)), k1(one), k2(two); make_lpair(one, two) = Helper::make_pair(two, one); check_same(one == k2 && two == k1, "pair-exchange", "assigning the exchanged values"); make_ltuple(one, two) = Helper::make_tuple(two, one); check_same(one == k1 && two == k2, "tuple-exchange", "assigning the exchanged values to a tuple"); Probe* none = nullptr; (void)none; std::vector<A> v{k1, k2}; make_lpair(v[0], v[1]).first = k2; check_same(v[0] == k2 && v[1] == k2, "pair-part", "assigning to a part of a pair of references"); std::get<1>(make_ltuple(v[0], v[1])) = k1; check_same(v[0] == k2 && v[1] == k1, "tuple-part", "assigning to a part of a tuple of references"); }
        { auto [x, y] = make_lpair(a, b); check_same(&x == &a && &y == &b, "bindings", "structured bindings of a pair of references"); auto [u, w] = make_ltuple(a, b); check_same(&u == &a && &w == &b, "bindings", "structured bindings of a tuple of references"); }
        check_same(other_a == ka && other_b == kb, "pair-assignment", "assigning changed a variable which is not referred to");
    } else if constexpr (std::is_move_assignable_v<A> && std::is_move_constructible_v<A> && std::is_move_assignable_v<B> && std::is_copy_constructible_v<B>) { B kb(other_b); make_lpair(a, b) = std::pair<A, B>(std::move(other_a), kb); check_same(b == kb, "pair-assignment", "assigning a temporary pair to references"); A na(some<A>(r)); make_ltuple(a, b) = std::tuple<A, B>(std::move(na), kb); check_same(b == kb && !(a == na), "tuple-assignment", "assigning a temporary tuple to references"); }
}
MON_SUITE(references, 250, 12000) {
    pairs<int, double>(rng); pairs<std::string, int>(rng); pairs<std::string, std::string>(rng); pairs<Probe, std::string>(rng); pairs<std::vector<int>, Probe>(rng); pairs<NoCopy, int>(rng); pairs<MoveOnly, int>(rng); pairs<Greedy, Greedy>(rng); pairs<std::tuple<int>, std::pair<int, int>>(rng); pairs<std::pair<int, int>, std::tuple<int>>(rng); pairs<char, long>(rng);
    // references to parts of a base, an array, a function's own result
    static int global = 0; int* heap = new int(5); int local[3] = {1, 2, 3}; auto t = make_ltuple(global, *heap, local[1], local); check_same(&std::get<0>(t) == &global && &std::get<1>(t) == heap && &std::get<2>(t) == local + 1 && &std::get<3>(t) == &local, "tuple-variable", "variables of other kinds"); int v = static_cast<int>(rng.below(1000)); std::get<3>(t)[1] = v; check_same(std::get<2>(t) == v && local[0] == 1 && local[2] == 3, "tuple-assignment", "an array"); delete heap;
    Helper::Array<int> a(4); for (size_t i = 0; i < 4; ++i) a[i] = static_cast<int>(i); size_t i = rng.below(4), j = (i + 1 + rng.below(3)) % 4; make_lpair(a[i], a[j]) = std::make_pair(v, v + 1); for (size_t k = 0; k < 4; ++k) check_same(a[k] == (k == i ? v : k == j ? v + 1 : static_cast<int>(k)), "pair-assignment", "elements of an array");
}
// ------------------------------------------------------------------ access by position
template<size_t N, class T> decltype(auto) get_nth(T&& t) { if constexpr (N == 0) return Helper::get_first(std::forward<T>(t)); else if constexpr (N == 1) return Helper::get_second(std::forward<T>(t)); else if constexpr (N == 2) return Helper::get_third(std::forward<T>(t)); else if constexpr (N == 3) return Helper::get_fourth(std::forward<T>(t)); else return Helper::get_fifth(std::forward<T>(t)); }
template<size_t N, class T> void position(T& t, char const* what) {
    T const& c = t;
    check_same(same<decltype(get_nth<N>(t)), decltype(std::get<N>(t))>, "get-type", what); check_same(&get_nth<N>(t) == &std::get<N>(t), "get-part", what); check_same(same<decltype(get_nth<N>(c)), decltype(std::get<N>(c))>, "get-type", what); check_same(&get_nth<N>(c) == &std::get<N>(c), "get-part", what); check_same(same<decltype(get_nth<N>(std::move(t))), decltype(std::get<N>(std::move(t)))>, "get-type", what); check_same(same<decltype(get_nth<N>(std::move(c))), decltype(std::get<N>(std::move(c)))>, "get-type", what); auto&& m = get_nth<N>(std::move(t)); check_same(&m == &std::get<N>(t), "get-part", what);
}
template<class T> void positions(T& t, char const* what) { mon::log("%s", what); [&]<size_t... I>(std::index_sequence<I...>) { (position<I>(t, what), ...); }(std::make_index_sequence<(std::tuple_size_v<T> < 5 ? std::tuple_size_v<T> : 5)>()); mon::nontrivial(); }
MON_SUITE(access, 200, 10000) {
    int i = static_cast<int>(rng.range(-99, 99)); std::string s = some<std::string>(rng); int x = i, y = i + 1; std::string z = s; int const k = i + 7;
    { std::pair<int, std::string> p(i, s); positions(p, "pair"); check_same(Helper::get_first(p) == i && Helper::get_second(p) == s, "get-value", "pair"); Helper::get_second(p) = "new"; Helper::get_first(p) = 3; check_same(p.first == 3 && p.second == "new", "get-assignment", "pair"); } { std::pair<int&, std::string&> p(x, z); positions(p, "pair of references"); check_same(&Helper::get_first(p) == &x && &Helper::get_second(p) == &z, "get-part", "pair of references"); Helper::get_first(std::as_const(p)) = i + 3; check_same(x == i + 3, "get-assignment", "constant pair of references"); } { std::pair<int const, std::string> p(i, s); positions(p, "pair of a constant"); }
    { std::tuple<int, std::string, double, char, long> t(i, s, i / 4.0, 'c', i * 5l); positions(t, "tuple of five"); check_same(Helper::get_first(t) == i && Helper::get_second(t) == s && Helper::get_third(t) == i / 4.0 && Helper::get_fourth(t) == 'c' && Helper::get_fifth(t) == i * 5l, "get-value", "tuple of five"); Helper::get_third(t) = 1; Helper::get_fourth(t) = 'd'; Helper::get_fifth(t) = 8; check_same(t == std::make_tuple(i, s, 1.0, 'd', 8l), "get-assignment", "tuple of five"); } { std::tuple<int&, int const&, int&&, std::string, std::unique_ptr<int>> t(x, k, std::move(y), s, std::make_unique<int>(i)); positions(t, "tuple of references"); auto p = Helper::get_fifth(std::move(t)); check_same(p && *p == i && !std::get<4>(t), "get-move", "a part which is moved away"); std::string w = Helper::get_fourth(std::move(t)); check_same(w == s, "get-move", "a string which is moved away"); }
    { std::tuple<int, int, int, int, int, int, int> t(0, 1, 2, 3, 4, 5, 6); positions(t, "tuple of seven"); check_same(Helper::get_first(t) + 10 * Helper::get_second(t) + 100 * Helper::get_third(t) + 1000 * Helper::get_fourth(t) + 10000 * Helper::get_fifth(t) == 43210, "get-value", "tuple of seven"); } { std::array<int, 5> a{i, i + 1, i + 2, i + 3, i + 4}; positions(a, "array"); check_same(Helper::get_fifth(a) == i + 4 && Helper::get_third(a) == i + 2, "get-value", "array"); } { std::tuple<Probe, Probe> t(1, 2); auto before = mon::ps().constructed; positions(t, "tuple of probes"); check_same(Helper::get_second(t).v == 2 && Helper::get_first(std::move(t)).v == 1 && mon::ps().constructed == before, "get-copies", "access copies a part"); } { std::tuple<std::tuple<int, std::string>, std::pair<int, int>> t({i, s}, {i, i + 1}); positions(t, "nested"); check_same(Helper::get_second(Helper::get_first(t)) == s && Helper::get_second(Helper::get_second(t)) == i + 1, "get-value", "nested"); }
    { static constexpr int a = 4; static constexpr long b = 6; constexpr auto p = make_lpair(a, b); constexpr auto t = make_ltuple(b, a); static_assert(p.first == 4 && std::get<0>(t) == 6); auto mp = Helper::make_pair(i, s); auto mt = Helper::make_tuple(i, s, 'c'); check_same(same<decltype(mp), Helper::Pair<int, std::string>> && same<decltype(mt), Helper::Tuple<int, std::string, char>> && mp.second == s && std::get<1>(mt) == s, "make", "make_pair or make_tuple"); }
}
// ------------------------------------------------------------------ strings
static std::string characters(Rng& r) { std::string s; size_t n = r.chance(1, 8) ? r.below(400) : r.below(24); for (size_t i = 0; i < n; ++i) s += r.chance(1, 6) ? '\0' : static_cast<char>(r.below(256)); if (r.chance(1, 5)) s += std::string(r.below(4), '\0'); return s; }
static void equals(String const& s, std::string const& m, char const* how) {
    mon::event("strings compared"); MON_CHECK(s.size() == m.size() && std::equal(m.begin(), m.end(), s.begin()) && static_cast<std::string const&>(s) == m, std::string("characters/") + how, "a string " << how << " has " << s.size() << " characters, not the same " << m.size());
    char const* c = Helper::c_str(s); MON_CHECK(c == s.data() && std::memcmp(c, m.data(), m.size()) == 0 && c[m.size()] == 0, "c-string", "the C string of a string " << how << " differs"); MON_CHECK(std::strlen(c) == std::strlen(m.c_str()), "c-string", "the C string has another length");
}
MON_SUITE(strings, 400, 20000) {
    std::string m = characters(rng), n = characters(rng); mon::log("%zu,%zu,%llx", m.size(), n.size(), static_cast<unsigned long long>(mon::hash_bytes(m.data(), m.size()))); mon::nontrivial();
    equals(String(), "", "made from nothing"); equals(String(m), m, "made from a standard string"); equals(String(m.c_str()), m.c_str(), "made from a C string"); equals(String(m.data(), m.size()), m, "made from characters and their number"); equals(String(m.begin(), m.end()), m, "made from iterators"); size_t k = rng.below(50); char ch = static_cast<char>(rng.below(256)); equals(String(k, ch), std::string(k, ch), "made from a number and a character"); equals(String({'a', '\0', 'b'}), std::string("a\0b", 3), "made from a list"); equals(String(std::string_view(m)), m, "made from a view"); equals(String(std::string(m)), m, "made from a temporary"); size_t pos = m.empty() ? 0 : rng.below(m.size() + 1), len = rng.below(30); equals(String(m, pos), m.substr(pos), "made from the end of one"); equals(String(m, pos, len), m.substr(pos, len), "made from a part");
    String s = m; equals(s, m, "converted"); String t(s); equals(t, m, "copied"); String u(std::move(t)); equals(u, m, "moved"); t = n; equals(t, n, "assigned"); u = t; equals(u, n, "assigned from another"); u = s; equals(u, m, "assigned again"); u = u; equals(u, m, "assigned to itself"); t = n.c_str(); equals(t, n.c_str(), "assigned from a C string"); u = std::move(t); equals(u, n.c_str(), "move-assigned"); std::string back = s; MON_CHECK(back == m, "back", "a standard string made from a string differs"); std::string const& ref = s; MON_CHECK(static_cast<void const*>(ref.data()) == s.data(), "back", "a string's base has other characters"); equals(s, m, "used");
    // a history of changes
    std::string model = m; String live = m; for (long i = rng.range(0, 12); i-- > 0;) { size_t p = model.empty() ? 0 : rng.below(model.size() + 1), l = rng.below(9); switch (rng.below(9)) { case 0: live += n; model += n; break; case 1: live.push_back(ch); model.push_back(ch); break; case 2: live.erase(p, l); model.erase(p, l); break; case 3: live.insert(p, n, 0, l); model.insert(p, n, 0, l); break; case 4: live.resize(p); model.resize(p); break; case 5: live = String(live + n); model = model + n; break; case 6: live = live.substr(p, l); model = model.substr(p, l); break; case 7: live += live; model += model; break; default: std::swap(live, u); std::string x = u; u = live; live = x; std::swap(live, u); { std::string y = live; live = u; u = y; } model = std::string(live); break; } if (model.size() > 4000) { live.clear(); model.clear(); } equals(live, model, "changed"); }
    String a = m, b = n; MON_CHECK((a == b) == (m == n) && (a < b) == (m < n) && (a != b) == (m != n) && (a <= b) == (m <= n) && a == m && (b == m) == (n == m), "order", "strings are compared in another way than standard strings"); std::map<String, int> keys; keys[a] = 1; keys[b] = 2; MON_CHECK(keys.size() == (m == n ? 1u : 2u) && keys.at(n) == 2, "order", "strings as labels of a map"); std::set<String> set{a, b, a}; MON_CHECK(set.count(m) == 1, "order", "strings in a set");
    { std::ostringstream os; os << a; MON_CHECK(os.str() == m, "written", "a string is written as other characters"); std::istringstream is("  one two"); String w; is >> w; MON_CHECK(w == "one" && is.good(), "read", "a string is read as '" << w << "'"); std::istringstream lines("l 1\nl2"); std::getline(lines, w); MON_CHECK(w == "l 1", "read", "a line is read as '" << w << "'"); }
    Helper::Array<String> arr(3, a); Helper::List<String> list; list.append(b); list.append(a); equals(arr[2], m, "in an array"); equals(list[0], n, "in a list");
    MON_CHECK(Helper::class_name<String>() == "String", "class-name", "the class name of String is " << Helper::class_name<String>());
}
// ------------------------------------------------------------------ conversion to strings
struct Mark { int v; friend std::ostream& operator<<(std::ostream& os, Mark const& m) { return os << std::hex << '<' << m.v << '\0' << std::setw(6) << std::left << m.v << std::setprecision(3) << 3.14159 << '>'; } };
struct Fails { friend std::ostream& operator<<(std::ostream& os, Fails const&) { os << "before"; os.setstate(std::ios::failbit); return os << "after"; } };
struct Address { friend std::ostream& operator<<(std::ostream& os, Address const& a) { return os << static_cast<void const*>(&a); } };
// values which convert to other types than they are written as
struct Named { int v; operator std::string() const { return "converted"; } friend std::ostream& operator<<(std::ostream& os, Named const& n) { return os << "written " << n.v; } };
struct Quoted : std::string { using std::string::string; friend std::ostream& operator<<(std::ostream& os, Quoted const& q) { return os << std::quoted(static_cast<std::string const&>(q)); } };
struct Numeric { double v; operator double() const { return v; } operator const char*() const { return "text"; } friend std::ostream& operator<<(std::ostream& os, Numeric const& n) { return os << "number " << n.v; } };
enum class Colour { red, green }; std::ostream& operator<<(std::ostream& os, Colour c) { return os << (c == Colour::red ? "red" : "green"); }
struct Moody { mutable int calls = 0; friend std::ostream& operator<<(std::ostream& os, Moody const& m) { return os << ++m.calls; } };
template<class T> void converted(T const& t) { mon::event("values converted"); std::ostringstream os; os << t; std::string want = os.str(); decltype(auto) s = Helper::to_string(t); decltype(auto) u = Helper::to_str(t); check_same(same<decltype(s), String> && same<decltype(u), String>, "to_string-type", "the result of to_string is no String"); mon::log("%s", want.c_str()); MON_CHECK(s == want, "to_string", "to_string of " << typeid(T).name() << " gives '" << s << "' instead of '" << want << "'"); MON_CHECK(u == want, "to_str", "to_str of " << typeid(T).name() << " gives '" << u << "' instead of '" << want << "'"); }
template<class T> void limits() { using L = std::numeric_limits<T>; converted(L::min()); converted(L::max()); converted(L::lowest()); converted(L::epsilon()); converted(L::infinity()); converted(static_cast<T>(-L::infinity())); converted(L::quiet_NaN()); converted(L::denorm_min()); converted(T(0)); converted(static_cast<T>(-T(0))); }
MON_SUITE(conversions, 300, 15000) {
    mon::nontrivial(); limits<int>(); limits<unsigned>(); limits<long>(); limits<unsigned long long>(); limits<short>(); limits<double>(); limits<float>(); limits<long double>(); limits<char>(); limits<bool>();
    converted(rng.range(-1000000, 1000000)); converted(static_cast<int>(rng.next())); converted(rng.next()); double d; uint64_t bits = rng.next(); std::memcpy(&d, &bits, 8); converted(d); converted(static_cast<double>(rng.range(-99999, 99999)) / 1e3); converted(static_cast<float>(d)); converted(static_cast<char>(rng.below(256))); converted(rng.chance(1, 2)); std::string m = characters(rng); converted(m); converted(String(m)); converted(m.c_str()); char buf[8] = "ab\tc d"; converted(buf); converted("literal"); converted(static_cast<void const*>(&m)); converted(Mark{static_cast<int>(rng.below(9999))}); converted(Fails()); converted(Named{static_cast<int>(rng.below(99))}); converted(Quoted("a \"b\" c")); converted(Numeric{2.5}); converted(rng.chance(1, 2) ? Colour::red : Colour::green); converted(Address()); converted(std::setw(5)); converted(Helper::List<std::string>(rng.below(3), m)); converted(Helper::Map<int, std::string>{{1, m}, {static_cast<int>(rng.below(50)), "x"}}); converted(Helper::Array<double>(rng.below(4), 0.125)); Helper::BinaryWord w; for (size_t i = rng.below(9); i-- > 0;) w.push_back(rng.chance(1, 2)); converted(w); converted(m.empty() ? 'x' : m[0]);
    { Moody x; String s = Helper::to_string(x); MON_CHECK(s == "1" && x.calls == 1, "to_string-once", "to_string writes the value " << x.calls << " times"); s = Helper::to_str(x); MON_CHECK(s == "2" && x.calls == 2, "to_string-once", "to_str writes the value " << x.calls - 1 << " times"); String t = Helper::to_string(Helper::to_string(x)); MON_CHECK(t == "3", "to_string-once", "to_string of a string"); }
    { Probe p(5); auto before = mon::ps().constructed; String s = Helper::to_string(p); MON_CHECK(s == "5" && mon::ps().constructed == before, "to_string-copies", "to_string copies the value"); }
    // no format carries over from one conversion to the next
    String one = Helper::to_string(Mark{17}), two = Helper::to_string(17); MON_CHECK(two == "17" && Helper::to_string(0.1234567) == "0.123457", "to_string-independent", "a conversion depends on an earlier one"); (void)one;
}
// values which leave the stream in another state than they found it in, which no later conversion may see, also of the same type
struct Leaves { int v, what; friend std::ostream& operator<<(std::ostream& os, Leaves const& x) {
    os << x.v << ' ' << x.v / 7.0 << ' ' << (x.v % 2 == 0) << ' ' << os.iword(slot()) << ' ' << os.width() << std::setw(6) << x.v << ' '; os.iword(slot()) += 1;
    switch (x.what) { case 0: return os << std::hex << std::showbase; case 1: return os << std::setprecision(2) << std::fixed; case 2: return os << std::boolalpha << std::setfill('*'); case 3: return os << std::setw(20); case 4: os.imbue(std::locale(os.getloc(), new Point)); return os; case 5: os.setstate(std::ios::failbit); return os; case 6: os.exceptions(std::ios::badbit); return os; case 7: os << std::unitbuf << std::showpos << std::left; return os; case 8: os.seekp(0); return os << 'S'; case 9: throw x.v; default: return os; } }
    struct Point : std::numpunct<char> { char do_decimal_point() const override { return ';'; } char do_thousands_sep() const override { return '_'; } std::string do_grouping() const override { return "\1"; } };
    static int slot() { static int n = std::ios_base::xalloc(); return n; } };
MON_SUITE(stateful_values, 150, 6000) {
    for (int i = 0; i < 12; ++i) { Leaves x{static_cast<int>(rng.below(100000)), static_cast<int>(rng.below(11))}; mon::log("%d %d", x.v, x.what); if (x.what == 9) { int got = -1; try { (void)Helper::to_string(x); } catch (int y) { got = y; } MON_CHECK(got == x.v, "to_string-failure", "what a value throws while it is written does not reach the caller"); } else converted(x); mon::event("values which change the stream"); }
    { std::string big = characters(rng); size_t n = rng.chance(1, 6) ? (size_t(1) << rng.range(12, 18)) + rng.below(9) - 4 : rng.below(3000); while (!big.empty() && big.size() < n) big += big + static_cast<char>(rng.below(256)); std::ostringstream os; os << big; String s = Helper::to_string(big), t = Helper::to_str(String(big)); MON_CHECK(s == os.str() && t == s && s.size() == big.size(), "to_string", "a text of " << big.size() << " characters is converted to one of " << s.size() << " and of " << t.size()); String u(big); MON_CHECK(u == big && u.size() == big.size() && std::memcmp(Helper::c_str(u), big.data(), big.size()) == 0, "string", "a string of " << big.size() << " characters"); }
    mon::nontrivial();
}
int main(int c, char** v) { mon::install_probe_monitor(); mon::require("references compared", 20000); mon::require("strings compared", 3000); mon::require("values converted", 10000); return mon::main(c, v); }
