// C22: type computations.  The program is different for every PROGRAM: its lists of types, pairs and callables are drawn
// at compile time.  The library's answers are values in the compiled program; they are compared at run time with answers
// computed from the numbers the types were drawn by (lists), or with the language's own (expressions, conversions).
#include <cstdlib>
#include <iostream>
#include <array>
#include <cstddef>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include "metaprogramming.hpp"
#include "mon.hpp"
#ifndef PROGRAM
#define PROGRAM 1u
#endif
#ifndef PART
#define PART 0
#endif

constexpr uint64_t draw(uint64_t a, uint64_t b) { uint64_t z = uint64_t(PROGRAM) * 0x9E3779B97F4A7C15ull + a * 0xD1B54A32D192ED03ull + b * 0x8CB92BA72F3D8DD7ull; for (int i = 0; i < 3; ++i) { z ^= z >> 30; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 27; z *= 0x94D049BB133111EBull; z ^= z >> 31; } return z; }

template<int> struct Tag {};
template<class> struct Box {};
struct Abstract { virtual void f() = 0; };
enum Enum { e0 };
enum class Scoped { s0 };
union Union { int i; };
struct Plain { int v; void f(); };
auto lambda = [](int i) { return i; };

// ------------------------------------------------------------------ lists of types
#if PART == 0
using All = std::tuple<int, int const, int&, int const&, int&&, int const&&, int volatile, int const volatile, int*, int const*, int* const, int**, long, unsigned, char, signed char, unsigned char, bool, double, float, void*, std::nullptr_t, Enum, Scoped, Union, Plain, Plain const, Plain&, Plain&&, Abstract*, Abstract&, int[3], int[4], int const[3], int(&)[3], int[], int(int), int(*)(int), int(&)(int), int(int) const, int (Plain::*), void (Plain::*)(), Tag<0>, Tag<1>, Tag<2>, Tag<-1>, Box<int>, Box<int const>, Box<int&>, Box<Box<int>>, Box<void>, decltype(lambda), std::string, std::vector<int>, std::tuple<>, std::tuple<int>, std::tuple<int, long>, Helper::True, Helper::False, Helper::Fallback, void, void const, Abstract, int(long), int() noexcept, int()>;
constexpr size_t N_ALL = std::tuple_size_v<All>;
template<size_t I> using Nth = std::tuple_element_t<I, All>;
// a list: its length, and a number for each place, from a small number of types so that types are repeated
constexpr size_t LISTS = 160, LONGEST = 14;
constexpr size_t length(size_t l) { return l < 12 ? l % 4 : draw(l, 1000) % (LONGEST + 1); }
constexpr size_t variety(size_t l) { size_t v[] = {1, 2, 3, 4, 8, N_ALL}; return v[draw(l, 1001) % 6]; }
constexpr size_t number(size_t l, size_t i) { size_t k = draw(l, 2000 + i) % variety(l); return draw(l, 3000 + k) % N_ALL; }
// places of a list which should all be equal except perhaps one
constexpr bool nearly(size_t l) { return l % 4 == 3; }
constexpr size_t at(size_t l, size_t i) { if (nearly(l)) return draw(l, 1002) % (length(l) + 2) == i ? number(l, i) : number(l, 0); return number(l, i); }
constexpr size_t asked(size_t l, size_t q) { size_t n = length(l); return n > 0 && draw(l, 4000 + q) % 4 != 0 ? at(l, draw(l, 5000 + q) % n) : draw(l, 6000 + q) % N_ALL; }
constexpr size_t QUERIES = 6;

struct Answers { size_t l; bool same, concept_same; long first, second; struct { bool one, concept_one; long index; } q[QUERIES]; };
template<class T, size_t I = 0> constexpr long id() { if constexpr (I == N_ALL) return -1; else if constexpr (__is_same(T, Nth<I>)) return I; else return id<T, I + 1>(); }
constexpr bool contains(size_t l, size_t k) { for (size_t i = 0; i < length(l); ++i) if (at(l, i) == k) return true; return false; }
template<class T, class... US> struct Lib { static constexpr long index() { return Helper::IndexOf<T, US...>::N; } };
template<size_t L, size_t Q, class... TS> void query(Answers& a) {
    using T = Nth<asked(L, Q)>;
    a.q[Q].one = Helper::IsOneOf<T, TS...>::value; a.q[Q].concept_one = Helper::OneOf<T, TS...>; a.q[Q].index = -1; if constexpr (contains(L, asked(L, Q))) a.q[Q].index = static_cast<long>(Helper::IndexOf<T, TS...>::N);
}
template<size_t L, class... TS> Answers answers_of() {
    Answers a{}; a.l = L; a.same = Helper::AreAllSame<TS...>::value; a.concept_same = Helper::AllSame<TS...>; a.first = a.second = -2;
    if constexpr (sizeof...(TS) >= 1) { a.first = id<Helper::FirstType<TS...>>(); if (a.first != id<typename Helper::First<TS...>::Type>()) a.first = -3; }
    if constexpr (sizeof...(TS) >= 2) { a.second = id<Helper::SecondType<TS...>>(); if (a.second != id<typename Helper::Second<TS...>::Type>()) a.second = -3; }
    [&]<size_t... Q>(std::index_sequence<Q...>) { (query<L, Q, TS...>(a), ...); }(std::make_index_sequence<QUERIES>());
    return a;
}
template<size_t L> Answers list() { return []<size_t... I>(std::index_sequence<I...>) { return answers_of<L, Nth<at(L, I)>...>(); }(std::make_index_sequence<length(L)>()); }
std::vector<Answers> const& all_lists() { static std::vector<Answers> v = []<size_t... L>(std::index_sequence<L...>) { return std::vector<Answers>{list<L>()...}; }(std::make_index_sequence<LISTS>()); return v; }

MON_SUITE(lists, LISTS, LISTS) {
    size_t l = mon::st().case_no % LISTS; Answers const& a = all_lists()[l]; size_t n = length(l); std::string text; std::vector<size_t> v; for (size_t i = 0; i < n; ++i) { v.push_back(at(l, i)); text += std::to_string(v.back()) + " "; } mon::log("types %s", text.c_str()); mon::event("lists of types"); mon::nontrivial();
    bool same = true; for (size_t x : v) same = same && x == v[0]; mon::event(same ? "lists of equal types" : "lists of different types");
    MON_CHECK(a.same == same, "all-same", "AreAllSame of " << text << "is " << a.same); MON_CHECK(a.concept_same == same, "all-same", "AllSame of " << text << "is " << a.concept_same);
    MON_CHECK(a.first == (n >= 1 ? long(v[0]) : -2), "first", "FirstType of " << text << "is " << a.first); MON_CHECK(a.second == (n >= 2 ? long(v[1]) : -2), "second", "SecondType of " << text << "is " << a.second);
    for (size_t q = 0; q < QUERIES; ++q) { size_t k = asked(l, q); long want = -1; for (size_t i = n; i-- > 0;) if (v[i] == k) want = long(i); mon::event(want < 0 ? "types not in the list" : "types in the list"); MON_CHECK(a.q[q].one == (want >= 0), "one-of", "IsOneOf of " << k << " in " << text << "is " << a.q[q].one); MON_CHECK(a.q[q].concept_one == (want >= 0), "one-of", "OneOf of " << k << " in " << text << "is " << a.q[q].concept_one); MON_CHECK(a.q[q].index == want, "index", "IndexOf of " << k << " in " << text << "is " << a.q[q].index << " instead of " << want); }
}
// every pair of types, as a list and as lists of more
struct Two { size_t a, b; bool same2, same3, same4, one1, one2, one2b, one3, one4; long index_ab, index_ba, index_aab, first, second; };
template<size_t A, size_t B> Two two() {
    using T = Nth<A>; using U = Nth<B>; using namespace Helper; Two t{A, B, AllSame<T, U>, AreAllSame<T, U, T>::value, AllSame<T, T, T, U>, OneOf<T, U>, IsOneOf<T, T, U>::value, OneOf<T, U, T>, IsOneOf<T, U, U, U>::value, OneOf<T, U, U, U, T, U>, static_cast<long>(IndexOf<T, T, U>::N), static_cast<long>(IndexOf<T, U, T>::N), static_cast<long>(IndexOf<T, U, U, U, T, T>::N), id<FirstType<T, U>>(), id<SecondType<T, U, T>>()}; return t;
}
std::vector<Two> const& twos() { static std::vector<Two> v = []<size_t... P>(std::index_sequence<P...>) { return std::vector<Two>{two<P / N_ALL, P % N_ALL>()...}; }(std::make_index_sequence<N_ALL * N_ALL>()); return v; }
MON_SUITE(pairs_of_types, 100, 100) {
    size_t all = N_ALL * N_ALL, part = mon::st().case_no % 100; mon::log("part %zu", part); mon::nontrivial(); for (size_t p = part * all / 100; p < (part + 1) * all / 100; ++p) { Two const& t = twos()[p]; bool eq = t.a == t.b; auto is = [&](bool ok, char const* key, char const* what) { MON_CHECK(ok, key, what << " of lists of the types " << t.a << " and " << t.b << " is wrong"); };
        is(t.same2 == eq && t.same3 == eq && t.same4 == eq, "all-same", "AllSame"); is(t.one1 == eq && t.one2 && t.one2b && t.one3 == eq && t.one4, "one-of", "OneOf"); is(t.index_ab == 0 && t.index_ba == (eq ? 0 : 1) && t.index_aab == (eq ? 0 : 3), "index", "IndexOf"); is(t.first == long(t.a), "first", "FirstType"); is(t.second == long(t.b), "second", "SecondType"); mon::event("pairs of types"); }
}
// lists longer than anything a small counter holds
constexpr size_t LONG = 400;
template<size_t... I> bool long_lists(std::index_sequence<I...>, std::string& wrong) {
    using namespace Helper;
    size_t places[] = {0, 1, 127, 128, 254, 255, 256, 257, 300, LONG - 1}; long got[] = {static_cast<long>(IndexOf<Tag<1000>, Tag<1000 + int(I)>...>::N), static_cast<long>(IndexOf<Tag<1001>, Tag<1000 + int(I)>...>::N), static_cast<long>(IndexOf<Tag<1127>, Tag<1000 + int(I)>...>::N), static_cast<long>(IndexOf<Tag<1128>, Tag<1000 + int(I)>...>::N), static_cast<long>(IndexOf<Tag<1254>, Tag<1000 + int(I)>...>::N), static_cast<long>(IndexOf<Tag<1255>, Tag<1000 + int(I)>...>::N), static_cast<long>(IndexOf<Tag<1256>, Tag<1000 + int(I)>...>::N), static_cast<long>(IndexOf<Tag<1257>, Tag<1000 + int(I)>...>::N), static_cast<long>(IndexOf<Tag<1300>, Tag<1000 + int(I)>...>::N), static_cast<long>(IndexOf<Tag<1000 + int(LONG) - 1>, Tag<1000 + int(I)>...>::N)};
    for (size_t k = 0; k < 10; ++k) if (got[k] != long(places[k])) wrong += "the index of the type at " + std::to_string(places[k]) + " is " + std::to_string(got[k]) + "; ";
    if (!IsOneOf<Tag<1000 + int(LONG) - 1>, Tag<1000 + int(I)>...>::value || IsOneOf<Tag<-7>, Tag<1000 + int(I)>...>::value || !OneOf<Tag<1256>, Tag<1000 + int(I)>...>) wrong += "whether a type is in the list; "; if (AreAllSame<Tag<1000 + int(I)>...>::value || !AreAllSame<Tag<int(I / LONG)>...>::value || AreAllSame<Tag<int(I / (LONG - 1))>...>::value) wrong += "whether all types are the same; ";
    if (!__is_same(FirstType<Tag<1000 + int(I)>...>, Tag<1000>) || !__is_same(SecondType<Tag<1000 + int(I)>...>, Tag<1001>)) wrong += "the first types; "; return wrong.empty();
}
MON_SUITE(long_list, 1, 1) { mon::nontrivial(); std::string wrong; long_lists(std::make_index_sequence<LONG>(), wrong); MON_CHECK(wrong.empty(), "long-list", "of a list of " << LONG << " types these are wrong: " << wrong); mon::event("long lists"); }
int main(int c, char** v) { mon::require("pairs of types", 1000); mon::require("long lists", 1); mon::require("types in the list", 50); mon::require("types not in the list", 50); mon::require("lists of equal types", 10); mon::require("lists of different types", 50); return mon::main(c, v); }
#endif

// ------------------------------------------------------------------ answers to compare
struct Row { char const* what; bool got, want; };
template<class... A> constexpr bool same_types = false;
template<class A> constexpr bool same_types<A, A> = true;

// ------------------------------------------------------------------ relations of two types
#if PART == 1 || PART == 2
struct From { From(int); explicit From(char const*); };
struct To { operator int() const; explicit operator double() const; operator From&(); };
struct ToRef { operator int&(); operator Plain() &&; };
struct NoCopy { NoCopy() = default; NoCopy(NoCopy const&) = delete; NoCopy(NoCopy&&) = default; NoCopy& operator=(NoCopy const&) = delete; NoCopy& operator=(int); };
struct NoMove { NoMove(int, long); NoMove(NoMove const&) = delete; NoMove& operator=(NoMove const&) = default; };
struct CopyOnly { CopyOnly(CopyOnly const&); CopyOnly(CopyOnly&&) = delete; explicit CopyOnly(Plain); };
struct NonConstCopy { NonConstCopy(NonConstCopy&); NonConstCopy& operator=(NonConstCopy&); };
struct Base { Base(); virtual ~Base(); }; struct Derived : Base {}; struct Further : Derived { explicit Further(Base const&); Further& operator=(Base const&); }; struct Hidden : private Base {}; struct Protected : protected Base {}; struct Virtual : virtual Base {}; struct Two : Derived, Virtual {}; class Closed { Closed(); ~Closed(); public: Closed(int); };
struct ExplicitCopy { ExplicitCopy(); explicit ExplicitCopy(ExplicitCopy const&); }; struct DefaultExplicit { explicit DefaultExplicit(int = 0); }; struct NoDefault { NoDefault(int); NoDefault& operator=(int) &; NoDefault& operator=(double) &&; NoDefault const& operator=(char const*) const; };
struct AnyFrom { template<class T> AnyFrom(T const&); }; struct AnyTo { template<class T> operator T() const; }; struct AnyExplicit { template<class T> explicit operator T() const; };
using All = std::tuple<int, int const, int&, int const&, int&&, int volatile, int const volatile, long, unsigned char, bool, double, float, char const*, int*, int const*, void*, void const*, std::nullptr_t, Enum, Scoped, void, void const, int[3], int(&)[3], int(int), int(*)(int), Plain, Plain const, Plain&, Plain const&, Plain&&, From, From&, From const&, To, To&, To const, ToRef, ToRef&, NoCopy, NoCopy&, NoMove, NoMove const&, CopyOnly, CopyOnly&, NonConstCopy, NonConstCopy&, NonConstCopy const, Base, Base&, Base const&, Base*, Base const*, Derived, Derived&, Derived const, Derived*, Further, Further*, Hidden, Hidden*, Protected, Virtual, Virtual*, Two, Two*, Closed, ExplicitCopy, ExplicitCopy&, DefaultExplicit, NoDefault, NoDefault&, NoDefault const, AnyFrom, AnyTo, AnyExplicit, Abstract, Abstract&, Abstract*, std::string, std::string&, std::string const&, std::unique_ptr<int>, std::unique_ptr<int>&, std::shared_ptr<Base>, std::shared_ptr<Derived>, Helper::Fallback, Helper::DontCare, Union, decltype(lambda)>;
constexpr size_t N_ALL = std::tuple_size_v<All>;
template<size_t I> using Nth = std::tuple_element_t<I, All>;
constexpr size_t PAIRS = N_ALL * N_ALL; // all of them
constexpr size_t left(size_t p) { return p / N_ALL; }
constexpr size_t right(size_t p) { return p % N_ALL; }
#endif
#if PART == 1
template<class A, class B, bool = std::is_class_v<A> && std::is_class_v<B>> constexpr bool derived_from = false;
template<class A, class B> constexpr bool derived_from<A, B, true> = std::is_base_of_v<B, A> && std::is_convertible_v<A const volatile*, B const volatile*>;
template<class A, class B> constexpr std::array<Row, 28> relations(bool equal) {
    using namespace Helper;
    constexpr bool conv = std::is_convertible_v<A, B>, cons = std::is_constructible_v<B, A>, cons2 = std::is_constructible_v<A, B>, assign = std::is_assignable_v<A, B>, assign2 = std::is_assignable_v<B, A>;
    return {{{"SameAs", SameAs<A, B>, equal}, {"Same", Same<A, B>, equal}, {"Convertible", Convertible<A, B>, conv}, {"ConvertibleTo", ConvertibleTo<A, B>, conv}, {"Constructible", Constructible<A, B>, cons2}, {"ConstructibleFrom", ConstructibleFrom<A, B>, cons2}, {"Constructible from nothing", Constructible<A>, std::is_constructible_v<A>},
        {"Constructible from two", Constructible<A, B, B>, std::is_constructible_v<A, B, B>}, {"ConstructibleFrom two", ConstructibleFrom<A, int, B>, std::is_constructible_v<A, int, B>}, {"DefaultInitializable", DefaultInitializable<A>, std::is_constructible_v<A>}, {"DefaultConstructible", DefaultConstructible<A>, std::is_constructible_v<A>}, {"CopyConstructible", CopyConstructible<A>, std::is_copy_constructible_v<A>},
        {"ExplicitlyConvertible", ExplicitlyConvertible<A, B>, cons && !conv}, {"ExplicitlyConvertibleTo", ExplicitlyConvertibleTo<A, B>, cons && !conv}, {"Assignable", Assignable<A, B>, assign}, {"AssignableFrom", AssignableFrom<A, B>, assign}, {"AssignableTo", AssignableTo<A, B>, assign2}, {"DerivedFrom", DerivedFrom<A, B>, derived_from<A, B>}, {"BaseOf", BaseOf<A, B>, derived_from<B, A>}, {"SameAsOrConvertibleTo", SameAsOrConvertibleTo<A, B>, equal || conv},
        {"BuiltinArithmetic", BuiltinArithmetic<A>, std::is_arithmetic_v<A>}, {"BuiltinIntegral", BuiltinIntegral<A>, std::is_integral_v<A>}, {"BuiltinFloatingPoint", BuiltinFloatingPoint<A>, std::is_floating_point_v<A>}, {"BuiltinUnsignedIntegral", BuiltinUnsignedIntegral<A>, std::is_integral_v<A> && std::is_unsigned_v<A>}, {"BuiltinSignedIntegral", BuiltinSignedIntegral<A>, std::is_integral_v<A> && std::is_signed_v<A>},
        {"RemoveConst", same_types<RemoveConst<A>, std::remove_const_t<A>>, true}, {"RemoveReference", same_types<RemoveReference<A>, std::remove_reference_t<A>>, true}, {"SelfType and ReturnType", same_types<SelfType<A>, A> && same_types<typename Self<A>::Type, A> && same_types<ReturnType<Return<A>>, A> && same_types<typename Return<A>::ReturnType, A>, true}}};
}
struct Pair { size_t a, b; std::array<Row, 28> rows; };
std::vector<Pair> const& pairs() { static std::vector<Pair> v = []<size_t... P>(std::index_sequence<P...>) { return std::vector<Pair>{Pair{left(P), right(P), relations<Nth<left(P)>, Nth<right(P)>>(left(P) == right(P))}...}; }(std::make_index_sequence<PAIRS>()); return v; }
MON_SUITE(relations_of_types, PAIRS, PAIRS) {
    Pair const& p = pairs()[mon::st().case_no % PAIRS]; mon::log("types %zu and %zu", p.a, p.b); mon::nontrivial();
    for (auto& r : p.rows) { mon::event(r.want ? "relations which hold" : "relations which do not hold"); MON_CHECK(r.got == r.want, std::string("relation/") + r.what, r.what << " of the types " << p.a << " and " << p.b << " is " << r.got); }
}
int main(int c, char** v) { mon::require("relations which hold", 1000); mon::require("relations which do not hold", 1000); return mon::main(c, v); }
#endif

// ------------------------------------------------------------------ callables
#if PART == 2
struct Functor { int operator()(int); double operator()(int) const; char operator()(char const*) &&; void operator()(int, int); int& operator()(int*) noexcept; std::unique_ptr<int> operator()() const; };
struct Generic { template<class... T> std::tuple<T...> operator()(T...) const; };
struct Picky { int operator()(Plain&) const; long operator()(Plain&&) const; };
struct OnlyRvalue { From operator()(double) &&; }; struct OnlyLvalue { Derived operator()(double) &; }; struct Hidden2 { private: int operator()(int); }; struct Gone { int operator()(int) = delete; int operator()(char); };
struct FunctionConvertible { using F = long(int); operator F*() const; }; struct VarArgs { int operator()(int, ...); }; struct DefaultArg { int operator()(int, int = 0); };
using Callables = std::tuple<int(int), int(*)(int), int(&)(int), void(*)(), Plain(*)(Plain&), Base&(*)(Base&), Derived*(*)(Derived const&, int), Functor, Functor&, Functor const&, Functor const, Generic, Generic&, Picky, OnlyRvalue, OnlyRvalue&, OnlyLvalue, OnlyLvalue&, Hidden2, Gone, FunctionConvertible, VarArgs, DefaultArg, decltype(lambda), decltype(lambda)&, int, Plain, int Plain::*, void (Plain::*)(), std::nullptr_t, From(*)(From), std::string(*)(std::string const&), void>;
constexpr size_t N_CALL = std::tuple_size_v<Callables>;
template<class F, class... A> constexpr bool valid = requires { std::declval<F>()(std::declval<A>()...); };
template<class R, class F, class... A> constexpr bool valid_returning() { if constexpr (std::is_invocable_v<F, A...>) return std::is_convertible_v<std::invoke_result_t<F, A...>, R>; else return false; }
template<class F, class... A> constexpr bool result_is() { if constexpr (std::is_invocable_v<F, A...>) return same_types<Helper::InvokeResult<F, A...>, std::invoke_result_t<F, A...>>; else return true; }
template<class F, class... A> constexpr bool direct_result_is() { if constexpr (valid<F, A...>) return same_types<Helper::InvokeResult<F, A...>, decltype(std::declval<F>()(std::declval<A>()...))>; else return true; }
template<class T> constexpr bool passable = std::is_object_v<T> && !std::is_const_v<T> && !std::is_array_v<T> && !std::is_abstract_v<T> || std::is_reference_v<T>;
template<class F, class... A> constexpr bool result_of_is() { if constexpr (passable<F> && (passable<A> && ...)) { if constexpr (std::is_invocable_v<F, A...>) return same_types<Helper::ResultOf<F(A...)>, std::invoke_result_t<F, A...>> && same_types<typename Helper::ResultOfTrait<F(A...)>::Type, std::invoke_result_t<F, A...>>; } return true; }
template<class F, class A, class B> constexpr std::array<Row, 16> calls() {
    using namespace Helper; using O = std::conditional_t<std::is_object_v<B>, B, double>; // not void, of which it is open what returning it means, nor a reference, which may dangle
    return {{{"Invocable with one", Invocable<F, A>, std::is_invocable_v<F, A>}, {"Invocable with none", Invocable<F>, std::is_invocable_v<F>}, {"Invocable with two", Invocable<F, A, B>, std::is_invocable_v<F, A, B>}, {"IsInvocable", IsInvocable<F, A>::value, std::is_invocable_v<F, A>}, {"IsInvocable with none", IsInvocable<F>::value, std::is_invocable_v<F>}, {"IsInvocable with two", IsInvocable<F, A, B>::value, std::is_invocable_v<F, A, B>},
        {"InvocableReturning", InvocableReturning<O, F, A>, valid_returning<O, F, A>()}, {"InvocableReturning with none", InvocableReturning<O, F>, valid_returning<O, F>()}, {"InvocableReturning with two", InvocableReturning<O, F, A, B>, valid_returning<O, F, A, B>()}, {"InvokeResult", result_is<F, A>() && result_is<F>() && result_is<F, A, B>(), true}, {"InvokeResult of the call", direct_result_is<F, A>() && direct_result_is<F>() && direct_result_is<F, A, B>(), true}, {"ResultOf", result_of_is<F, A>() && result_of_is<F>() && result_of_is<F, A, B>(), true},
        {"IsInvocableReturning int", IsInvocableReturning<int, F, A>::value, valid_returning<int, F, A>()}, {"IsInvocableReturning", IsInvocableReturning<O, F, A>::value, valid_returning<O, F, A>()}, {"IsInvocableReturning with none", IsInvocableReturning<O, F>::value, valid_returning<O, F>()}, {"IsInvocableReturning with two", IsInvocableReturning<Base*, F, A, B>::value, valid_returning<Base*, F, A, B>()}}};
}
struct Call { size_t f, a, b; std::array<Row, 16> rows; };
constexpr size_t CALLS = 500;
constexpr size_t callable(size_t p) { return p % N_CALL; }
constexpr size_t likely[] = {0, 2, 4, 8, 10, 24, 26, 28, 46, 47, 51, 52, 76};
constexpr size_t argument(size_t p, size_t k) { return draw(p, k) % 3 ? likely[draw(p, k + 10) % 13] : draw(p, k + 20) % N_ALL; }
std::vector<Call> const& all_calls() { static std::vector<Call> v = []<size_t... P>(std::index_sequence<P...>) { return std::vector<Call>{Call{callable(P), argument(P, 100), argument(P, 200), calls<std::tuple_element_t<callable(P), Callables>, Nth<argument(P, 100)>, Nth<argument(P, 200)>>()}...}; }(std::make_index_sequence<CALLS>()); return v; }
MON_SUITE(callables, CALLS, CALLS) {
    Call const& p = all_calls()[mon::st().case_no % CALLS]; mon::log("callable %zu with types %zu and %zu", p.f, p.a, p.b); mon::nontrivial();
    for (auto& r : p.rows) { mon::event(r.want ? "calls which are possible" : "calls which are not possible"); MON_CHECK(r.got == r.want, std::string("call/") + r.what, r.what << " of callable " << p.f << " with the types " << p.a << " and " << p.b << " is " << r.got); }
}
int main(int c, char** v) { mon::require("calls which are possible", 1000); mon::require("calls which are not possible", 1000); return mon::main(c, v); }
#endif

// ------------------------------------------------------------------ operators
#if PART == 3
template<int N> struct R {}; // a result: numbered by the operator and the category of the operands
struct Q {}; struct S {}; struct Truth { bool b; };
// every operator of P gives a type of its own for each category of operands
struct P {
    friend R<1> operator+(P const&, P const&); friend R<2> operator+(P&, P&); friend R<3> operator+(P&&, P&&); friend R<4> operator-(P const&, P const&); friend R<5>& operator-(P&, P const&); friend R<6> operator*(P const&, P const&); friend R<7> operator/(P const&, P const&); friend R<8> const operator/(P&, P&);
    friend R<9> operator-(P const&); friend R<10> operator-(P&); friend R<11> operator==(P const&, P const&); friend R<12> operator!=(P const&, P const&); friend R<13> operator<(P const&, P const&); friend R<14>& operator<(P&, P&); friend R<15> operator&&(P const&, P const&); friend R<16> operator||(P const&, P const&); friend R<17> operator!(P const&); friend R<18> operator!(P&); friend R<19> operator>(P const&, P const&);
    friend R<20> operator+(P const&, Q const&); friend R<21> operator+(Q const&, P const&); friend R<22> operator-(P const&, Q const&); friend R<23> operator-(Q const&, P const&); friend R<24> operator*(P const&, Q const&); friend R<25> operator*(Q const&, P const&); friend R<26> operator/(P const&, Q const&); friend R<27> operator/(Q const&, P const&); friend R<28> operator==(P const&, Q const&); friend R<29> operator!=(P const&, Q const&); friend R<30> operator<(P const&, Q const&); friend R<31> operator<(Q const&, P const&); friend R<32> operator&&(P const&, Q const&); friend R<33> operator||(P const&, Q const&); friend R<34> operator||(Q const&, P const&);
    P& operator+=(P const&); R<35> operator-=(P const&); R<36> const& operator*=(P const&); R<37>& operator/=(P const&); R<38>& operator+=(Q); R<39> operator-=(Q); R<40>&& operator*=(Q) &; R<41> operator/=(Q) &; R<42> operator/=(Q) &&; P& operator+=(int) const; friend R<43> mag(P const&); friend R<44>& mag(P&);
    friend R<45> operator+(R<6>, R<6>); friend R<46> operator+(R<24>, R<24>);
};
struct OnlyAdd { friend OnlyAdd operator+(OnlyAdd, OnlyAdd); }; struct OnlySubtract { friend OnlySubtract operator-(OnlySubtract, OnlySubtract); friend OnlySubtract operator-(OnlySubtract, int); }; struct OnlyMultiply { friend OnlyMultiply operator*(OnlyMultiply, OnlyMultiply); friend OnlyMultiply operator*(double, OnlyMultiply); }; struct OnlyDivide { friend OnlyDivide operator/(OnlyDivide, OnlyDivide); }; struct OnlyEqual { friend bool operator==(OnlyEqual, OnlyEqual); }; struct LvalueAdd { friend int operator+(LvalueAdd&, LvalueAdd&); friend int operator*(LvalueAdd&, int); };
// operators which exist for one category of operands only, and compound assignments with results which are constant or no references
struct LvalueOnly { friend int operator+(LvalueOnly&, LvalueOnly&); friend int operator-(LvalueOnly&, LvalueOnly&); friend int operator*(LvalueOnly&, LvalueOnly&); friend int operator/(LvalueOnly&, LvalueOnly&); friend bool operator==(LvalueOnly&, LvalueOnly&); friend int operator!=(LvalueOnly&, LvalueOnly&); friend int operator<(LvalueOnly&, LvalueOnly&); friend int operator&&(LvalueOnly&, LvalueOnly&); friend int operator||(LvalueOnly&, LvalueOnly&); friend int operator!(LvalueOnly&); friend int operator-(LvalueOnly&); friend int mag(LvalueOnly&); LvalueOnly volatile& operator+=(LvalueOnly&); LvalueOnly const& operator-=(LvalueOnly&); LvalueOnly const volatile& operator*=(LvalueOnly&); int const& operator/=(LvalueOnly&); };
struct RvalueOnly { friend int operator+(RvalueOnly&&, RvalueOnly&&); friend int operator-(RvalueOnly&&, RvalueOnly&&); friend int operator*(RvalueOnly&&, RvalueOnly&&); friend int operator/(RvalueOnly&&, RvalueOnly&&); friend bool operator==(RvalueOnly&&, RvalueOnly&&); friend int operator!=(RvalueOnly&&, RvalueOnly&&); friend int operator<(RvalueOnly&&, RvalueOnly&&); friend int operator&&(RvalueOnly&&, RvalueOnly&&); friend int operator||(RvalueOnly&&, RvalueOnly&&); friend int operator!(RvalueOnly&&); friend int operator-(RvalueOnly&&); friend int mag(RvalueOnly&&); RvalueOnly const& operator+=(RvalueOnly&&); RvalueOnly volatile& operator-=(RvalueOnly&&); RvalueOnly const& operator*=(RvalueOnly&&); RvalueOnly const operator/=(RvalueOnly&&); RvalueOnly operator+=(int) &&; int operator-=(int) &&; };
struct Odd { friend std::string operator==(Odd, Odd); friend void operator+(Odd, Odd); friend int(&operator-(Odd, Odd))[3]; friend int(&operator*(Odd, Odd))(int); friend int const& operator/(Odd, Odd); friend void operator!=(Odd, Odd); friend int&& operator<(Odd, Odd); friend int const operator&&(Odd, Odd); friend int volatile& operator||(Odd, Odd); friend Odd const operator!(Odd); friend void operator-(Odd); friend void mag(Odd); void operator+=(Odd); int(&operator-=(Odd))[3]; int const* operator*=(Odd); Odd&& operator/=(Odd); };
namespace N { struct M { operator int() const; }; double mag(M); struct Mr { friend float mag(Mr&&); }; }
using All = std::tuple<P, P&, P const&, P&&, P const, Q, Q&, Q const&, int, int&, int const&, long, unsigned, char, bool, double, double&, float, int*, int const*, char const*, std::nullptr_t, Enum, Scoped, OnlyAdd, OnlyAdd&, OnlySubtract, OnlyMultiply, OnlyDivide, OnlyEqual, LvalueAdd, LvalueAdd&, LvalueOnly, LvalueOnly&, LvalueOnly const, RvalueOnly, RvalueOnly&, RvalueOnly&&, Odd, Odd&, N::M, N::M&, N::Mr, std::string, std::string const&, std::string&, unsigned long long, short, R<6>, R<24>, void*, Truth, S>;
constexpr size_t N_ALL = std::tuple_size_v<All>;
template<size_t I> using Nth = std::tuple_element_t<I, All>;
// For each computation: whether it has a result, and whether that is the type of the expression
template<class A> A&& first(); template<class B> B&& second(); template<class A> std::remove_reference_t<A>& place();
#define COMPUTATION2(NAME, EXPR, ADJUST) template<class A, class B> concept Has_##NAME = requires { typename Helper::NAME<A, B>; }; template<class A, class B> concept Valid_##NAME = requires { EXPR; }; \
    template<class A, class B> constexpr Row row_##NAME() { if constexpr (!Valid_##NAME<A, B>) return {#NAME, Has_##NAME<A, B>, false}; else if constexpr (!Has_##NAME<A, B>) return {#NAME, false, true}; else return {#NAME, same_types<Helper::NAME<A, B>, ADJUST<decltype(EXPR)>>, true}; }
#define COMPUTATION1(NAME, EXPR) template<class A> concept Has1_##NAME = requires { typename Helper::NAME<A>; }; template<class A> concept Valid1_##NAME = requires { EXPR; }; \
    template<class A> constexpr Row row1_##NAME() { if constexpr (!Valid1_##NAME<A>) return {#NAME " of one", Has1_##NAME<A>, false}; else if constexpr (!Has1_##NAME<A>) return {#NAME " of one", false, true}; else return {#NAME " of one", same_types<Helper::NAME<A>, decltype(EXPR)>, true}; }
template<class T> using Exactly = T;
COMPUTATION2(SumType, first<A>() + second<B>(), Exactly) COMPUTATION2(DifferenceType, first<A>() - second<B>(), Exactly) COMPUTATION2(ProductType, first<A>() * second<B>(), Exactly) COMPUTATION2(QuotientType, first<A>() / second<B>(), Exactly) COMPUTATION2(EqualsType, first<A>() == second<B>(), Exactly) COMPUTATION2(LessType, first<A>() < second<B>(), Exactly) COMPUTATION2(ComparisonType, first<A>() < second<B>(), Exactly) COMPUTATION2(EqualityType, first<A>() == second<B>(), Exactly) COMPUTATION2(InequalityType, first<A>() != second<B>(), Exactly)
COMPUTATION2(LogicalConjunctionType, first<A>() && second<B>(), Exactly) COMPUTATION2(LogicalDisjunctionType, first<A>() || second<B>(), Exactly) COMPUTATION2(InplaceSumType, place<A>() += second<B>(), std::remove_reference_t) COMPUTATION2(InplaceDifferenceType, place<A>() -= second<B>(), std::remove_reference_t) COMPUTATION2(InplaceProductType, place<A>() *= second<B>(), std::remove_reference_t) COMPUTATION2(InplaceQuotientType, place<A>() /= second<B>(), std::remove_reference_t)
template<class T> T prvalue_or_xvalue();
COMPUTATION2(ArithmeticType, (first<decltype(first<A>() * second<B>())>() + first<decltype(first<A>() * second<B>())>()), Exactly)
COMPUTATION1(SumType, first<A>() + first<A>()) COMPUTATION1(DifferenceType, first<A>() - first<A>()) COMPUTATION1(ProductType, first<A>() * first<A>()) COMPUTATION1(QuotientType, first<A>() / first<A>()) COMPUTATION1(EqualsType, first<A>() == first<A>()) COMPUTATION1(LessType, first<A>() < first<A>()) COMPUTATION1(ComparisonType, first<A>() < first<A>()) COMPUTATION1(EqualityType, first<A>() == first<A>()) COMPUTATION1(InequalityType, first<A>() != first<A>()) COMPUTATION1(LogicalConjunctionType, first<A>() && first<A>()) COMPUTATION1(LogicalDisjunctionType, first<A>() || first<A>()) COMPUTATION1(LogicalNegationType, !first<A>()) COMPUTATION1(NegationType, -first<A>()) COMPUTATION1(MagType, mag(first<A>()))
template<class A, class B> constexpr std::array<Row, 35> operators() {
    using namespace Helper; constexpr bool eq = requires(A a, B b) { a == b; }, add = requires(A a, B b) { a + b; }, sub = requires(A a, B b) { a - b; }, mul = requires(A a, B b) { a * b; }, div = requires(A a, B b) { a / b; };
    return {{row_SumType<A, B>(), row_DifferenceType<A, B>(), row_ProductType<A, B>(), row_QuotientType<A, B>(), row_EqualsType<A, B>(), row_LessType<A, B>(), row_ComparisonType<A, B>(), row_EqualityType<A, B>(), row_InequalityType<A, B>(), row_LogicalConjunctionType<A, B>(), row_LogicalDisjunctionType<A, B>(), row_InplaceSumType<A, B>(), row_InplaceDifferenceType<A, B>(), row_InplaceProductType<A, B>(), row_InplaceQuotientType<A, B>(), row_ArithmeticType<A, B>(),
        row1_SumType<A>(), row1_DifferenceType<A>(), row1_ProductType<A>(), row1_QuotientType<A>(), row1_EqualsType<A>(), row1_LessType<A>(), row1_ComparisonType<A>(), row1_EqualityType<A>(), row1_InequalityType<A>(), row1_LogicalConjunctionType<A>(), row1_LogicalDisjunctionType<A>(), row1_LogicalNegationType<A>(), row1_NegationType<A>(), row1_MagType<A>(),
        {"HasEquality", HasEquality<A, B>, eq}, {"CanAdd", CanAdd<A, B>, add}, {"CanSubtract", CanSubtract<A, B>, sub}, {"CanMultiply", CanMultiply<A, B>, mul}, {"CanDivide", CanDivide<A, B>, div}}};
}
struct Pair { size_t a, b; std::array<Row, 35> rows; };
constexpr size_t PAIRS = N_ALL * N_ALL; // all of them
constexpr size_t left(size_t p) { return p / N_ALL; }
constexpr size_t right(size_t p) { return p % N_ALL; }
std::vector<Pair> const& pairs() { static std::vector<Pair> v = []<size_t... I>(std::index_sequence<I...>) { return std::vector<Pair>{Pair{left(I), right(I), operators<Nth<left(I)>, Nth<right(I)>>()}...}; }(std::make_index_sequence<PAIRS>()); return v; }
MON_SUITE(operators_of_types, PAIRS, PAIRS) {
    Pair const& p = pairs()[mon::st().case_no % PAIRS]; mon::log("types %zu and %zu", p.a, p.b); mon::nontrivial();
    for (auto& r : p.rows) { mon::event(r.want ? "valid expressions" : "invalid expressions"); MON_CHECK(r.got == r.want, std::string("operator/") + r.what, r.what << " of the types " << p.a << " and " << p.b << (r.want ? " is not that of the expression" : " exists though the expression is not valid")); }
}
int main(int c, char** v) { mon::require("valid expressions", 1000); mon::require("invalid expressions", 1000); return mon::main(c, v); }
#endif
