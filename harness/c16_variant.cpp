// C16: coded variants.  Oracle: the index of the alternative, known when the variant is made.
#include "mon.hpp"
#include <climits>
#include <csetjmp>
#include <csignal>
#include <memory>
#include <string>
#include <sys/wait.h>
#include <cstdlib>
#include <iostream>
#include "variant.inl.hpp"

using Helper::CodedVariant; using mon::Rng;

// ------------------------------------------------------------------ families of sixteen distinct codes
enum class Small : unsigned char {};
enum Plain : int { PLAIN_MIN = INT_MIN, PLAIN_MAX = INT_MAX };
enum class Wide : long long {};
template<class C> constexpr C permuted(int i) { return static_cast<C>((i * 7 + 3) % 16); }
struct Ints { typedef int Code; static constexpr int code(int i) { return i == 0 ? INT_MIN : i == 1 ? INT_MAX : i == 2 ? -1 : i == 3 ? 0 : i * i * 97 - 1000; } };
struct Bytes { typedef unsigned char Code; static constexpr unsigned char code(int i) { return static_cast<unsigned char>(255 - i * 16); } };
struct Chars { typedef char Code; static constexpr char code(int i) { return static_cast<char>("zaMq09_XybTc!~Ee"[i]); } };
struct Enums { typedef Small Code; static constexpr Small code(int i) { return permuted<Small>(i); } };
struct Plains { typedef Plain Code; static constexpr Plain code(int i) { return static_cast<Plain>(15 - i); } };
struct Wides { typedef Wide Code; static constexpr Wide code(int i) { return static_cast<Wide>((static_cast<long long>(i * 5 % 16) << 32) - 7); } };  // equal modulo 2^32
struct Longs { typedef unsigned long Code; static constexpr unsigned long code(int i) { return i == 0 ? ~0ul : i == 1 ? 0 : i == 2 ? 1ul << 63 : i == 3 ? (1ul << 63) - 1 : i == 4 ? 0xffffffffu : (1ul << (i * 4)) + 1; } };
struct Signed { typedef signed char Code; static constexpr signed char code(int i) { return static_cast<signed char>(i * 16 - 128); } };
struct Shorts { typedef short Code; static constexpr short code(int i) { return static_cast<short>(i * 257); } };

template<class F, int N> struct Alt { static constexpr typename F::Code code() { return F::code(N); } static constexpr int index = N; int mark; Alt() : mark(1000 + N) {} explicit Alt(int m) : mark(m) {} };
template<class F, int N> struct Make;
template<class F, class S> struct List; template<class F, int... N> struct List<F, std::integer_sequence<int, N...>> { typedef CodedVariant<typename F::Code, Alt<F, N>...> type; };
template<class F, int N> using Var = typename List<F, std::make_integer_sequence<int, N>>::type;

struct Seen { int calls = 0, index = -1, mark = -1; };
struct Visitor { Seen* s; template<class T> long operator()(T&& t) const { ++s->calls; s->index = std::decay_t<T>::index; s->mark = t.mark; return 100 + std::decay_t<T>::index; } };
struct Stateful { int calls = 0, index = -1; template<class T> std::string operator()(T const&) { ++calls; index = T::index; return std::string(25, 'r') + std::to_string(T::index); } };
struct ByRef { int* cells; template<class T> int& operator()(T const&) const { return cells[T::index]; } };
struct Mover { template<class T> std::unique_ptr<int> operator()(T const&) const { return std::make_unique<int>(T::index); } };
struct Ender { template<class T> int operator()(T const&) const { _exit(50); } };
struct Void { int* out; template<class T> void operator()(T) const { *out = T::index; } };
struct Thrown { int index; };
struct Thrower { template<class T> int operator()(T const&) const { throw Thrown{T::index}; } };

template<class V, class A> concept Accepts = requires(A const& a) { V(a); };
// What one variant shows; everything is observed without its index being known to the compiler.
struct View { std::string family; int n; bool holds[16]; Seen seen; long result; };
std::string say(View const& w, int k, std::string const& what) { return "alternative " + std::to_string(k) + " of " + std::to_string(w.n) + " in " + w.family + ": " + what; }
void judge(View const& w, int k) {
    for (int i = 0; i < w.n; ++i) MON_CHECK(w.holds[i] == (i == k), "holds", say(w, k, "holds_alternative<" + std::to_string(i) + "> is " + (w.holds[i] ? "true" : "false")));
    MON_CHECK(w.seen.calls == 1 && w.seen.index == k && w.seen.mark == 1000 + k, "visit", say(w, k, "the visitor is called " + std::to_string(w.seen.calls) + " times, with alternative " + std::to_string(w.seen.index)));
    MON_CHECK(w.result == 100 + k, "result", say(w, k, "the visitor's result becomes " + std::to_string(w.result)));
}
void judge_more(View const& w, int k, bool ok, char const* key, char const* what) { MON_CHECK(ok, key, say(w, k, what)); }
template<class F, int N> void alternatives(Rng& r) {
    typedef Var<F, N> V;
    std::vector<V> made; [&]<int... K>(std::integer_sequence<int, K...>) { (made.push_back(V(Alt<F, K>())), ...); }(std::make_integer_sequence<int, N>());
    for (int k = 0; k < N; ++k) {
        V const coded(static_cast<typename F::Code>(F::code(k))); V assigned(made[r.below(N)]); assigned = made[k]; V moved(std::move(assigned)); V const* all[] = {&coded, &made[k], &moved}; V const& v = *all[r.below(3)]; int w = static_cast<int>(r.below(4)); mon::log("%d of %d", k, N);
        View o{typeid(F).name(), N, {}, {}, 0}; for (V const* p : all) judge_more(o, k, p->code() == F::code(k), "code", "the code is another one");
        [&]<int... I>(std::integer_sequence<int, I...>) { ((o.holds[I] = Helper::holds_alternative<Alt<F, I>>(v)), ...); }(std::make_integer_sequence<int, N>());
        o.result = v.accept(Visitor{&o.seen}); judge(o, k);
        if (w == 0) { Stateful t; std::string x = v.accept(t); judge_more(o, k, t.calls == 1 && t.index == k && x == std::string(25, 'r') + std::to_string(k), "stateful", "a visitor with state is called wrongly, or its text lost"); }
        if (w == 1) { int cells[16] = {}; static_assert(std::is_same_v<decltype(v.accept(ByRef{cells})), int&>); int& x = v.accept(ByRef{cells}); judge_more(o, k, &x == &cells[k], "reference", "a reference result refers to something else"); }
        if (w == 2) { auto x = v.accept(Mover()); judge_more(o, k, x && *x == k, "move-only", "a move-only result is lost"); int out = -1; static_assert(std::is_void_v<decltype(v.accept(Void{&out}))>); v.accept(Void{&out}); judge_more(o, k, out == k, "void", "a visitor without result is called wrongly"); }
        if (w == 3) { int got = -1; try { v.accept(Thrower()); } catch (Thrown const& t) { got = t.index; } judge_more(o, k, got == k, "throw", "a visitor's exception is lost"); }
        mon::event("visits", 2);
    }
}
// ------------------------------------------------------------------ codes of no alternative
sigjmp_buf env; volatile sig_atomic_t expecting = 0;
void on_abort(int) { if (expecting) { expecting = 0; siglongjmp(env, 1); } signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
// 0: returned, 1: aborted; the visitor's calls are counted in s
template<class V> __attribute__((noinline)) int visit_bad(V const& v, Seen& s) { if (sigsetjmp(env, 1) == 0) { expecting = 1; v.accept(Visitor{&s}); expecting = 0; return 0; } return 1; }
void judge_foreign(int n, long long x, Seen const& s, int end) { MON_CHECK(s.calls == 0, "foreign-visited", "visiting a variant of " << n << " alternatives with the foreign code " << x << " calls the visitor with alternative " << s.index); MON_CHECK(end == 1, "foreign-returned", "visiting a variant of " << n << " alternatives with the foreign code " << x << " returns"); }
template<class F, int N> void foreign(Rng& r, int tries) {
    typedef typename F::Code C; typedef Var<F, N> V;
    for (int t = 0; t < tries; ++t) {
        long long x; switch (r.below(4)) { case 0: x = static_cast<long long>(F::code(static_cast<int>(r.below(16)))); break; case 1: x = static_cast<long long>(static_cast<unsigned long long>(F::code(static_cast<int>(r.below(16)))) + static_cast<unsigned long long>(r.range(-2, 2))); break; case 2: x = static_cast<long long>(r.next()); break; default: x = static_cast<long long>(r.below(256)); break; }
        if constexpr (std::is_enum_v<C>) x = static_cast<long long>(static_cast<std::underlying_type_t<C>>(x)); C c = static_cast<C>(x); bool known = false; for (int i = 0; i < N; ++i) known = known || F::code(i) == c; if (known) continue;
        mon::log("foreign code %lld of %d", x, N); V v(c); Seen s; int end = visit_bad(v, s); judge_foreign(N, x, s, end); mon::event("foreign codes");
    }
}
template<class F, int N> void child(Rng& r) {  // in a process of its own: the program really ends
    typedef typename F::Code C; C c; bool known; do { c = static_cast<C>(r.below(200)); known = false; for (int i = 0; i < N; ++i) known = known || F::code(i) == c; } while (known); Var<F, N> v(c); mon::log("child with %d alternatives", N);
    pid_t p = fork(); if (p == 0) { signal(SIGABRT, SIG_DFL); rlimit l{0, 0}; setrlimit(RLIMIT_CORE, &l); Seen s; v.accept(Ender()); _exit(51); }
    int st = 0; if (p < 0 || waitpid(p, &st, 0) != p) return; MON_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 50), "foreign-visited", "a foreign code calls a visitor"); MON_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "foreign-not-aborted", "visiting with a foreign code ends the program with status " << st); mon::event("aborted processes");
}
template<class F, int N> void arity(Rng& r) { alternatives<F, N>(r); foreign<F, N>(r, 12); if (r.chance(1, 10)) child<F, N>(r); mon::nontrivial(); }
template<class F> void family(Rng& r) {
    if constexpr (true) [&]<int... N>(std::integer_sequence<int, N...>) { (arity<F, N + 1>(r), ...); }(std::make_integer_sequence<int, 16>());
}
// ------------------------------------------------------------------ alternatives with a state of their own, visitors which visit
template<int N> struct Heavy { static constexpr int code() { return N * N + 1; } static constexpr int index = N; static inline long made = 0, alive = 0; std::string text; alignas(32) int cell; Heavy() : text(30, static_cast<char>('a' + N)), cell(N) { ++made; ++alive; } Heavy(Heavy const& o) : text(o.text), cell(o.cell) { ++alive; } ~Heavy() { cell = -1; --alive; } };
typedef CodedVariant<int, Heavy<0>, Heavy<1>, Heavy<2>, Heavy<3>, Heavy<4>, Heavy<5>, Heavy<6>> HeavyVar;
long heavy_alive() { return Heavy<0>::alive + Heavy<1>::alive + Heavy<2>::alive + Heavy<3>::alive + Heavy<4>::alive + Heavy<5>::alive + Heavy<6>::alive; }
struct Reader { template<class T> std::string operator()(T&& t) const { bool aligned = reinterpret_cast<uintptr_t>(&t.cell) % 32 == 0; return t.text + std::to_string(t.cell) + (aligned ? "" : "!"); } };
struct Nest { HeavyVar const* rest; size_t n; template<class T> std::string operator()(T const& t) const { std::string s = t.text.substr(0, 1); if (n > 0) s += rest->accept(Nest{rest + 1, n - 1}); return s + std::to_string(t.cell) + (t.text.size() == 30 ? "" : "!"); } };
MON_SUITE(heavy, 120, 6000) {
    std::vector<HeavyVar> v; std::vector<int> m; static const int CODES[] = {1, 2, 5, 10, 17, 26, 37}; size_t n = 1 + rng.below(40); mon::log("heavy %zu", n); long alive0 = heavy_alive();
    for (size_t i = 0; i < n; ++i) { int k = static_cast<int>(rng.below(7)); v.push_back(HeavyVar(CODES[k])); m.push_back(k); }
    if (rng.chance(1, 2)) { Heavy<3> h; v[0] = HeavyVar(h); m[0] = 3; v[0] = h; }
    for (size_t i = 0; i < n; ++i) { std::string w = std::string(30, static_cast<char>('a' + m[i])) + std::to_string(m[i]); std::string g = v[i].accept(Reader()); MON_CHECK(g == w, "heavy/object", "the visitor sees '" << g << "', expected '" << w << "'"); }
    std::string want; for (size_t i = n; i-- > 0;) want = std::string(1, static_cast<char>('a' + m[i])) + want + std::to_string(m[i]); std::string got = v[0].accept(Nest{v.data() + 1, n - 1}); MON_CHECK(got == want, "heavy/nested", "nested visits give '" << got << "', expected '" << want << "'");
    try { v[n / 2].accept(Thrower()); } catch (Thrown const& t) { MON_CHECK(t.index == m[n / 2], "heavy/thrown", "another alternative throws"); } MON_CHECK(heavy_alive() == alive0, "heavy/alive", heavy_alive() - alive0 << " objects made for visitors are left"); mon::event("nested visits", n); mon::nontrivial();
}
#if PART == 0
MON_SUITE(ints, 12, 600) { family<Ints>(rng); }
MON_SUITE(bytes, 12, 600) { family<Bytes>(rng); }
#elif PART == 1
MON_SUITE(chars, 12, 600) { family<Chars>(rng); }
MON_SUITE(enums, 12, 600) { family<Enums>(rng); }
#elif PART == 2
MON_SUITE(plains, 12, 600) { family<Plains>(rng); }
MON_SUITE(longs, 12, 600) { family<Longs>(rng); }
#else
MON_SUITE(wides, 12, 600) { family<Wides>(rng); }
MON_SUITE(shorts, 12, 600) { family<Shorts>(rng); }
MON_SUITE(signed_chars, 12, 600) { family<Signed>(rng); }
#endif
static_assert(!Accepts<Var<Enums, 3>, Alt<Enums, 3>> && Accepts<Var<Enums, 3>, Alt<Enums, 2>>);
int main(int c, char** v) { signal(SIGABRT, on_abort); mon::require("visits", 2000); mon::require("foreign codes", 300); mon::require("aborted processes", 3); return mon::main(c, v); }
