// C17: randomisers.  Oracles: the interval for every draw; chi-square, Kolmogorov-Smirnov, serial, cross and duplicate statistics
// for distribution and independence, each with false-alarm odds below 1e-11; comparison of the draws of separate processes.
#include "mon.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <set>
#include <spawn.h>
#include <sys/wait.h>
#include <time.h>
#include "randomiser.hpp"

using mon::Rng;
using Helper::RandomiserInterface; using Helper::UniformIntRandomiser; using Helper::UniformRealRandomiser;

// ------------------------------------------------------------------ statistics
// A chi-square value as a standard normal deviate (Wilson and Hilferty)
double deviate(double x, double df) { return (std::cbrt(x / df) - (1 - 2 / (9 * df))) / std::sqrt(2 / (9 * df)); }
constexpr double LIMIT = 7.3;  // odds 1.5e-13 one-sided, with a margin for the approximation
void chi(std::vector<double> const& seen, std::vector<double> const& expected, char const* key, std::string const& what) {
    double x = 0; for (size_t i = 0; i < seen.size(); ++i) x += (seen[i] - expected[i]) * (seen[i] - expected[i]) / expected[i];
    double df = static_cast<double>(seen.size()) - 1, z = deviate(x, df); size_t worst = 0; for (size_t i = 0; i < seen.size(); ++i) if (std::fabs(seen[i] - expected[i]) / std::sqrt(expected[i]) > std::fabs(seen[worst] - expected[worst]) / std::sqrt(expected[worst])) worst = i;
    mon::event("statistics"); MON_CHECK(z < LIMIT, key, what << ": chi-square " << x << " with " << df << " degrees of freedom; class " << worst << " was seen " << seen[worst] << " times instead of about " << expected[worst]);
    if (df >= 20) MON_CHECK(z > -LIMIT, key, what << ": chi-square " << x << " with " << df << " degrees of freedom, far more even than chance");
}
void chi_even(std::vector<double> const& seen, char const* key, std::string const& what) { double n = 0; for (double s : seen) n += s; chi(seen, std::vector<double>(seen.size(), n / static_cast<double>(seen.size())), key, what); }
// u in [0,1): uniform, with independent neighbours at several distances; `cells` is how many equally likely values u has (0: many)
void uniform(std::vector<double> const& u, std::string const& what) {
    size_t n = u.size(); int const B = 50; std::vector<double> c(B); for (double x : u) c[std::min(B - 1, static_cast<int>(x * B))] += 1; chi_even(c, "distribution", what + " over fifty parts");
    std::vector<double> s(u); std::sort(s.begin(), s.end()); double d = 0; for (size_t i = 0; i < n; ++i) d = std::max({d, s[i] - static_cast<double>(i) / static_cast<double>(n), static_cast<double>(i + 1) / static_cast<double>(n) - s[i]});
    mon::event("statistics"); MON_CHECK(d * std::sqrt(static_cast<double>(n)) < 3.9, "distribution", what << ": the distribution function differs by " << d << " in " << n << " draws");  // 2exp(-2*3.9^2) = 1.2e-13
    // the ends of the interval
    double e = 400.0 / static_cast<double>(n); double lo = 0, hi = 0; for (double x : u) { lo += x < e; hi += x >= 1 - e; } MON_CHECK(lo > 250 && lo < 570 && hi > 250 && hi < 570, "ends", what << ": " << lo << " and " << hi << " draws instead of about 400 in the lowest and highest parts of the interval");
}
void related(std::vector<double> const& a, std::vector<double> const& b, size_t n, char const* key, std::string const& what) {  // independence of a[i] and b[i]
    int const B = 8; std::vector<double> c(B * B), ra(B), rb(B); for (size_t i = 0; i < n; ++i) { int x = std::min(B - 1, static_cast<int>(a[i] * B)), y = std::min(B - 1, static_cast<int>(b[i] * B)); c[x * B + y] += 1; ra[x] += 1; rb[y] += 1; }
    double x = 0, df = 0; int na = 0, nb = 0; for (int i = 0; i < B; ++i) { na += ra[i] > 0; nb += rb[i] > 0; } df = (na - 1.0) * (nb - 1.0); if (df < 1) return;
    for (int i = 0; i < B; ++i) for (int j = 0; j < B; ++j) { double ex = ra[i] * rb[j] / static_cast<double>(n); if (ex > 0) x += (c[i * B + j] - ex) * (c[i * B + j] - ex) / ex; }
    double z = deviate(x, df); mon::event("statistics"); MON_CHECK(z < LIMIT && (df < 20 || z > -LIMIT), key, what << ": chi-square " << x << " with " << df << " degrees of freedom");
}
void serial(std::vector<double> const& u, std::string const& what) {
    for (size_t lag : {1u, 2u, 3u, 7u}) { std::vector<double> b(u.begin() + static_cast<long>(lag), u.end()); related(u, b, b.size(), "serial", what + ": draws " + std::to_string(lag) + " apart depend on each other"); }
}
void repeats(std::vector<double> u, double cells, std::string const& what) {  // how often a value returns, when there are many values
    size_t n = u.size(); double expected = static_cast<double>(n) * static_cast<double>(n) / 2 / cells; std::sort(u.begin(), u.end()); double r = 0; for (size_t i = 1; i < n; ++i) r += u[i] == u[i - 1];
    mon::event("statistics"); MON_CHECK(r <= expected + 12 * std::sqrt(expected) + 8, "repeats", what << ": " << r << " draws repeat another, instead of about " << expected);
}
std::string show(long double x) { char b[60]; snprintf(b, sizeof b, "%.21Lg", x); return b; }

// ------------------------------------------------------------------ integers
template<class T> using Big = __int128;
template<class T> std::vector<T> draw(RandomiserInterface<T>& g, size_t n) { std::vector<T> v(n); for (T& x : v) x = g.get(); mon::event("draws", n); return v; }
template<class T> void in_range(std::vector<T> const& v, T lo, T hi, char const* key, std::string const& what) { bool ok = true; T bad = lo; for (T x : v) if (!(x >= lo && x <= hi)) { ok = false; bad = x; } MON_CHECK(ok, key, what << ": drew " << show(static_cast<long double>(bad))); }
template<class T> void int_interval(Rng& r, T& lo, T& hi) {
    constexpr T mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max(); Big<T> a, w;
    switch (r.below(6)) { case 0: a = mn; break; case 1: a = mx; break; case 2: a = static_cast<Big<T>>(r.range(-20, 20)); break; case 3: a = 0; break; default: a = static_cast<T>(r.next()); }
    switch (r.below(6)) { case 0: w = 0; break; case 1: w = 1; break; case 2: case 3: w = static_cast<Big<T>>(r.below(40)); break; case 4: w = static_cast<Big<T>>(r.below(100000)); break; default: w = static_cast<Big<T>>(static_cast<unsigned __int128>(r.next()) >> r.below(3)); }
    if (r.chance(1, 12)) { lo = mn; hi = mx; return; }
    if (a < mn) a = mn; if (a > mx) a = mx; Big<T> b = a + w; if (b > mx) { b = a; a = b - w; if (a < mn) a = mn; } lo = static_cast<T>(a); hi = static_cast<T>(b);
}
// positions within the interval, spread evenly over each value's cell by the monitor's own random numbers
template<class T> std::vector<double> position(std::vector<T> const& v, T lo, T hi, Rng& r) { std::vector<double> u; long double w = static_cast<long double>(static_cast<Big<T>>(hi) - lo) + 1; for (T x : v) u.push_back(std::min(0.9999999999999999, static_cast<double>((static_cast<long double>(static_cast<Big<T>>(x) - lo) + r.real()) / w))); return u; }
template<class T> void ints(Rng& r) {
    T lo, hi; int_interval(r, lo, hi); Big<T> width = static_cast<Big<T>>(hi) - lo + 1; std::string what = std::string("integers of type ") + typeid(T).name() + " from " + show(lo) + " to " + show(hi); mon::log("%s", what.c_str());
    std::unique_ptr<RandomiserInterface<T>> g; UniformIntRandomiser<T> kept(lo, hi); int form = static_cast<int>(r.below(3)); if (form == 0) g = std::make_unique<UniformIntRandomiser<T>>(lo, hi); else if (form == 1) g = std::make_unique<UniformIntRandomiser<T>>(kept); else { UniformIntRandomiser<T> other(lo, lo); other = kept; g = std::make_unique<UniformIntRandomiser<T>>(std::move(other)); } mon::log("form %d", form);
    size_t n = 12000; std::vector<T> v = draw(*g, n); in_range(v, lo, hi, "range", what); mon::nontrivial();
    if (width == 1) return;
    if (width <= 64) { std::vector<double> c(static_cast<size_t>(width)); for (T x : v) c[static_cast<size_t>(static_cast<Big<T>>(x) - lo)] += 1; chi_even(c, "distribution", what); }
    std::vector<double> u = position(v, lo, hi, r); uniform(u, what); serial(u, what);
    if (width > 1000) for (int m : {2, 3, 7, 16}) {  // the low digits
        std::vector<double> c(static_cast<size_t>(m)), e(static_cast<size_t>(m), static_cast<double>(n) / m); if (width > 100000000 || width % m == 0) { for (T x : v) c[static_cast<size_t>((static_cast<Big<T>>(x) - lo) % m)] += 1; chi(c, e, "distribution", what + " modulo " + std::to_string(m)); } }
    if (width > 100000000) repeats(u, static_cast<double>(width), what);
    // another randomiser, of the same interval, drawn from alternately
    std::vector<T> x(n), y(n); for (size_t i = 0; i < n; ++i) { x[i] = g->get(); y[i] = kept.get(); } in_range(x, lo, hi, "range", what); in_range(y, lo, hi, "range", what); std::vector<double> ux = position(x, lo, hi, r), uy = position(y, lo, hi, r);
    related(ux, uy, n, "cross", what + ": two randomisers depend on each other"); { std::vector<double> s(uy.begin(), uy.end() - 1), t(ux.begin() + 1, ux.end()); related(s, t, s.size(), "cross", what + ": two randomisers depend on each other"); }
    // two randomisers used one after the other
    UniformIntRandomiser<T> p(lo, hi), q(p); std::vector<double> up = position(draw<T>(p, n), lo, hi, r), uq = position(draw<T>(q, n), lo, hi, r); related(up, uq, n, "cross", what + ": a randomiser and its copy depend on each other");
    mon::event("intervals");
}
MON_SUITE(ints_short, 14, 900) { ints<short>(rng); }
MON_SUITE(ints_ushort, 10, 700) { ints<unsigned short>(rng); }
MON_SUITE(ints_int, 30, 2000) { ints<int>(rng); }
MON_SUITE(ints_unsigned, 14, 900) { ints<unsigned>(rng); }
MON_SUITE(ints_long, 14, 900) { ints<long>(rng); }
MON_SUITE(ints_ulong, 14, 900) { ints<unsigned long>(rng); }
MON_SUITE(ints_llong, 8, 500) { ints<long long>(rng); }
MON_SUITE(ints_schar, 8, 500) { ints<signed char>(rng); }
MON_SUITE(ints_uchar, 8, 500) { ints<unsigned char>(rng); }

// ------------------------------------------------------------------ reals
template<class T> void reals(Rng& r) {
    T lo, hi; switch (r.below(7)) { case 0: lo = 0; hi = 1; break; case 1: lo = -static_cast<T>(r.real()) * 10; hi = static_cast<T>(r.real()) * 10; break; case 2: lo = static_cast<T>(r.range(-1000, 1000)); hi = lo + static_cast<T>(r.real()); break; case 3: lo = -std::numeric_limits<T>::max() / 2; hi = -lo; break; case 4: lo = static_cast<T>(r.range(-5, 5)); hi = lo; break;
        case 5: lo = static_cast<T>(1e-30); hi = static_cast<T>(3e-30); break; default: lo = -static_cast<T>(r.below(1000000)); hi = static_cast<T>(r.below(3)) - static_cast<T>(0.5); }
    if (hi < lo) std::swap(lo, hi);
    std::string what = std::string("reals of type ") + typeid(T).name() + " from " + show(lo) + " to " + show(hi); mon::log("%s", what.c_str());
    std::unique_ptr<RandomiserInterface<T>> g; UniformRealRandomiser<T> kept(lo, hi); int form = static_cast<int>(r.below(3)); if (form == 0) g = std::make_unique<UniformRealRandomiser<T>>(lo, hi); else if (form == 1) g = std::make_unique<UniformRealRandomiser<T>>(kept); else { UniformRealRandomiser<T> other(lo, lo); other = kept; g = std::make_unique<UniformRealRandomiser<T>>(std::move(other)); } mon::log("form %d", form);
    size_t n = 12000; std::vector<T> v = draw(*g, n);
    T slack = std::numeric_limits<T>::epsilon() * std::max(std::fabs(lo), std::fabs(hi));  // the rounding of one multiplication and addition
    in_range(v, lo == hi ? lo : lo - slack, hi + (lo == hi ? 0 : slack), "range", what); mon::nontrivial(); if (lo == hi) return;
    auto pos = [&](std::vector<T> const& w) { std::vector<double> u; for (T x : w) u.push_back(std::max(0.0, std::min(0.9999999999999999, static_cast<double>((static_cast<long double>(x) - lo) / (static_cast<long double>(hi) - lo))))); return u; };
    bool fine = (static_cast<long double>(hi) - lo) > std::max(std::fabs(lo), std::fabs(hi)) * std::numeric_limits<T>::epsilon() * 1e5L;  // enough representable values in the interval
    std::vector<double> u = pos(v); if (!fine) return; uniform(u, what); serial(u, what);
    if ((static_cast<long double>(hi) - lo) * 2 >= std::max(std::fabs(lo), std::fabs(hi))) { repeats(u, sizeof(T) == 4 ? 0x1p23 : 0x1p51, what); std::vector<double> c(16); for (double x : u) c[static_cast<size_t>(std::fmod(x * 0x1p16, 16))] += 1; chi_even(c, "distribution", what + " in the digits 13 to 16"); }
    if (sizeof(T) > 4 && lo == 0 && hi == 1) { std::vector<double> c(16), d(16); for (T t : v) { double s = static_cast<double>(t); c[static_cast<size_t>(std::fmod(s * 0x1p36, 16))] += 1; d[static_cast<size_t>(std::fmod(s * 0x1p46, 16))] += 1; } chi_even(c, "distribution", what + " in the digits 33 to 36"); chi_even(d, "distribution", what + " in the digits 43 to 46"); mon::event("low digits"); }
    std::vector<T> x(n), y(n); for (size_t i = 0; i < n; ++i) { x[i] = g->get(); y[i] = kept.get(); } std::vector<double> ux = pos(x), uy = pos(y); related(ux, uy, n, "cross", what + ": two randomisers depend on each other"); uniform(uy, what);
    UniformRealRandomiser<T> p(lo, hi), q(p); std::vector<double> up = pos(draw<T>(p, n)), uq = pos(draw<T>(q, n)); related(up, uq, n, "cross", what + ": a randomiser and its copy depend on each other");
    // an integer randomiser drawn from in between
    UniformIntRandomiser<int> k(0, 63); std::vector<double> ur, uk; for (size_t i = 0; i < n; ++i) { ur.push_back(0); ur.back() = pos({g->get()})[0]; uk.push_back((k.get() + 0.5) / 64); } related(ur, uk, n, "cross", what + ": it and an integer randomiser depend on each other");
    mon::event("intervals");
}
MON_SUITE(reals_double, 30, 2000) { reals<double>(rng); }
MON_SUITE(reals_float, 20, 1200) { reals<float>(rng); }
MON_SUITE(reals_longdouble, 10, 700) { reals<long double>(rng); }

// ------------------------------------------------------------------ randomisers of different intervals in turn, first draws, and long runs
template<class T, class R, bool INT> void turns(Rng& r) {
    struct One { std::unique_ptr<RandomiserInterface<T>> g; T lo, hi; std::vector<T> v; }; std::vector<One> all; size_t k = 2 + r.below(5);
    for (size_t i = 0; i < k; ++i) { T lo = static_cast<T>(INT ? r.range(-100, 20) : r.range(-100, 20) / 3), hi = static_cast<T>(lo + static_cast<T>(r.below(100))); all.push_back(One{std::make_unique<R>(lo, hi), lo, hi, {}}); }
    mon::log("%zu in turn", k); for (size_t n = 0; n < 9000; ++n) { One& o = all[r.below(k)]; o.v.push_back(o.g->get()); if (r.chance(1, 2000)) { size_t j = r.below(k); all[j].g = std::make_unique<R>(static_cast<R const&>(*all[j].g)); } }
    mon::event("draws", 9000); for (One& o : all) { std::string what = "in turn with others, from " + show(static_cast<long double>(o.lo)) + " to " + show(static_cast<long double>(o.hi)); in_range(o.v, o.lo, o.hi, "range", what); long double w = static_cast<long double>(o.hi) - o.lo + (INT ? 1 : 0); if (w == 0) continue;
        size_t B = INT ? std::min<size_t>(20, static_cast<size_t>(w)) : 20; if (B < 2) continue; std::vector<double> c(B), e(B); for (T x : o.v) { size_t b = static_cast<size_t>((static_cast<long double>(x) - o.lo) / w * static_cast<long double>(B)); c[std::min(b, B - 1)] += 1; }
        if (INT) for (long long x = 0; x < static_cast<long long>(w); ++x) e[std::min(B - 1, static_cast<size_t>(static_cast<long double>(x) / w * static_cast<long double>(B)))] += static_cast<double>(o.v.size()) / static_cast<double>(w); else for (auto& x : e) x = static_cast<double>(o.v.size()) / static_cast<double>(B);
        bool enough = true; for (double x : e) enough = enough && x > 20; if (enough) chi(c, e, "distribution", what); }
    // what each randomiser draws first
    T lo = static_cast<T>(r.range(-50, 0)), hi = static_cast<T>(lo + 9); std::vector<double> c(10), d(10); for (int i = 0; i < 4000; ++i) { R a(lo, hi); if (i % 2) { R b(a); T y = b.get(); (void)y; } T x = a.get(); MON_CHECK(x >= lo && x <= hi, "range", "the first draw is " << show(static_cast<long double>(x)) << ", not from " << show(static_cast<long double>(lo)) << " to " << show(static_cast<long double>(hi))); T z = a.get(); auto cell = [&](T t) { return std::min<size_t>(9, static_cast<size_t>(INT ? t - lo : (t - lo) / (hi - lo) * 10)); }; c[cell(x)] += 1; d[cell(z)] += 1; }
    chi_even(c, "first-draws", "the first draws of many randomisers"); chi_even(d, "first-draws", "the second draws of many randomisers"); mon::event("draws", 8000); mon::event("first draws", 4000); mon::nontrivial();
}
MON_SUITE(turns_int, 6, 300) { turns<int, UniformIntRandomiser<int>, true>(rng); }
MON_SUITE(turns_long, 4, 200) { turns<long, UniformIntRandomiser<long>, true>(rng); }
MON_SUITE(turns_double, 6, 300) { turns<double, UniformRealRandomiser<double>, false>(rng); }
MON_SUITE(turns_float, 4, 200) { turns<float, UniformRealRandomiser<float>, false>(rng); }
MON_SUITE(long_run, 1, 8) {
    size_t n = mon::st().thorough ? 4000000 : 1300000; mon::log("%zu draws", n); UniformIntRandomiser<unsigned long> g(0, ~0ul); std::vector<unsigned long> v(n); for (auto& x : v) x = g.get(); std::vector<unsigned long> s(v); std::sort(s.begin(), s.end()); size_t same = 0; for (size_t i = 1; i < n; ++i) same += s[i] == s[i - 1];
    MON_CHECK(same <= 1, "long-run/repeats", same << " of " << n << " draws of 64 bits repeat an earlier one"); for (size_t lag : {16u, 100u, 128u, 256u, 512u, 624u, 1000u, 1024u, 4096u, 10000u, 65536u, 100000u, 1000000u}) { double c = 0; size_t m = n - lag; unsigned long const *p = v.data(), *q = p + lag; long k = 0; for (size_t i = 0; i < m; ++i) k += __builtin_popcountll(p[i] ^ q[i]); c = static_cast<double>(k) - 32.0 * static_cast<double>(m); MON_CHECK(std::fabs(c) / std::sqrt(16.0 * static_cast<double>(m)) < LIMIT, "long-run/lag", "draws " << lag << " apart agree in " << 32 - c / static_cast<double>(m) << " bits in the mean"); }
    for (int b : {0, 1, 8, 31, 32, 62, 63}) { size_t k = 0; for (auto x : v) k += x >> b & 1; double c = static_cast<double>(k) - 0.5 * static_cast<double>(n); MON_CHECK(std::fabs(c) / std::sqrt(0.25 * static_cast<double>(n)) < LIMIT, "long-run/bits", "bit " << b << " is set in " << 0.5 + c / static_cast<double>(n) << " of the draws"); }
    mon::event("draws", n); mon::event("long runs"); mon::nontrivial();
}
// ------------------------------------------------------------------ separate runs
extern char** environ;
std::string self;
// In children started with a frozen clock, the time is always the same.
static bool frozen() { static bool f = getenv("MON_FROZEN") != nullptr; return f; }
#include <sys/syscall.h>
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept { if (frozen()) { t->tv_sec = 1700000000; t->tv_nsec = 123456789; return 0; } return static_cast<int>(syscall(SYS_clock_gettime, id, t)); }
std::string run_child(bool freeze, bool grown = false) {
    int p[2]; if (pipe(p)) return ""; posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, p[1], 1); posix_spawn_file_actions_addclose(&fa, p[0]); char a1[] = "--child", a2[] = "--grown-child"; char* argv[] = {self.data(), grown ? a2 : a1, nullptr};
    std::vector<char*> env; for (char** e = environ; *e; ++e) env.push_back(*e); char f[] = "MON_FROZEN=1"; if (freeze) env.push_back(f); env.push_back(nullptr); pid_t pid; int rc = posix_spawn(&pid, self.c_str(), &fa, nullptr, argv, env.data()); close(p[1]); posix_spawn_file_actions_destroy(&fa);
    std::string out; char b[256]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, static_cast<size_t>(k)); close(p[0]); if (rc == 0) { int st; waitpid(pid, &st, 0); } return out;
}
static void runs(bool freeze, int n, bool grown = false) {
    mon::log("%d runs%s", n, freeze ? " at the same moment" : ""); std::map<std::string, int> seen; int started = 0, same = 0; for (int i = 0; i < n; ++i) { std::string s = run_child(freeze, grown); if (s.size() < 8) continue; ++started; same += seen[s]++; }
    if (started < n / 2) return; mon::event("runs", static_cast<uint64_t>(started)); mon::nontrivial(); MON_CHECK(same <= 3, "runs", same << " pairs of " << started << " runs of a program" << (freeze ? " at the same moment" : "") << " draw the same numbers, for example " << seen.begin()->first);
}
MON_SUITE_NOLEAK(runs_apart, 3, 12) { runs(false, 60); }
#ifdef NDEBUG
MON_SUITE_NOLEAK(many_runs, 1, 2) { runs(false, 1500); }
#endif
MON_SUITE_NOLEAK(runs_at_once, 3, 12) { runs(true, 60); }
MON_SUITE_NOLEAK(long_runs_apart, 1, 4) { runs(false, 12, true); mon::event("long runs apart"); }  // whose numbers are looked at after many draws

int main(int c, char** v) {
    if (c == 2 && std::string(v[1]) == "--child") { UniformIntRandomiser<unsigned> g(0, 0xFFFFFFFFu); UniformRealRandomiser<double> d(0, 1); for (int i = 0; i < 4; ++i) printf("%u %.17g ", g.get(), d.get()); return 0; }
    if (c == 2 && std::string(v[1]) == "--grown-child") { UniformIntRandomiser<int> g(INT_MIN, INT_MAX); UniformIntRandomiser<unsigned long> h(0, ~0ul); UniformRealRandomiser<double> d(0, 1); for (int i = 0; i < 400000; ++i) { g.get(); h.get(); d.get(); } for (int i = 0; i < 4; ++i) printf("%d %lu %.17g ", g.get(), h.get(), d.get()); return 0; }
    { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); if (k > 0) self.assign(b, static_cast<size_t>(k)); }
    mon::require("draws", 300000); mon::require("statistics", 100); mon::require("runs", 60); mon::require("first draws", 10000); mon::require("long runs", 1); mon::require("low digits", 3); mon::require("long runs apart", 1); return mon::main(c, v);
}
