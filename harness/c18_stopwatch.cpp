// C18: the stopwatch, under a virtual clock: the process's clock functions are replaced, time passes only as the harness says,
// and the date (CLOCK_REALTIME) and the processor time jump as they like.  Oracle: the virtual time around each call.
#include "mon.hpp"
#include <cmath>
#include <ctime>
#include <limits>
#include <ratio>
#include <sys/time.h>
#include <sys/syscall.h>
#include <cstdlib>
#include <iostream>
#include "stopwatch.hpp"

using mon::Rng; using Helper::Stopwatch;
typedef long long ll;

// ------------------------------------------------------------------ the clock
bool virtual_on = false; ll now_ns = 1000000007; ll date_offset = 1600000000000000000ll; ll cpu_ns = 5000000; ll tick = 0; unsigned long asked = 0;
void split(ll ns, timespec* t) { ll s = ns / 1000000000, f = ns % 1000000000; if (f < 0) { f += 1000000000; --s; } t->tv_sec = s; t->tv_nsec = f; }
extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept {
    if (!virtual_on) return static_cast<int>(syscall(SYS_clock_gettime, id, t));
    ++asked; now_ns += tick; ll v;
    switch (id) { case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: v = static_cast<ll>(static_cast<unsigned long long>(now_ns) + static_cast<unsigned long long>(date_offset)); break; case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: v = cpu_ns; break; default: v = now_ns; }
    split(v, t); return 0;
}
extern "C" int gettimeofday(timeval* t, void*) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t* p) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
extern "C" clock_t clock() noexcept { if (virtual_on) return cpu_ns / 1000; timespec s; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * 1000000 + s.tv_nsec / 1000; }
struct VirtualTime { VirtualTime(ll start) { now_ns = start; cpu_ns = 5000000; virtual_on = true; } ~VirtualTime() { virtual_on = false; tick = 0; } };

// ------------------------------------------------------------------ the oracle
// When the start and the last click were made: somewhere between two virtual times.
struct Span { ll lo, hi; };
struct Model { Span start, click; bool clicked; };
std::string show(Model const& m) { return "started at " + std::to_string(m.start.lo) + (m.clicked ? ".., clicked at " + std::to_string(m.click.lo) : ".., not clicked"); }
template<class D> long double in_ns(D d) { return static_cast<long double>(d.count()) * D::period::num / D::period::den * 1000000000.0L; }
template<class D> void judge(Model const& m, D d, double s, char const* when) {
    __int128 lo = m.clicked ? static_cast<__int128>(m.click.lo) - m.start.hi : 0, hi = m.clicked ? static_cast<__int128>(m.click.hi) - m.start.lo : 0; if (lo < 0) lo = 0;
    typedef typename D::period Q; bool ok; std::string want;
    if constexpr (std::is_integral_v<typename D::rep>) { auto units = [](__int128 ns) { return ns * Q::den / Q::num / 1000000000; }; if (Q::num > 1) { auto u = [](__int128 ns) { return ns / Q::num / 1000000000; }; ok = d.count() >= static_cast<ll>(u(lo)) && d.count() <= static_cast<ll>(u(hi)); want = std::to_string(static_cast<ll>(u(lo))) + " to " + std::to_string(static_cast<ll>(u(hi))); } else { ok = d.count() >= static_cast<ll>(units(lo)) && d.count() <= static_cast<ll>(units(hi)); want = std::to_string(static_cast<ll>(units(lo))) + " to " + std::to_string(static_cast<ll>(units(hi))); } }
    else { long double e = std::numeric_limits<typename D::rep>::epsilon() * 4, x = in_ns(d); ok = x >= static_cast<long double>(lo) * (1 - e) && x <= static_cast<long double>(hi) * (1 + e); want = std::to_string(static_cast<ll>(lo)) + " to " + std::to_string(static_cast<ll>(hi)) + " ns"; }
    MON_CHECK(ok, "duration", when << " the duration is " << d.count() << " of " << Q::num << "/" << Q::den << " s instead of " << want << " (" << show(m) << ")");
    MON_CHECK(d.count() >= 0 && s >= 0, "negative", when << " the duration is " << d.count() << ", and " << s << " s");
    long double e = std::max<long double>(1e-15L, std::is_integral_v<typename D::rep> ? 0 : std::numeric_limits<typename D::rep>::epsilon() * 4), unit = static_cast<long double>(Q::num) / Q::den; if (!std::is_integral_v<typename D::rep>) unit = 0;
    MON_CHECK(s <= static_cast<long double>(hi) / 1e9L * (1 + e), "seconds", when << " " << s << " s are more than the " << static_cast<double>(hi) / 1e9 << " s which passed (" << show(m) << ")");
    long double x = in_ns(d) / 1e9L; MON_CHECK(s >= x * (1 - e) - 1e-300 - unit && s <= x * (1 + e) + unit, "seconds", when << " " << s << " s are not the duration of " << static_cast<double>(x) << " s");
    MON_CHECK(s >= static_cast<long double>(lo) / 1e9L * (1 - e) - unit, "seconds", when << " " << s << " s are less by more than a unit than the " << static_cast<double>(lo) / 1e9 << " s which passed (" << show(m) << ")");
    mon::event("readings");
}
template<class D> void read(Stopwatch<D> const& w, Model const& m, char const* when) { D d = w.duration(); double s = w.elapsed_seconds(); judge(m, d, s, when); }

ll passing(Rng& r) {  // how long nothing happens
    switch (r.below(9)) { case 0: return 0; case 1: return static_cast<ll>(r.below(1000)); case 2: return static_cast<ll>(r.below(1000000)); case 3: return static_cast<ll>(r.below(1000000000)); case 4: return 1000000000ll * static_cast<ll>(r.below(100)) + static_cast<ll>(r.below(3)) - 1; case 5: return static_cast<ll>(r.below(4000000000000ull));
        case 6: return 3600000000000ll * static_cast<ll>(r.below(3)) + static_cast<ll>(r.below(2)); case 7: return static_cast<ll>(r.below(2147483648ull * 3)); default: return r.chance(1, 4) ? static_cast<ll>(r.below(1ull << 60)) : static_cast<ll>(r.below(1ull << 40)); }
}
constexpr ll HORIZON = std::numeric_limits<ll>::max() / 4 * 3;
void pass(Rng& r, ll limit) {
    ll p = passing(r); p = p < 0 ? 0 : p % limit; if (now_ns > HORIZON - p) p %= 1000; now_ns += p; cpu_ns += p / 3; mon::log("pass %lld", p);
    if (r.chance(1, 2)) { ll jump; switch (r.below(5)) { case 0: jump = -3600000000000ll; break; case 1: jump = 3600000000000ll; break; case 2: jump = -date_offset / 2; break; case 3: jump = static_cast<ll>(r.below(1000000000)) - 500000000; break; default: jump = -p * 2 - 1; } if (date_offset + jump > 0 && date_offset + jump < 2000000000000000000ll) { date_offset += jump; mon::log("date jumps by %lld", jump); mon::event("date jumps"); } }
}
template<class D> void history(Rng& r, ll limit = std::numeric_limits<ll>::max() / 8) {
    VirtualTime v(static_cast<ll>(r.below(3)) == 0 ? static_cast<ll>(r.below(1000)) : static_cast<ll>(r.below(1ull << 50))); tick = r.chance(1, 2) ? 0 : static_cast<ll>(r.below(1 + std::min<ll>(limit / 100, 1000000))); mon::log("clock from %lld with tick %lld", now_ns, tick); date_offset = 1600000000000000000ll;
    std::vector<Stopwatch<D>> w; std::vector<Model> m; long n = r.range(5, 40);
    auto at = [](auto f) { ll a = now_ns; f(); return Span{a, now_ns}; };
    for (long i = 0; i < n; ++i) {
        if (r.chance(2, 3)) pass(r, limit);
        if (w.empty() || (w.size() < 6 && r.chance(1, 8))) { mon::log("create"); w.reserve(8); Span s = at([&] { w.emplace_back(); }); m.push_back({s, s, false}); read(w.back(), m.back(), "after its creation"); continue; }
        size_t k = r.below(w.size());
        switch (r.below(7)) {
            case 0: { mon::log("restart %zu", k); Stopwatch<D>* p = nullptr; Span s = at([&] { p = &w[k].restart(); }); MON_CHECK(p == &w[k], "self", "restart returns another object"); m[k] = {s, s, false}; break; }
            case 1: case 2: { mon::log("click %zu", k); Stopwatch<D>* p = nullptr; Span s = at([&] { p = &w[k].click(); }); MON_CHECK(p == &w[k], "self", "click returns another object"); m[k].click = s; m[k].clicked = true; break; }
            case 3: { size_t j = r.below(w.size()); mon::log("copy %zu to %zu", k, j); w[j] = w[k]; m[j] = m[k]; break; }
            case 4: { mon::log("copy %zu and click the copy", k); Stopwatch<D> c(w[k]); Model q = m[k]; pass(r, limit); q.click = at([&] { c.click(); }); q.clicked = true; read(c, q, "of a copy"); read(w[k], m[k], "after its copy was clicked"); q.start = at([&] { c.restart(); }); q.clicked = false; read(c, q, "of a restarted copy"); break; }
            case 5: { mon::log("chain %zu", k); ll a = now_ns; D d = w[k].restart().click().duration(); ll b = now_ns; m[k] = {{a, b}, {a, b}, true}; judge(m[k], d, w[k].elapsed_seconds(), "after restart and click"); break; }
            default: { mon::log("read %zu", k); unsigned long before = asked; for (int t = 0; t < 3; ++t) { read(w[k], m[k], t ? "read again" : "read"); now_ns += std::max<ll>(0, passing(r)) % 1000000; } (void)before; break; }
        }
        for (size_t j = 0; j < w.size(); ++j) read(w[j], m[j], "later");
    }
    mon::nontrivial(); MON_CHECK(asked > 0, "no-clock", "the stopwatch never asked the replaced clock");
}
typedef std::chrono::duration<long, std::ratio<1, 7>> Sevenths; typedef std::chrono::duration<int, std::milli> ShortMs; typedef std::chrono::duration<double> Reals; typedef std::chrono::duration<float, std::milli> Floats; typedef std::chrono::duration<unsigned, std::ratio<60>> Minutes; typedef std::chrono::duration<double, std::micro> RealMicros;
MON_SUITE(nanoseconds, 300, 30000) { history<std::chrono::nanoseconds>(rng); }
MON_SUITE(microseconds, 300, 30000) { history<Helper::Microseconds>(rng); }
MON_SUITE(milliseconds, 300, 30000) { history<Helper::Milliseconds>(rng); }
MON_SUITE(seconds, 300, 30000) { history<Helper::Seconds>(rng); }
MON_SUITE(minutes, 200, 20000) { history<Minutes>(rng); }
MON_SUITE(hours, 200, 20000) { history<std::chrono::hours>(rng); }
MON_SUITE(reals, 300, 30000) { history<Reals>(rng); }
MON_SUITE(micros, 200, 20000) { history<RealMicros>(rng); }
MON_SUITE(floats, 200, 20000) { history<Floats>(rng); }
MON_SUITE(sevenths, 200, 20000) { history<Sevenths>(rng, 1ll << 53); }
MON_SUITE(shortms, 200, 20000) { history<ShortMs>(rng, 40000000000000ll); }
int main(int c, char** v) { mon::require("readings", 10000); mon::require("date jumps", 1000); return mon::main(c, v); }
