// C19: stack traces.  Oracle: the chain of calls which the harness plans, with the names of its functions, and the frames which
// the platform's backtrace() counts at the same place; everything written to the process's error and output streams is captured.
#include "mon.hpp"
#include <algorithm>
#include <execinfo.h>
#include <malloc.h>
#include <pthread.h>
#include <thread>
#include <dirent.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <sched.h>
#include "stack_trace.hpp"
#ifdef MON_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes(); // gcc does not install the header
#endif

using mon::Rng;
#define KEEP __attribute__((noinline))
#define AFTER asm volatile("" ::: "memory")
#ifdef ENABLE_STACK_TRACE
constexpr bool enabled = true;
#else
constexpr bool enabled = false;
#endif

// ------------------------------------------------------------------ capture of file descriptors
struct Capture {
    int save[2], file[2];
    Capture() { std::cerr.flush(); std::cout.flush(); fflush(stderr); fflush(stdout); for (int i = 0; i < 2; ++i) { save[i] = dup(i + 1); file[i] = memfd_create("capture", MFD_CLOEXEC); dup2(file[i], i + 1); } }
    std::string text(int i) { std::string s; char b[65536]; lseek(file[i], 0, SEEK_SET); ssize_t k; while ((k = read(file[i], b, sizeof b)) > 0) s.append(b, static_cast<size_t>(k)); return s; }
    ~Capture() { std::cerr.flush(); std::cout.flush(); fflush(stderr); fflush(stdout); for (int i = 0; i < 2; ++i) { dup2(save[i], i + 1); close(save[i]); close(file[i]); } }
};
size_t in_use() {
#ifdef MON_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return mallinfo2().uordblks;
#endif
}
int open_files() { DIR* d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) ++n; closedir(d); return n; }

// ------------------------------------------------------------------ chains of calls of many kinds
struct Plan {
    std::vector<int> kinds; size_t at = 0; int calls = 1, frames = 0; volatile int sink = 0; bool throwing = false; void (*action)(Plan&) = nullptr;
    void next();
    void bottom();
};
char const* const NEXT = "Plan::next()"; char const* const BOTTOM = "Plan::bottom()";
KEEP void free_call(Plan& p) { p.next(); AFTER; ++p.sink; }
namespace outer { namespace inner { KEEP void nested_call(Plan& p, std::string const&) { p.next(); AFTER; ++p.sink; } } }
template<class T, int N> KEEP void template_call(Plan& p) { p.next(); AFTER; ++p.sink; }
static KEEP void hidden_call(Plan& p) { p.next(); AFTER; ++p.sink; }
struct Object {
    Plan& p; KEEP Object(Plan& q, int) : p(q) { p.next(); AFTER; ++p.sink; }
    KEEP explicit Object(Plan& q) : p(q) {}
    KEEP void method() { p.next(); AFTER; ++p.sink; }
    KEEP void constant() const { p.next(); AFTER; ++p.sink; }
    KEEP static void fixed(Plan& q) { q.next(); AFTER; ++q.sink; }
    KEEP virtual void dynamic() { p.next(); AFTER; ++p.sink; }
    KEEP bool operator()(int) const { p.next(); AFTER; ++p.sink; return true; }
    KEEP bool operator<(Object const&) const { p.next(); AFTER; ++p.sink; return true; }
    KEEP operator bool() const { p.next(); AFTER; ++p.sink; return true; }
    template<class T> KEEP T generic(T const& t) { p.next(); AFTER; ++p.sink; return t; }
};
struct Dying { Plan& p; Dying(Plan& q) : p(q) {} KEEP ~Dying() { p.next(); AFTER; ++p.sink; } };
struct Derived : Object { using Object::Object; KEEP void dynamic() override { p.next(); AFTER; ++p.sink; } };
extern "C" { KEEP void plain_c_call(Plan& p) { p.next(); AFTER; ++p.sink; } KEEP void i(Plan& p) { p.next(); AFTER; ++p.sink; } KEEP void Pv(Plan& p) { p.next(); AFTER; ++p.sink; } KEEP void _Zero(Plan& p) { p.next(); AFTER; ++p.sink; } }
KEEP void variadic_call(Plan* p, ...) { p->next(); AFTER; ++p->sink; }
KEEP void noexcept_call(Plan& p) noexcept { p.next(); AFTER; ++p.sink; }
template<class... T> struct Pack {}; template<class A, class B> struct TwoOf {}; template<int N> using Deep = Pack<TwoOf<Pack<int, long, char const*, std::integral_constant<unsigned long, N>>, Pack<double[N + 1], void (*)(int&, Object const*), TwoOf<Pack<>, bool Object::*>>>, Plan const volatile&, std::vector<std::string>, TwoOf<Derived, Dying(&)[3]>>;
template<class A, class... T> KEEP void long_call(Plan& p, A const*) { p.next(); AFTER; ++p.sink; }
typedef TwoOf<TwoOf<TwoOf<Deep<1>, Deep<2>>, TwoOf<Deep<3>, Deep<4>>>, TwoOf<TwoOf<Deep<5>, Deep<6>>, TwoOf<Deep<7>, Deep<8>>>> Longest;
// A call which is the last of its function, as it never returns: what is returned to lies behind the function
struct Left {};
[[noreturn]] KEEP void never_returns(Plan& p) { p.next(); AFTER; ++p.sink; throw Left(); }
__attribute__((weak)) KEEP void last_call(Plan& p) { never_returns(p); }
__attribute__((weak)) KEEP void behind_last_call(Plan& p) { p.next(); AFTER; ++p.sink; }
extern "C" { __attribute__((weak)) KEEP void last_c_call(Plan& p) { never_returns(p); } }
struct Last { __attribute__((weak)) KEEP void method(Plan& p) { never_returns(p); } };
enum { KINDS = 26 };
// The readable name of each kind of call, empty if it has no visible symbol
char const* NAMES[KINDS] = {"free_call(Plan&)", "outer::inner::nested_call(Plan&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&)", "void template_call<int, 7>(Plan&)", "", "Object::Object(Plan&, int)", "Object::method()", "Object::constant() const", "Object::fixed(Plan&)",
    "Derived::dynamic()", "Object::operator()(int) const", "Object::operator<(Object const&) const", "Object::operator bool() const", "unsigned long Object::generic<unsigned long>(unsigned long const&)", "Dying::~Dying()", "plain_c_call", "i", "Pv", "variadic_call(Plan*, ...)", "noexcept_call(Plan&)", "void template_call<Object*, -1>(Plan&)", "_Zero", nullptr, nullptr, "last_call(Plan&)", "last_c_call", "Last::method(Plan&)"};
KEEP void Plan::next() {
    if (at == kinds.size()) { bottom(); AFTER; ++sink; return; }
    Plan& p = *this;
    switch (kinds[at++]) {
        case 0: free_call(p); break; case 1: { std::string s; outer::inner::nested_call(p, s); break; } case 2: template_call<int, 7>(p); break; case 3: hidden_call(p); break; case 4: { Object o(p, 1); AFTER; break; } case 5: { Object o(p); o.method(); break; } case 6: { Object o(p); o.constant(); break; } case 7: Object::fixed(p); break;
        case 8: { Derived d(p); Object* volatile o = &d; o->dynamic(); break; } case 9: { Object o(p); o(3); break; } case 10: { Object o(p); (void)(o < o); break; } case 11: { Object o(p); sink = static_cast<bool>(o); break; } case 12: { Object o(p); o.generic(5ul); break; } case 13: { Dying d(p); AFTER; break; } case 14: plain_c_call(p); break; case 15: i(p); break; case 16: Pv(p); break;
        case 17: variadic_call(&p, 1, 2.0); break; case 18: noexcept_call(p); break; case 19: template_call<Object*, -1>(p); break; case 21: long_call<Deep<9>, int>(p, nullptr); break; case 22: long_call<Longest, Deep<1>, Longest>(p, nullptr); break; case 23: try { last_call(p); } catch (Left const&) {} break; case 24: try { last_c_call(p); } catch (Left const&) {} break; case 25: try { Last l; l.method(p); } catch (Left const&) {} break; default: _Zero(p); break;
    }
    AFTER; ++sink;
}
struct Signal { int n; };
KEEP void Plan::bottom() {
    void* f[4096]; frames = backtrace(f, 4096); for (int k = 0; k < 3; ++k) { Dl_info d; if (dladdr(f[k], &d) && d.dli_sname && strstr(d.dli_sname, "bottom")) { frames -= k; break; } }
    if (throwing) { try { throw Signal{7}; } catch (Signal const& s) { for (int k = 0; k < calls; ++k) Helper::stack_trace(); sink += s.n; } }
    else for (int k = 0; k < calls; ++k) Helper::stack_trace();
    AFTER; ++sink;
}
char const* readable(void* f) { Dl_info d; int st = 0; if (!dladdr(f, &d) || !d.dli_sname) return ""; char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); return n ? n : d.dli_sname; }
void long_names() { void (*a)(Plan&, Deep<9> const*) = &long_call<Deep<9>, int>; void (*b)(Plan&, Longest const*) = &long_call<Longest, Deep<1>, Longest>; NAMES[21] = readable(reinterpret_cast<void*>(a)); NAMES[22] = readable(reinterpret_cast<void*>(b)); }
std::vector<std::string> expected(Plan const& p) { std::vector<std::string> e{BOTTOM}; for (size_t k = p.kinds.size(); k-- > 0;) { e.push_back(NEXT); if (p.kinds[k] >= 23) { e.push_back("never_returns(Plan&)"); mon::event("calls which never return"); } e.push_back(NAMES[p.kinds[k]]); } e.push_back(NEXT); return e; }
std::vector<std::string> lines(std::string const& s) { std::vector<std::string> v; size_t a = 0; for (size_t b; (b = s.find('\n', a)) != std::string::npos; a = b + 1) v.push_back(s.substr(a, b - a)); if (a < s.size()) v.push_back(s.substr(a) + "<no end of line>"); return v; }
Plan plan(Rng& r) {
    Plan p; size_t n; switch (r.chance(1, 30) ? 9 : r.below(5)) { case 9: n = 1200 + r.below(1000); mon::event("very deep chains"); break; case 0: n = r.below(3); break; case 1: n = 55 + r.below(12); break; case 2: n = r.below(400); break; default: n = r.below(25); } int same = r.chance(1, 5) ? static_cast<int>(r.below(KINDS)) : -1; for (size_t k = 0; k < n; ++k) p.kinds.push_back(same >= 0 ? same : static_cast<int>(r.below(KINDS)));
    p.throwing = r.chance(1, 3); std::string s; for (int k : p.kinds) if (s.size() < 600) s += static_cast<char>('a' + k); mon::log("chain %s%s", s.c_str(), p.throwing ? " in a handler" : ""); return p;
}
// One captured trace against the plan
void judge(Plan const& p, std::vector<std::string> const& l, char const* where) {
    auto show = [&] { std::string s; for (size_t k = 0; k < l.size() && k < 12; ++k) s += (k ? " | " : "") + l[k]; return s; };
    MON_CHECK(!l.empty(), "nothing", where << " nothing is written"); std::vector<std::string> e = expected(p); size_t first = 0; while (first < l.size() && l[first] != BOTTOM) ++first;
    MON_CHECK(first < l.size() && first <= 3, "caller", where << " the caller is not among the first lines: " << show());
    size_t compared = 0; for (size_t k = 0; k < e.size() && first + k < l.size(); ++k) { std::string const& x = l[first + k]; MON_CHECK(e[k].empty() ? !x.empty() && x.find("_Z") == std::string::npos : x == e[k], "name", where << " line " << first + k << " is '" << x << "' instead of '" << (e[k].empty() ? "a frame without name" : e[k]) << "'"); ++compared; }
    mon::event("frames", compared); MON_CHECK(compared == e.size() || compared >= 100, "short", where << " only " << compared << " of the " << e.size() << " innermost calls are written");
    if (p.frames < 110) MON_CHECK(l.size() == static_cast<size_t>(p.frames) + first, "count", where << " " << l.size() << " lines are written for " << p.frames << " calls: " << show());
    for (auto const& x : l) for (unsigned char c : x) MON_CHECK(c >= 0x20 && c < 0x7f, "text", where << " a line contains the character " << static_cast<int>(c));
}
void run_plan(Plan& p, std::string& err, std::string& out, bool& good) { mon::Untracked u; Capture c; p.next(); good = std::cerr.good() && std::cout.good(); std::cerr.clear(); std::cerr.flush(); fflush(stderr); err = c.text(1); out = c.text(0); }
void check(Plan& p, char const* where) {
    std::string err, out; bool good; auto fl = std::cerr.flags(); auto fill = std::cerr.fill(); auto prec = std::cerr.precision(); auto buf = std::cerr.rdbuf(); run_plan(p, err, out, good); mon::event("traces");
    MON_CHECK(good, "stream", where << " the error stream is in a failed state"); MON_CHECK(std::cerr.flags() == fl && std::cerr.fill() == fill && std::cerr.precision() == prec && std::cerr.rdbuf() == buf, "format", where << " the format of the error stream was changed"); MON_CHECK(out.empty(), "stdout", where << " '" << out << "' is written to the output stream");
    if (!enabled) { MON_CHECK(err.empty(), "disabled", where << " '" << err << "' is written although traces are disabled"); return; }
    std::vector<std::string> l = lines(err); MON_CHECK(l.size() % static_cast<size_t>(p.calls) == 0, "count", where << " " << l.size() << " lines are written by " << p.calls << " calls"); size_t per = l.size() / static_cast<size_t>(p.calls); for (int k = 0; k < p.calls; ++k) judge(p, {l.begin() + static_cast<long>(per * k), l.begin() + static_cast<long>(per * (k + 1))}, where);
}
MON_SUITE_NOLEAK(chains, 250, 12000) { Plan p = plan(rng); p.calls = rng.chance(1, 6) ? 3 : 1; mon::nontrivial(); check(p, p.throwing ? "in a handler" : "in a chain of calls"); MON_CHECK(std::uncaught_exceptions() == 0, "exception", "an exception is in flight"); }
MON_SUITE_NOLEAK(threads, 40, 2000) { Plan p = plan(rng); if (p.kinds.size() > 100) p.kinds.resize(100); mon::nontrivial(); mon::log("in a thread"); std::exception_ptr e; pthread_attr_t a; pthread_attr_init(&a);
#ifndef MON_ASAN
    pthread_attr_setstacksize(&a, 131072);
#endif
    struct Arg { Plan* p; std::exception_ptr* e; } arg{&p, &e}; pthread_t t; pthread_create(&t, &a, [](void* v) -> void* { Arg* x = static_cast<Arg*>(v); try { check(*x->p, "in a thread"); } catch (...) { *x->e = std::current_exception(); } return nullptr; }, &arg); pthread_join(t, nullptr); pthread_attr_destroy(&a); if (e) std::rethrow_exception(e); }
struct AtUnwind { Plan& p; std::exception_ptr& e; ~AtUnwind() { try { check(p, "while an exception unwinds the stack"); } catch (...) { e = std::current_exception(); } } };
MON_SUITE_NOLEAK(unwinding, 40, 2000) { Plan p = plan(rng); mon::nontrivial(); mon::log("unwinding"); std::exception_ptr e; int got = 0; try { AtUnwind u{p, e}; throw Signal{3}; } catch (Signal const& s) { got = s.n; } if (e) std::rethrow_exception(e); MON_CHECK(got == 3, "exception", "the exception in flight was lost"); }
MON_SUITE_NOLEAK(formats, 60, 3000) {  // whatever the state of the stream and of the program
    Plan p = plan(rng); mon::nontrivial(); auto fl = std::cerr.flags(); int k = static_cast<int>(rng.below(5)); mon::log("state %d", k);
    switch (k) { case 0: std::cerr << std::hex << std::showbase << std::uppercase; break; case 1: std::cerr << std::left << std::boolalpha; break; case 2: std::cerr << std::scientific; std::cerr.precision(3); break; case 3: std::cerr << std::nounitbuf; break; default: errno = 5; }
    auto restore = [&] { std::cerr.flags(fl); std::cerr.precision(6); }; try { check(p, "with another format"); } catch (...) { restore(); throw; } restore();
}
// An error stream which the program has redirected
MON_SUITE_NOLEAK(redirected, 40, 2000) {
    Plan p = plan(rng); mon::nontrivial(); mon::log("redirected"); std::string err, out, text; bool good; { mon::Untracked u; std::ostringstream os; { Capture c; auto* old = std::cerr.rdbuf(os.rdbuf()); p.next(); good = std::cerr.good(); std::cerr.rdbuf(old); std::cerr.clear(); fflush(stderr); err = c.text(1); out = c.text(0); } text = os.str(); }
    if (err.find("Sanitizer") != std::string::npos) { ssize_t k = write(2, err.data(), err.size()); (void)k; }
    MON_CHECK(good && out.empty() && err.empty(), "redirected", "with a redirected error stream '" << (err + out).substr(0, 200) << "' is written elsewhere, or the stream fails"); if (enabled) judge(p, lines(text), "with a redirected error stream"); else MON_CHECK(text.empty(), "disabled", "something is written although traces are disabled"); mon::event("traces");
}
MON_SUITE_NOLEAK(closed, 10, 200) {  // no error stream to write to
    Plan p = plan(rng); mon::nontrivial(); mon::log("with a closed error stream"); std::cerr.flush(); int keep = dup(2); int how = static_cast<int>(rng.below(2)); if (how) close(2); else { int f = open("/dev/full", O_WRONLY); dup2(f, 2); close(f); } p.next(); std::cerr.clear(); dup2(keep, 2); close(keep); MON_CHECK(p.at == p.kinds.size() && std::cerr.good(), "closed", "the call with a closed error stream does not return normally"); mon::event("traces");
}
MON_SUITE_NOLEAK(memory, 12, 300) {  // what many traces leave behind
    Plan p = plan(rng); if (p.kinds.size() > 80) p.kinds.resize(80); p.throwing = false; p.calls = 1; mon::nontrivial(); std::string a, b; bool g; auto once = [&] { mon::Untracked u; Capture c; p.at = 0; p.next(); }; once(); once(); int files = open_files(); size_t before = in_use(); long blocks = mon::live_blocks.load(); long const n = 40; for (long k = 0; k < n; ++k) once(); long grown = static_cast<long>(in_use()) - static_cast<long>(before);
    MON_CHECK(grown < n * 8, "leak", grown << " bytes remain allocated by " << n << " traces of " << p.frames << " calls"); MON_CHECK(open_files() == files, "files", "files remain open"); MON_CHECK(mon::live_blocks.load() == blocks, "leak", "objects remain allocated"); mon::event("traces", n);
}
MON_SUITE_NOLEAK(together, 8, 400) {  // several threads at once
    size_t n = 2 + rng.below(4); std::vector<Plan> ps; for (size_t k = 0; k < n; ++k) { ps.push_back(plan(rng)); ps.back().calls = 4; } mon::nontrivial(); std::string err, out; bool good;
    { mon::Untracked u; Capture c; { std::atomic<size_t> ready{0}; std::vector<std::thread> ts; for (size_t k = 0; k < n; ++k) ts.emplace_back([&, k] { ++ready; while (ready < n) sched_yield(); ps[k].next(); }); for (auto& t : ts) t.join(); } good = std::cerr.good(); err = c.text(1); out = c.text(0); }
    if (err.find("Sanitizer") != std::string::npos) { ssize_t k = write(2, err.data(), err.size()); (void)k; }
    mon::event("concurrent traces", 4 * n); MON_CHECK(good, "stream", "after traces in several threads the error stream is in a failed state"); MON_CHECK(out.empty(), "stdout", "something is written to the output stream"); if (!enabled) { MON_CHECK(err.empty(), "disabled", "something is written although traces are disabled"); return; }
    size_t want = 0, got = static_cast<size_t>(std::count(err.begin(), err.end(), '\n')), least = 0; for (auto& p : ps) { least += 4 * std::min<size_t>(100, p.frames); want += 4 * (p.frames + 3); } MON_CHECK(got >= least && got <= want, "count", got << " lines are written by traces in several threads, instead of " << least << " to " << want);
    for (unsigned char ch : err) MON_CHECK((ch >= 0x20 && ch < 0x7f) || ch == '\n', "text", "the character " << static_cast<int>(ch) << " is written");
    size_t bottoms = 0; for (size_t k = err.find("Plan::bottom()"); k != std::string::npos; k = err.find("Plan::bottom()", k + 1)) ++bottoms; MON_CHECK(bottoms == 4 * n, "caller", bottoms << " callers are named by " << 4 * n << " traces in several threads");
}
int main(int c, char** v) { long_names(); { Capture k; void* f[4]; backtrace(f, 4); Plan p; p.next(); } mon::require("traces", 400); mon::require("very deep chains", 2); mon::require("concurrent traces", 40); if (enabled) mon::require("frames", 5000); return mon::main(c, v); }
