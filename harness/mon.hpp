// Runtime-monitoring support shared by all harnesses of /verif.
//
// A harness is a list of suites.  A suite runs numbered cases; each case is generated from (seed, suite, case number)
// alone, drives the code under test through its public interface, and is judged by oracles which call MON_CHECK.
// Everything a case does is logged to a memory-mapped file, so that the history survives a crash, a sanitizer report
// or a hang.  Violations and statistics are written as JSON lines to the file given by --out.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP

#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define MON_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#ifdef MON_ASAN
#include <sanitizer/asan_interface.h>
#endif

namespace mon {

// ---------------------------------------------------------------- monitor-private memory
// Allocations made by the monitor itself are neither counted nor failed.
inline thread_local int untracked_depth = 0;
struct Untracked {
    Untracked() { ++untracked_depth; }
    ~Untracked() { --untracked_depth; }
    Untracked(Untracked const&) = delete;
};

// ---------------------------------------------------------------- random numbers
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {  // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double real() { return static_cast<double>(next() >> 11) * 0x1p-53; }
    template<class T> typename std::vector<T>::const_reference pick(std::vector<T> const& v) { return v[below(v.size())]; }
    // a size around one of the powers of two up to the limit, where buffers, counters and fast paths change
    size_t edge(size_t limit) {
        size_t top = 0;
        while ((size_t(2) << top) <= limit) ++top;
        size_t n = (size_t(1) << below(top + 1)) + static_cast<size_t>(below(5));
        n = n < 2 ? 0 : n - 2;
        return n > limit ? limit : n;
    }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b); r.next(); return r.next() ^ b; }
inline uint64_t hash_bytes(char const* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    for (size_t i = 0; i < n; ++i) { h ^= static_cast<unsigned char>(p[i]); h *= 0x100000001b3ull; }
    return h;
}

// ---------------------------------------------------------------- the case log (survives a crash)
constexpr size_t LOG_SIZE = 1u << 16;
struct LogPage {
    char suite[64];
    uint64_t case_no;
    uint64_t used;
    uint64_t total;
    char text[LOG_SIZE];
};
inline LogPage* page = nullptr;

struct CaseAbort {};

struct State {
    uint64_t seed = 1;
    bool thorough = false;
    long scale = 100;
    std::string only_suite;
    long only_case = -1;
    std::string out = "/dev/stdout";
    std::string hashes;
    std::string variant = "?";
    FILE* of = nullptr;
    std::mutex m;
    std::map<std::string, uint64_t> events;
    std::unordered_set<uint64_t> distinct;
    std::unordered_set<std::string> keys;
    std::vector<std::string> samples;
    uint64_t cases = 0, checks = 0, nontrivial_cases = 0;
    uint64_t case_hash = 0;
    bool case_nontrivial = false;
    bool case_violated = false;
    int violations = 0;
    std::string suite;
    uint64_t case_no = 0;
    std::map<std::string, uint64_t> required;
};
inline State& st() {
    static State* s = [] { Untracked u; return new State; }();
    return *s;
}

inline std::string json_escape(std::string const& s) {
    std::string r;
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}

inline void log_raw(char const* b, size_t n) {
    if (!page) return;
    page->total += n;
    st().case_hash = hash_bytes(b, n, st().case_hash);
    size_t used = page->used;
    if (used + n > LOG_SIZE) {  // keep the head of the history, drop its middle
        size_t keep = LOG_SIZE / 2;
        if (n > LOG_SIZE / 4) { b += n - LOG_SIZE / 4; n = LOG_SIZE / 4; }
        std::memmove(page->text + keep, page->text + keep + LOG_SIZE / 4, LOG_SIZE - keep - LOG_SIZE / 4);
        used = LOG_SIZE - LOG_SIZE / 4 < used ? LOG_SIZE - LOG_SIZE / 4 : used;
    }
    std::memcpy(page->text + used, b, n);
    page->used = used + n;
}
// Log one step of a history, printf-style.  Call it before the step is made.  Single-threaded cases only.
__attribute__((format(printf, 1, 2))) inline void log(char const* f, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, f);
    int n = std::vsnprintf(b, sizeof b - 2, f, ap);
    va_end(ap);
    if (n < 0) return;
    size_t k = static_cast<size_t>(n) < sizeof b - 2 ? static_cast<size_t>(n) : sizeof b - 3;
    b[k++] = ';';
    log_raw(b, k);
}

inline void event(char const* name, uint64_t n = 1) {
    Untracked u;
    std::lock_guard<std::mutex> l(st().m);
    st().events[name] += n;
}
// The run is inconclusive unless this event was observed at least n times.
inline void require(char const* name, uint64_t n = 1) {
    Untracked u;
    st().required[name] = n;
}
// Marks the current case as non-trivial, in the sense of the property's rule.
inline void nontrivial() { st().case_nontrivial = true; }

inline std::string current_history() { return page ? std::string(page->text, page->used) : std::string(); }

// Records a violation; does not throw.
inline void violate(std::string const& key, std::string const& detail) {
    Untracked u;
    std::lock_guard<std::mutex> l(st().m);
    st().case_violated = true;
    ++st().violations;
    if (!st().keys.insert(key).second) return;
    std::fprintf(st().of, "{\"t\":\"violation\",\"key\":\"%s\",\"suite\":\"%s\",\"case\":%" PRIu64 ",\"detail\":\"%s\",\"history\":\"%s\"}\n",
                 json_escape(key).c_str(), json_escape(st().suite).c_str(), st().case_no, json_escape(detail).c_str(),
                 json_escape(current_history()).c_str());
    std::fflush(st().of);
}
// Records a violation found in a place which cannot be left by an exception, and stops the process.
[[noreturn]] inline void violate_and_die(std::string const& key, std::string const& detail) {
    violate(key, detail);
    _exit(10);
}

inline void count_check() { ++st().checks; }

#define MON_CHECK(cond, key, detail_stream)                             \
    do {                                                                \
        mon::count_check();                                             \
        bool mon_ok_;                                                   \
        { mon_ok_ = static_cast<bool>(cond); }                          \
        if (!mon_ok_) {                                                 \
            mon::Untracked mon_u_;                                      \
            std::ostringstream mon_os_;                                 \
            mon_os_ << detail_stream;                                   \
            mon::violate(key, mon_os_.str());                           \
            throw mon::CaseAbort();                                     \
        }                                                               \
    } while (0)

// ---------------------------------------------------------------- tracked allocation
inline std::atomic<long> live_blocks{0};
inline std::atomic<long> live_bytes{0};
inline std::atomic<long> total_allocs{0};
inline thread_local long fail_after = -1;  // fail the allocation made after this many more tracked ones
inline thread_local bool alloc_failed = false;

// Fails the n-th allocation (from 0) which the code makes while this object lives.
struct FailAlloc {
    explicit FailAlloc(long n) { fail_after = n; alloc_failed = false; }
    ~FailAlloc() { fail_after = -1; }
    bool fired() const { return alloc_failed; }
};

// ---------------------------------------------------------------- suites
struct Suite {
    char const* name;
    long quick_cases;
    long thorough_cases;
    std::function<void(Rng&)> body;
    bool check_leaks = true;
};
inline std::vector<Suite>& suites() {
    static std::vector<Suite>* s = [] { Untracked u; return new std::vector<Suite>; }();
    return *s;
}
struct Register {
    Register(char const* name, long quick, long thorough, std::function<void(Rng&)> body, bool leaks = true) {
        Untracked u;
        suites().push_back(Suite{name, quick, thorough, std::move(body), leaks});
    }
};
#define MON_SUITE(name, quick, thorough)                                                  \
    static void mon_suite_##name(mon::Rng& rng);                                          \
    static mon::Register mon_reg_##name(#name, quick, thorough, mon_suite_##name);        \
    static void mon_suite_##name([[maybe_unused]] mon::Rng& rng)
#define MON_SUITE_NOLEAK(name, quick, thorough)                                           \
    static void mon_suite_##name(mon::Rng& rng);                                          \
    static mon::Register mon_reg_##name(#name, quick, thorough, mon_suite_##name, false); \
    static void mon_suite_##name([[maybe_unused]] mon::Rng& rng)

// Hooks that run at the end of every case which did not already violate anything.
inline std::vector<std::function<void()>>& at_case_end() {
    static auto* v = [] { Untracked u; return new std::vector<std::function<void()>>; }();
    return *v;
}
inline std::vector<std::function<void()>>& at_case_start() {
    static auto* v = [] { Untracked u; return new std::vector<std::function<void()>>; }();
    return *v;
}

inline void run_body(Suite const& s, uint64_t c) {
    Rng rng(mix(mix(st().seed, hash_bytes(s.name, std::strlen(s.name))), c));
    page->used = 0;
    page->total = 0;
    page->case_no = c;
    st().case_no = c;
    st().case_hash = hash_bytes(s.name, std::strlen(s.name));
    st().case_nontrivial = false;
    st().case_violated = false;
    for (auto& f : at_case_start()) f();
    try {
        s.body(rng);
    } catch (CaseAbort const&) {
    } catch (std::exception const& e) {
        Untracked u;
        violate(std::string("unexpected-exception/") + s.name, std::string("exception escaped: ") + e.what());
    } catch (...) {
        violate(std::string("unexpected-exception/") + s.name, "exception of unknown type escaped");
    }
    if (!st().case_violated)
        for (auto& f : at_case_end()) f();
}

inline void run_case(Suite const& s, uint64_t c) {
    long before = live_blocks.load();
    run_body(s, c);
    if (!st().case_violated && s.check_leaks && live_blocks.load() != before) {
        // Lazily created state of the standard library is allocated once: only a leak which repeats is a leak.
        long b2 = live_blocks.load(), y2 = live_bytes.load();
        run_body(s, c);
        long a2 = live_blocks.load();
        if (!st().case_violated && a2 != b2) {
            Untracked u;
            violate(std::string("leak/") + s.name, std::to_string(a2 - b2) + " blocks (" + std::to_string(live_bytes.load() - y2) +
                                                       " bytes) allocated by the case are not released at its end");
        }
    }
    Untracked u;
    ++st().cases;
    if (st().case_nontrivial) {
        ++st().nontrivial_cases;
        if (st().distinct.size() < 400000) st().distinct.insert(st().case_hash);
        if (st().samples.size() < 4 && page->used > 0 && (c == 0 || c == 7 || c == 23)) {
            std::string h = current_history();
            if (h.size() > 400) h = h.substr(0, 400) + "...";
            st().samples.push_back(std::string(s.name) + "#" + std::to_string(c) + ": " + h);
        }
    }
}

inline int main(int argc, char** argv) {
    std::string pagefile;
    {
        Untracked u;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--seed") st().seed = std::strtoull(v.c_str(), nullptr, 10);
            else if (a == "--tier") st().thorough = v == "thorough";
            else if (a == "--scale") st().scale = std::atol(v.c_str());
            else if (a == "--suite") st().only_suite = v;
            else if (a == "--case") st().only_case = std::atol(v.c_str());
            else if (a == "--out") st().out = v;
            else if (a == "--hashes") st().hashes = v;
            else if (a == "--page") pagefile = v;
            else if (a == "--variant") st().variant = v;
        }
        st().of = std::fopen(st().out.c_str(), "w");
        if (!st().of) return 3;
        int fd = -1;
        if (!pagefile.empty()) {
            fd = open(pagefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
            if (fd < 0 || ftruncate(fd, sizeof(LogPage)) != 0) return 3;
        }
        void* p = mmap(nullptr, sizeof(LogPage), PROT_READ | PROT_WRITE, fd < 0 ? MAP_PRIVATE | MAP_ANONYMOUS : MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) return 3;
        page = static_cast<LogPage*>(p);
    }
    for (auto const& s : suites()) {
        if (!st().only_suite.empty() && st().only_suite != s.name) continue;
        std::snprintf(page->suite, sizeof page->suite, "%s", s.name);
        { Untracked u; st().suite = s.name; }
        long n = st().thorough ? s.thorough_cases : s.quick_cases;
        if (n > 1) { n = n * st().scale / 100; if (n < 1) n = 1; }
        for (long c = 0; c < n; ++c) {
            if (st().only_case >= 0 && c != st().only_case) continue;
            run_case(s, static_cast<uint64_t>(c));
            if (st().violations > 200) break;
        }
    }
    Untracked u;
    bool enough = true;
    if (st().only_suite.empty() && st().only_case < 0 && st().scale >= 100)
        for (auto const& r : st().required)
            if (st().events[r.first] < r.second) {
                enough = false;
                std::fprintf(st().of, "{\"t\":\"unobserved\",\"event\":\"%s\",\"seen\":%" PRIu64 ",\"needed\":%" PRIu64 "}\n",
                             json_escape(r.first).c_str(), st().events[r.first], r.second);
            }
    std::fprintf(st().of, "{\"t\":\"summary\",\"cases\":%" PRIu64 ",\"checks\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"distinct\":%zu,\"violations\":%d,\"allocs\":%ld,\"events\":{",
                 st().cases, st().checks, st().nontrivial_cases, st().distinct.size(), st().violations, total_allocs.load());
    bool first = true;
    for (auto const& e : st().events) {
        std::fprintf(st().of, "%s\"%s\":%" PRIu64, first ? "" : ",", json_escape(e.first).c_str(), e.second);
        first = false;
    }
    std::fprintf(st().of, "},\"samples\":[");
    first = true;
    for (auto const& s : st().samples) {
        std::fprintf(st().of, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str());
        first = false;
    }
    std::fprintf(st().of, "]}\n");
    std::fclose(st().of);
    if (!st().hashes.empty())
        if (FILE* f = std::fopen(st().hashes.c_str(), "wb")) {
            for (uint64_t h : st().distinct) std::fwrite(&h, sizeof h, 1, f);
            std::fclose(f);
        }
    if (st().violations) return 10;
    return enough ? 0 : 4;
}

// Runs f and says how it ended.
enum class Outcome { returned, threw_runtime, threw_std, threw_other, threw_bad_alloc, threw_bad_cast, threw_out_of_range, threw_ios };
// An injected failure which is not a std::exception counts as the runtime_error which other injected failures are.
struct ForeignError {};
template<class F> Outcome attempt(F&& f, std::string* what = nullptr) {
    auto note = [&](char const* w) { if (what) { Untracked u; *what = w; } };
    try { f(); return Outcome::returned; }
    catch (CaseAbort const&) { throw; }
    catch (std::bad_alloc const& e) { note(e.what()); return Outcome::threw_bad_alloc; }
    catch (std::bad_cast const& e) { note(e.what()); return Outcome::threw_bad_cast; }
    catch (std::ios_base::failure const& e) { note(e.what()); return Outcome::threw_ios; }
    catch (std::out_of_range const& e) { note(e.what()); return Outcome::threw_out_of_range; }
    catch (std::runtime_error const& e) { note(e.what()); return Outcome::threw_runtime; }
    catch (std::exception const& e) { note(e.what()); return Outcome::threw_std; }
    catch (ForeignError const&) { note("injected"); return Outcome::threw_runtime; }
    catch (...) { return Outcome::threw_other; }
}
inline char const* name(Outcome o) {
    switch (o) {
        case Outcome::returned: return "returned";
        case Outcome::threw_runtime: return "threw runtime_error";
        case Outcome::threw_std: return "threw a std::exception";
        case Outcome::threw_other: return "threw another type";
        case Outcome::threw_bad_alloc: return "threw bad_alloc";
        case Outcome::threw_bad_cast: return "threw bad_cast";
        case Outcome::threw_out_of_range: return "threw out_of_range";
        case Outcome::threw_ios: return "threw ios_base::failure";
        default: return "?";
    }
}
template<class V> std::string show(V const& v) {
    Untracked u;
    std::ostringstream os;
    os << "[";
    bool first = true;
    for (auto const& x : v) { if (!first) os << ","; first = false; os << x; }
    os << "]";
    return os.str();
}

}  // namespace mon

// ---------------------------------------------------------------- replacement of the global allocation functions
#ifndef MON_NO_ALLOC
namespace mon {
struct Hdr {
    uint64_t magic;
    size_t size;
    void* raw;
    uint32_t align;
    uint16_t kind;  // 1: new, 2: new[]
    uint16_t tagged;
};
static_assert(sizeof(Hdr) == 32);
constexpr uint64_t MAGIC_LIVE = 0x11fe11fe11fe11feull, MAGIC_DEAD = 0xdeaddeaddeaddeadull;
constexpr size_t TAIL = 16;

inline void* allocate(size_t n, size_t align, uint16_t kind, bool nothrow) {
    bool tagged = untracked_depth == 0;
    if (tagged) {
        total_allocs.fetch_add(1, std::memory_order_relaxed);
        if (fail_after >= 0 && fail_after-- == 0) {
            alloc_failed = true;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    if (n > (size_t(1) << 33)) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    size_t const asked = align;  // 0 for storage which is not over-aligned
    if (align < 16) align = 16;
    size_t off = (sizeof(Hdr) + align - 1) / align * align;
    void* raw = nullptr;
    if (posix_memalign(&raw, align, off + n + TAIL) != 0) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    char* p = static_cast<char*>(raw) + off;
    Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
    *h = Hdr{MAGIC_LIVE, n, raw, static_cast<uint32_t>(asked), kind, static_cast<uint16_t>(tagged)};
    std::memset(p, 0xA5, n);
    std::memset(p + n, 0xC3, TAIL);
#ifdef MON_ASAN
    __asan_poison_memory_region(h, sizeof(Hdr));
    __asan_poison_memory_region(p + n, TAIL);
#endif
    if (tagged) {
        live_blocks.fetch_add(1, std::memory_order_relaxed);
        if (live_bytes.fetch_add(static_cast<long>(n), std::memory_order_relaxed) > (3l << 30))
            violate_and_die("runaway-allocation", "more than 3 GiB are live: the code allocates without bound");
    }
    return p;
}
inline void release(void* p, long size, size_t align, uint16_t kind) {
    if (!p) return;
    Hdr* h = static_cast<Hdr*>(p) - 1;
#ifdef MON_ASAN
    if (__asan_address_is_poisoned(static_cast<char*>(p)) && !__asan_address_is_poisoned(h)) {}
    __asan_unpoison_memory_region(h, sizeof(Hdr));
#endif
    if (h->magic == MAGIC_DEAD) violate_and_die("double-free", "storage is released twice");
    if (h->magic != MAGIC_LIVE) violate_and_die("bad-free", "released storage was not allocated, or was overwritten before its start");
    if (h->kind != kind) violate_and_die("new-delete-mismatch", "storage allocated by new is released by delete[], or the reverse");
    if (size >= 0 && static_cast<size_t>(size) != h->size)
        violate_and_die("delete-size-mismatch", "an object of " + std::to_string(h->size) + " bytes is deleted as one of " + std::to_string(size) + " bytes");
    if (align != 0 && align != h->align) violate_and_die("delete-align-mismatch", "storage is released with another alignment");
    if (align == 0 && h->align != 0) violate_and_die("delete-align-mismatch", "over-aligned storage is released as if it were not");
#ifdef MON_ASAN
    __asan_unpoison_memory_region(static_cast<char*>(p) + h->size, TAIL);
#endif
    for (size_t i = 0; i < TAIL; ++i)
        if (static_cast<unsigned char*>(p)[h->size + i] != 0xC3) violate_and_die("heap-overflow", "storage was written past its end");
    if (h->tagged) {
        live_blocks.fetch_sub(1, std::memory_order_relaxed);
        live_bytes.fetch_sub(static_cast<long>(h->size), std::memory_order_relaxed);
    }
    h->magic = MAGIC_DEAD;
#ifndef MON_ASAN
    std::memset(p, 0x5A, h->size);
#endif
    std::free(h->raw);
}
}  // namespace mon

void* operator new(size_t n) { return mon::allocate(n, 0, 1, false); }
void* operator new[](size_t n) { return mon::allocate(n, 0, 2, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return mon::allocate(n, 0, 1, true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return mon::allocate(n, 0, 2, true); }
void* operator new(size_t n, std::align_val_t a) { return mon::allocate(n, static_cast<size_t>(a), 1, false); }
void* operator new[](size_t n, std::align_val_t a) { return mon::allocate(n, static_cast<size_t>(a), 2, false); }
void operator delete(void* p) noexcept { mon::release(p, -1, 0, 1); }
void operator delete[](void* p) noexcept { mon::release(p, -1, 0, 2); }
void operator delete(void* p, std::nothrow_t const&) noexcept { mon::release(p, -1, 0, 1); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { mon::release(p, -1, 0, 2); }
void operator delete(void* p, size_t n) noexcept { mon::release(p, static_cast<long>(n), 0, 1); }
void operator delete[](void* p, size_t n) noexcept { mon::release(p, static_cast<long>(n), 0, 2); }
void operator delete(void* p, std::align_val_t a) noexcept { mon::release(p, -1, static_cast<size_t>(a), 1); }
void operator delete[](void* p, std::align_val_t a) noexcept { mon::release(p, -1, static_cast<size_t>(a), 2); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { mon::release(p, static_cast<long>(n), static_cast<size_t>(a), 1); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { mon::release(p, static_cast<long>(n), static_cast<size_t>(a), 2); }
#endif

#endif
