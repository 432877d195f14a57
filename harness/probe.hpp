// An element type which watches its own lifetime: every construction, copy, assignment and destruction is checked
// against a registry of live objects, and can be made to throw at a chosen point.
#ifndef VERIF_PROBE_HPP
#define VERIF_PROBE_HPP
#include "mon.hpp"

namespace mon {

struct ProbeError : std::runtime_error { ProbeError() : std::runtime_error("injected element failure") {} };

struct ProbeStats {
    std::unordered_set<void const*> live;
    std::mutex m;
    long throw_after = -1;  // the operation after this many more throws
    bool threw = false;
    unsigned injections = 0;
    uint64_t constructed = 0, destroyed = 0, copied = 0, assigned = 0;
};
inline ProbeStats& ps() {
    static ProbeStats* s = [] { Untracked u; return new ProbeStats; }();
    return *s;
}
// every second injected failure throws an object which is not a std::exception
inline void may_throw_element() { if (ps().throw_after >= 0 && ps().throw_after-- == 0) { ps().threw = true; if (++ps().injections % 2 == 0) throw ForeignError(); throw ProbeError(); } }
struct FailElement {
    explicit FailElement(long n) { ps().throw_after = n; ps().threw = false; }
    ~FailElement() { ps().throw_after = -1; }
    bool fired() const { return ps().threw; }
};

// NothrowMove: moves cannot fail, and take the heap memory along
template<size_t Align = 8, bool NothrowMove = false> struct alignas(Align) BasicProbe {
    static constexpr int DEFAULT = 770077;
    static constexpr int MOVED = -990099;
    int v;
    unsigned magic;
    BasicProbe const* self;
    int* extra;  // heap memory of its own, so that a lost destructor is a leak and a double one a double free

    static void may_throw() { may_throw_element(); }
    void born(int x) {
        v = x; magic = 0xA11FEu; self = this;
        if (reinterpret_cast<uintptr_t>(this) % alignof(BasicProbe) != 0) violate("element-misaligned", "an element is constructed at an address which is not aligned for its type");
        { Untracked u; std::lock_guard<std::mutex> l(ps().m); ++ps().constructed;
          if (!ps().live.insert(this).second) { violate("element-constructed-over-live", "an element is constructed where one lives already"); } }
    }
    void must_live(char const* what) const {
        bool ok; { Untracked u; std::lock_guard<std::mutex> l(ps().m); ok = ps().live.count(this) != 0; }
        if (!ok) { violate(std::string("dead-element-") + what, std::string("an element which does not live is ") + what); }
        else if (magic != 0xA11FEu || self != this) violate(std::string("corrupt-element-") + what, std::string("an element with corrupt state is ") + what);
    }
    BasicProbe() { may_throw(); extra = new int(7); born(DEFAULT); }
    BasicProbe(int x) { may_throw(); extra = new int(7); born(x); }
    BasicProbe(int x, long scale) { may_throw(); extra = new int(7); born(static_cast<int>(x * scale)); }
    BasicProbe(BasicProbe const& o) { o.must_live("copied"); may_throw(); extra = new int(7); ++ps().copied; born(o.v); }
    BasicProbe(BasicProbe&& o) noexcept(NothrowMove) { o.must_live("moved"); if constexpr (NothrowMove) { extra = o.extra; o.extra = nullptr; } else { may_throw(); extra = new int(7); } ++ps().copied; born(o.v); o.v = MOVED; }
    BasicProbe& operator=(BasicProbe const& o) { must_live("assigned-to"); o.must_live("copied"); may_throw(); ++ps().assigned; v = o.v; return *this; }
    BasicProbe& operator=(BasicProbe&& o) noexcept(NothrowMove) { must_live("assigned-to"); o.must_live("moved"); if constexpr (!NothrowMove) may_throw(); ++ps().assigned; v = o.v; if (&o != this) o.v = MOVED; return *this; }
    ~BasicProbe() {
        must_live("destroyed");
        { Untracked u; std::lock_guard<std::mutex> l(ps().m); ++ps().destroyed; ps().live.erase(this); }
        magic = 0xDEAD; self = nullptr;
        delete extra; extra = nullptr;
    }
    int get() const { must_live("read"); return v; }
    friend bool operator==(BasicProbe const& a, BasicProbe const& b) { return a.get() == b.get(); }
    friend bool operator!=(BasicProbe const& a, BasicProbe const& b) { return a.get() != b.get(); }
    friend bool operator<(BasicProbe const& a, BasicProbe const& b) { return a.get() < b.get(); }
    friend std::ostream& operator<<(std::ostream& os, BasicProbe const& p) { return os << p.get(); }
};
using Probe = BasicProbe<8>;
using WideProbe = BasicProbe<64>;

// Elements of the size of a value of type V and nothing else: only the registry knows which ones live.
// NothrowCopy: copies cannot fail, but other constructions can.
template<class V, bool NothrowCopy = false> struct SmallProbe {
    V v;
    static void may_throw() { may_throw_element(); }
    void born() { if (reinterpret_cast<uintptr_t>(this) % alignof(SmallProbe) != 0) violate("element-misaligned", "an element is constructed at an address which is not aligned for its type"); Untracked u; std::lock_guard<std::mutex> l(ps().m); ++ps().constructed; if (!ps().live.insert(this).second) violate("element-constructed-over-live", "an element is constructed where one lives already"); }
    void must_live(char const* what) const { bool ok; { Untracked u; std::lock_guard<std::mutex> l(ps().m); ok = ps().live.count(this) != 0; } if (!ok) violate(std::string("dead-element-") + what, std::string("an element which does not live is ") + what); }
    SmallProbe() : v(V(99)) { may_throw(); born(); }
    SmallProbe(int x) : v(static_cast<V>(x)) { may_throw(); born(); }
    SmallProbe(int x, long scale) : v(static_cast<V>(x * scale)) { may_throw(); born(); }
    SmallProbe(SmallProbe const& o) noexcept(NothrowCopy) : v((o.must_live("copied"), o.v)) { if constexpr (!NothrowCopy) may_throw(); ++ps().copied; born(); }
    SmallProbe& operator=(SmallProbe const& o) { must_live("assigned-to"); o.must_live("copied"); may_throw(); ++ps().assigned; v = o.v; return *this; }
    ~SmallProbe() { must_live("destroyed"); Untracked u; std::lock_guard<std::mutex> l(ps().m); ++ps().destroyed; ps().live.erase(this); }
    int get() const { must_live("read"); return static_cast<int>(v); }
    friend bool operator==(SmallProbe const& a, SmallProbe const& b) { return a.get() == b.get(); }
    friend bool operator!=(SmallProbe const& a, SmallProbe const& b) { return a.get() != b.get(); }
    friend bool operator<(SmallProbe const& a, SmallProbe const& b) { return a.get() < b.get(); }
    friend std::ostream& operator<<(std::ostream& os, SmallProbe const& p) { return os << p.get(); }
};
// Elements without any state
struct EmptyProbe {
    static void may_throw() { may_throw_element(); }
    void born() { Untracked u; std::lock_guard<std::mutex> l(ps().m); ++ps().constructed; if (!ps().live.insert(this).second) violate("element-constructed-over-live", "an element is constructed where one lives already"); }
    void must_live(char const* what) const { bool ok; { Untracked u; std::lock_guard<std::mutex> l(ps().m); ok = ps().live.count(this) != 0; } if (!ok) violate(std::string("dead-element-") + what, std::string("an element which does not live is ") + what); }
    EmptyProbe() { may_throw(); born(); }
    EmptyProbe(int) { may_throw(); born(); }
    EmptyProbe(EmptyProbe const& o) { o.must_live("copied"); may_throw(); ++ps().copied; born(); }
    EmptyProbe& operator=(EmptyProbe const& o) { must_live("assigned-to"); o.must_live("copied"); may_throw(); ++ps().assigned; return *this; }
    ~EmptyProbe() { must_live("destroyed"); Untracked u; std::lock_guard<std::mutex> l(ps().m); ++ps().destroyed; ps().live.erase(this); }
    int get() const { must_live("read"); return 0; }
    friend bool operator==(EmptyProbe const&, EmptyProbe const&) { return true; }
    friend bool operator!=(EmptyProbe const&, EmptyProbe const&) { return false; }
};

inline void install_probe_monitor() {
    at_case_start().push_back([] { Untracked u; ps().live.clear(); ps().throw_after = -1; ps().threw = false; });
    at_case_end().push_back([] {
        if (!ps().live.empty()) violate("element-not-destroyed", std::to_string(ps().live.size()) + " elements are still alive after all their containers are gone");
    });
}
}  // namespace mon
#endif
