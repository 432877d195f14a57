// C13, threads: each thread uses handles of its own, which share objects with those of other threads.  Oracles: the
// race detector, the values each thread's model prescribes, and the number of objects which live.
#include "mon.hpp"
#include <memory>
#include <thread>
#include <sched.h>
#include <cstdlib>
#include <iostream>
#include "handle.hpp"

using Helper::Handle; using mon::Rng;
std::atomic<long> live{0}, turn{0};
thread_local Rng* delays = nullptr;
inline void delay() { if (!delays) return; uint64_t k = delays->below(16); if (k == 0) sched_yield(); else if (k < 4) for (volatile int i = 0; i < 200 * static_cast<int>(k); i = i + 1) {} }

struct I { virtual ~I() = default; virtual I* clone() const = 0; virtual I* _copy() const = 0; virtual I* _move() = 0; virtual long sum() const = 0; virtual void set(long) = 0; };
struct A : I { long v[4]; explicit A(long x) { live.fetch_add(1, std::memory_order_relaxed); set(x); } A(A const& o) : I(o) { live.fetch_add(1, std::memory_order_relaxed); for (int i = 0; i < 4; ++i) { v[i] = o.v[i]; if (i == 2) delay(); } } ~A() { for (long& x : v) x = -7; live.fetch_sub(1, std::memory_order_relaxed); }
    I* clone() const override { return new A(*this); } I* _copy() const override { return new A(*this); } I* _move() override { return new A(*this); }
    long sum() const override { return v[0] == v[1] && v[1] == v[2] && v[2] == v[3] ? v[0] : -1; } void set(long x) override { for (int i = 0; i < 4; ++i) { v[i] = x; if (i == 1) delay(); } } };

struct Fault { std::atomic<int> which{0}; std::atomic<long> got{0}, want{0}; void report(int w, long g, long x) { int z = 0; if (which.compare_exchange_strong(z, w)) { got = g; want = x; } } };
void worker(uint64_t seed, long id, std::vector<Handle<I>> h, Handle<I> const& shared, long const* start, std::atomic<bool>& go, Fault& fault, std::vector<char>& order) {
    Rng r(seed), d(seed ^ 77); delays = &d; while (!go.load(std::memory_order_relaxed)) {}
    std::vector<long> m(start, start + h.size()); long serial = id * 100000;
    std::vector<Handle<I const>> c; std::vector<long> mc;
    for (int n = 0; n < 60; ++n) {
        size_t i = r.below(h.size()), k = r.below(h.size());
        switch (r.below(9)) {
        case 0: case 1: { long g = std::as_const(h[i]).reference().sum(); if (g != m[i]) fault.report(1, g, m[i]); break; }
        case 2: case 3: { long x = ++serial; I& o = r.chance(1, 2) ? h[i].reference() : *h[i].pointer(); long g = o.sum(); if (g != m[i]) fault.report(2, g, m[i]); o.set(x); m[i] = x; break; }
        case 4: h[i] = h[k]; m[i] = m[k]; break;
        case 5: { Handle<I> x(h[k]); delay(); h[i] = std::move(x); m[i] = m[k]; break; }
        case 6: { Handle<I> x(shared); delay(); long g = x.reference().sum(); if (g != 42) fault.report(3, g, 42); x.reference().set(++serial); break; }
        case 7: { if (c.size() > 3) { c.erase(c.begin()); mc.erase(mc.begin()); } c.push_back(Handle<I const>(std::as_const(h[i]))); mc.push_back(m[i]); break; }
        default: for (size_t q = 0; q < c.size(); ++q) { long g = c[q].reference().sum(); if (g != mc[q]) fault.report(4, g, mc[q]); } break;
        }
        if (n % 4 == 0) order[static_cast<size_t>(turn.fetch_add(1, std::memory_order_relaxed)) % order.size()] = static_cast<char>('0' + id);
        delay();
    }
    delays = nullptr;
}
MON_SUITE(threads, 150, 6000) {
    size_t T = 2 + rng.below(4), H = 1 + rng.below(4); mon::log("%zu threads %zu handles", T, H); long before = live.load(); Fault fault; std::atomic<bool> go{false}; turn = 0; std::vector<char> order(T * 15 + 1, '.');
    { Handle<I> shared(new A(42)); std::vector<Handle<I>> h; std::vector<long> start; for (size_t i = 0; i < H; ++i) { start.push_back(static_cast<long>(i) + 7); h.push_back(Handle<I>(new A(start.back()))); }
      std::vector<std::thread> ts; std::vector<uint64_t> seeds; for (size_t t = 0; t < T; ++t) seeds.push_back(rng.next());
      for (size_t t = 0; t < T; ++t) ts.emplace_back([&, t] { worker(seeds[t], static_cast<long>(t) + 1, h, shared, start.data(), go, fault, order); });
      std::vector<Handle<I>> own; if (rng.chance(1, 2)) own = h; 
      go.store(true, std::memory_order_relaxed); for (auto& t : ts) t.join();
      for (size_t i = 0; i < H; ++i) MON_CHECK(std::as_const(h[i]).reference().sum() == start[i], "first-handle-changed", "the first handle to object " << i << " sees " << std::as_const(h[i]).reference().sum() << ", expected " << start[i]);
      MON_CHECK(std::as_const(shared).reference().sum() == 42, "shared-handle-changed", "a handle which is only read sees another value"); }
    MON_CHECK(fault.which == 0, std::string("thread-saw-other-value/") + std::to_string(fault.which.load()), "a thread saw the value " << fault.got << " through its own handle, expected " << fault.want);
    MON_CHECK(live.load() == before, "lifetime", live.load() - before << " objects live after all handles are gone");
    std::string o(order.begin(), order.end()); size_t switches = 0; for (size_t i = 1; i < o.size(); ++i) switches += o[i] != o[i - 1]; mon::log("order %s", o.c_str()); mon::event("thread switches", switches); mon::event("threads", T); mon::nontrivial();
}
int main(int c, char** v) { mon::require("thread switches", 500); return mon::main(c, v); }
