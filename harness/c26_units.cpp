// C26: programs of several translation units and shared libraries.  harness/c26/generate.py writes the units: each header of the
// library is the first thing one of them includes, and five include all headers in orders drawn from the seed.  They are put
// together with this file into one program with two shared libraries and a third loaded while it runs.  They hand each other
// objects, exceptions and handles; what they observe is compared with what one unit alone observes.
#include "mon.hpp"

#include <algorithm>
#include <dlfcn.h>
#include <set>

#include "array.hpp"
#include "binary_word.hpp"
#include "container.hpp"
#include "handle.hpp"
#include "lazy.hpp"
#include "lru_cache.hpp"
#include "macros.hpp"
#include "randomiser.hpp"
#include "range.hpp"
#include "string.hpp"
#include "test.hpp"
#include "tuple.hpp"
#include "variant.inl.hpp"
#include "writable.hpp"

#include "c26/exchange.hpp"
#include "c26/registry.hpp"

using mon::Rng;

namespace {


std::vector<Api const*> const& units() {
    static std::vector<Api const*> const all = [] {
        mon::Untracked untracked;
        void* library = dlopen(LOADED, RTLD_NOW | RTLD_GLOBAL);
        if (library == nullptr) mon::violate("load", std::string("the shared library cannot be loaded: ") + dlerror());
        std::vector<Api const*> r;
        for (Api const* a = Api::first; a != nullptr; a = a->next) r.push_back(a);
        std::sort(r.begin(), r.end(), [](Api const* a, Api const* b) { return std::string(a->unit) < b->unit; });
        return r;
    }();
    return all;
}
std::map<std::string, std::vector<Use const*>> const& uses() {
    static std::map<std::string, std::vector<Use const*>> const all = [] {
        mon::Untracked untracked;
        units();
        std::map<std::string, std::vector<Use const*>> r;
        for (Use const* u = Use::first; u != nullptr; u = u->next) r[u->header].push_back(u);
        return r;
    }();
    return all;
}
std::set<unsigned long long>& drawn() { static std::set<unsigned long long> s; return s; }

// The same uses of one header give the same results in all units
MON_SUITE_NOLEAK(headers, 60, 600) {
    uint64_t seed = rng.next() >> 8;
    for (auto const& [header, us] : uses()) {
        if (header == "own names") { MON_CHECK(us[0]->run(0) == us[0]->run(1), "own-names", "the names of the program"); mon::event("own names"); continue; }
        std::string first = us[0]->run(seed);
        mon::log("%s %s: %s", header.c_str(), us[0]->unit, first.c_str());
        bool alone = false;
        for (Use const* u : us) {
            std::string r = u->run(seed);
            MON_CHECK(r == first, "headers/" + header, "in " << u->unit << ", the uses of " << header << " give '" << r << "'; in " << us[0]->unit << " '" << first << "'");
            mon::event("units of a header compared");
            alone = alone || std::string(u->unit) == "alone";
        }
        MON_CHECK(alone, "headers/missing", header);
        if (alone) mon::event("headers which come first");
    }
    mon::nontrivial();
}

// Objects made in one unit are copied, changed, read and destroyed in others
MON_SUITE(objects, 300, 8000) {
    auto const& us = units();
    struct Pair { Bundle* shared; Bundle* own; };
    std::vector<Pair> pool;
    Api const* home = us[rng.below(us.size())];
    auto unit = [&]() { return us[rng.below(us.size())]; };
    std::set<Api const*> seen;
    int steps = static_cast<int>(rng.range(10, 60));
    for (int i = 0; i < steps; ++i) {
        Api const* u = unit();
        seen.insert(u);
        uint64_t seed = rng.next() >> 3;
        if (pool.empty() || (pool.size() < 5 && rng.chance(1, 6))) {
            mon::log("make %s", u->unit);
            pool.push_back({u->make(seed), home->make(seed)});
        } else {
            size_t n = rng.below(pool.size());
            Pair& p = pool[n];
            if (rng.chance(1, 8) && pool.size() < 6) {
                mon::log("copy %zu %s", n, u->unit);
                Pair q{u->copy(*p.shared), home->copy(*p.own)};
                pool.push_back(q);
            } else if (rng.chance(1, 12)) {
                mon::log("destroy %zu %s", n, u->unit);
                u->destroy(p.shared);
                home->destroy(p.own);
                pool.erase(pool.begin() + static_cast<long>(n));
            } else {
                int what = static_cast<int>(rng.below(20));
                mon::log("change %zu %d %s", n, what, u->unit);
                long before = lazy_calls;
                u->change(*p.shared, what, seed);
                long calls = lazy_calls - before;
                before = lazy_calls;
                home->change(*p.own, what, seed);
                MON_CHECK(calls == lazy_calls - before, "objects/lazy", calls << " calls of the function of a lazy object in " << u->unit << ", " << lazy_calls - before << " in one unit");
            }
        }
        for (auto const& p : pool) {
            Api const* r = unit();
            std::string a = r->text(*p.shared), b = home->text(*p.own);
            MON_CHECK(a == b, "objects/value", "read in " << r->unit << ":\n  " << a << "\nall in one unit:\n  " << b);
            mon::event("objects handed over");
        }
    }
    for (auto const& p : pool) { unit()->destroy(p.shared); home->destroy(p.own); }
    if (seen.size() > 2) mon::nontrivial();
}

// Exceptions thrown in one unit are caught by their types in others
MON_SUITE(exceptions, 40, 400) {
    static char const* const expected[] = {"runtime_error of k", "runtime_error of k", "runtime_error", "out_of_range", "runtime_error", "runtime_error", "bad_cast", "failure", "bad_alloc", "domain_error"};
    uint64_t seed = rng.next() >> 3;
    for (int k = 0; k != 10; ++k)
        for (Api const* thrower : units())
            for (Api const* catcher : units()) {
                std::string r = catcher->caught([&] { thrower->fail(k, seed); });
                std::string e = expected[k];
                MON_CHECK(r.compare(0, e.size(), e) == 0, "exceptions/" + e, "thrown in " << thrower->unit << ", caught in " << catcher->unit << " as " << r);
                if (k == 9) MON_CHECK(r.find("k=" + std::to_string(seed % 100u)) != std::string::npos, "exceptions/message", r);
                mon::event("exceptions across units");
            }
    mon::log("%llu", static_cast<unsigned long long>(seed));
    mon::nontrivial();
}

// The dynamic type of a handle's object is known in all units
MON_SUITE(handles, 60, 1000) {
    for (Api const* maker : units())
        for (Api const* reader : units()) {
            long n = rng.range(1, 40);
            int kind = static_cast<int>(rng.below(6));
            Helper::Handle<Shape> h = maker->shape(kind, n);
            std::string r = reader->look(h);
            std::string s = std::to_string(n);
            std::string e = kind % 2 ? "circle " + s + " not a square colour " + std::to_string(kind) + " circle written" : "not a circle square " + s + " no colour square";
            mon::log("%s %s %s", maker->unit, reader->unit, e.c_str());
            MON_CHECK(r == e, "handles", "made in " << maker->unit << ", looked at in " << reader->unit << ": '" << r << "' instead of '" << e << "'");
            mon::event("handles looked at");
        }
    mon::nontrivial();
}

// Draws in different units, also while they were initialised, are of one random sequence
MON_SUITE_NOLEAK(draws, 100, 1000) {
    if (drawn().empty())
        for (Api const* u : units())
            for (int i = 0; i != 4; ++i) {
                MON_CHECK(drawn().insert(u->start_draws[i]).second, "draws/initialisation", "draw " << i << " while " << u->unit << " was initialised had been made before: " << u->start_draws[i]);
                mon::event("draws while initialised");
            }
    for (int i = 0; i != 100; ++i) {
        Api const* u = units()[rng.below(units().size())];
        unsigned long long d = u->draw();
        MON_CHECK(drawn().insert(d).second, "draws/repeated", "a draw in " << u->unit << " had been made before: " << d);
        mon::event("draws");
    }
    mon::log("from %zu", drawn().size());
    mon::nontrivial();
}

// A notice which is given once is given once by the program, not by each unit
MON_SUITE_NOLEAK(notices, ONCE, ONCE) {
    int n = static_cast<int>(mon::st().case_no % ONCE);
    std::string all;
    int calls = static_cast<int>(rng.range(1, 40));
    mon::log("notice %d, %d calls", n, calls);
    std::string first;
    for (int i = 0; i != calls; ++i) {
        std::string r = units()[rng.below(units().size())]->once(n);
        if (i == 0) first = r;
        all += r;
        mon::event("functions giving notices called");
    }
    std::string expected = "once" + std::to_string(n);
    MON_CHECK(first.find("WARNING") != std::string::npos && first.find("DEPRECATED") != std::string::npos && first.find("WARNING: once") < first.size(), "notices/missing", "the first call gives '" << first << "'");
    MON_CHECK(all == first, "notices/repeated", calls << " calls in several units give '" << all << "'");
    if (calls > 1) mon::nontrivial();
}

// The units were initialised, using the library, before the program began
MON_SUITE_NOLEAK(initialisation, 1, 1) {
    std::string text;
    MON_CHECK(units().size() == 5, "initialisation/units", units().size() << " units registered");
    for (Api const* u : units()) {
        MON_CHECK(*u->started, "initialisation/started", u->unit);
        if (text.empty()) text = *u->start_text;
        MON_CHECK(*u->start_text == text && !text.empty(), "initialisation/text", "while " << u->unit << " was initialised, its objects were '" << *u->start_text << "'; those of " << units()[0]->unit << " '" << text << "'");
        mon::event("units initialised");
    }
    mon::log("%s", text.c_str());
    mon::nontrivial();
}

// The units count the failures of their tests together
MON_SUITE_NOLEAK(testing, 100, 1000) {
    int failures = HELPER_TEST_FAILURES, skipped = HELPER_TEST_SKIPPED, cases = 0;
    { std::string t = units()[0]->tests(); size_t last = t.find_last_of(' '); if (t.substr(last + 1) != "none") cases = std::stoi(t.substr(last + 1)); }
    for (int i = 0; i != 10; ++i) {
        Api const* u = units()[rng.below(units().size())];
        int n = static_cast<int>(rng.below(3));
        u->failing_test(n);
        failures += n; skipped += n; cases += n;
        mon::log("%s %d: %d %d %d", u->unit, n, failures, skipped, cases);
        for (Api const* r : units()) {
            std::string e = std::to_string(failures) + " " + std::to_string(skipped) + " " + std::to_string(++cases);
            std::string t = r->tests();
            MON_CHECK(t == e, "testing", "after tests in " << u->unit << ", " << r->unit << " has '" << t << "' instead of '" << e << "'");
            mon::event("test results read");
        }
    }
    mon::nontrivial();
}

}  // namespace

int main(int c, char** v) {
    mon::require("units of a header compared", 20 * 5 * 30);
    mon::require("headers which come first", 20);
    mon::require("objects handed over", 1000);
    mon::require("exceptions across units", 2000);
    mon::require("handles looked at", 1000);
    mon::require("draws", 5000);
    mon::require("functions giving notices called", 1000);
    mon::require("units initialised", 5);
    mon::require("test results read", 1000);
    return mon::main(c, v);
}
