// One unit of the program which includes all headers of the library, in an order of its own.
#include "c26/exchange.hpp"
#include "c26/registry.hpp"
#include <iostream>
#define C26_TEXT2(x) #x
#define C26_TEXT(x) C26_TEXT2(x)
namespace UNIT {

inline Helper::Handle<Shape> shape(int kind, long n) { return kind % 2 ? Helper::Handle<Shape>(Circle(n, kind)) : Helper::Handle<Shape>(std::make_shared<Square>(n)); }

inline Bundle* make(uint64_t seed) {
    long k = static_cast<long>(seed % 9u);
    std::string s(k * 7, 'a' + static_cast<char>(k));
    return new Bundle{Helper::Array<std::string>(static_cast<size_t>(k), s), Helper::SharedArray<long>(static_cast<size_t>(k + 2), k), Helper::List<std::string>{s, "x"},
                      Helper::LinkedList<long>(static_cast<unsigned>(k), 3), Helper::Set<long>{k, 4, 5}, Helper::Map<long, std::string>{{k, s}, {20, "y"}},
                      Helper::make_binary_word(k % 2 ? "0110" : "[1,0]"), Helper::LRUCache<long, std::string>(static_cast<size_t>(k % 4 + 1)),
                      Helper::Lazy<std::string>([s]() { ++lazy_calls; return new std::string("lazy" + s); }), shape(static_cast<int>(k), k),
                      Helper::Writer<long>(new ShapeWriter()), k % 2 ? Side(Left()) : Side(Right()), Helper::range(1u, static_cast<size_t>(k + 3)), Helper::String(s),
                      Helper::make_tuple(k, s), std::make_shared<Helper::UniformIntRandomiser<long>>(k, k + 3)};
}
inline Bundle* copy(Bundle const& b) { return new Bundle(b); }
inline void change(Bundle& b, int what, uint64_t seed) {
    long k = static_cast<long>(seed % 13u);
    switch (what) {
        case 0: b.array.resize(static_cast<size_t>(k), Helper::to_string(k)); break;
        case 1: b.array = Helper::Array<std::string>{"p", Helper::to_string(k)}; break;
        case 2: b.shared[seed % b.shared.size()] = k; break;
        case 3: b.shared = Helper::SharedArray<long>{k, k, 3}; break;
        case 4: b.list.append(Helper::to_str(k)); break;
        case 5: b.list = Helper::catenate(b.list, b.list); if (b.list.size() > 50u) b.list.clear(); break;
        case 6: b.linked.append(k); break;
        case 7: b.set.adjoin(std::set<long>{k, k + 1}); break;
        case 8: b.set.remove(k).restrict(std::set<long>{1, 2, 3, 4, 5, 6}); break;
        case 9: b.map[k] = Helper::to_string(k); break;
        case 10: b.map.remove_keys(b.set); break;
        case 11: b.word.append(k % 2 == 0); break;
        case 12: b.word.erase_prefix(static_cast<int>(k % 3)); break;
        case 13: if (!b.cache.has_label(k)) b.cache.put(k, Helper::to_string(k)); else b.cache.get(k); break;
        case 14: b.lazy(); break;
        case 15: b.shape.reference().grow(k); break;
        case 16: b.shape = shape(static_cast<int>(k), k); break;
        case 17: b.side = b.side.code() == 7 ? Side(Right()) : Side(-b.side.code()); break;
        case 18: Helper::make_ltuple(k, b.string) = Helper::make_tuple(k, Helper::String("s")); b.range = Helper::Range(0u, static_cast<size_t>(k)); break;
        case 19: Helper::get_second(b.tuple) += "t"; break;
    }
}
constexpr int CHANGES = 20;
struct Name { std::string operator()(Left) const { return "left"; } std::string operator()(Right) const { return "right"; } };
inline std::string text(Bundle const& b) {
    using Helper::operator<<;
    std::ostringstream os;
    long k = static_cast<long>(b.range.size());
    os << b.array << b.shared << b.list << b.linked << b.set << b.map << b.word << ' ' << b.shape.const_reference().size() << b.writer(k) << b.side.accept(Name())
       << Helper::holds_alternative<Left>(b.side) << b.string << b.tuple;
    for (auto i : b.range) os << i << ';';
    Helper::LRUCache<long, std::string> c(b.cache);
    os << " of " << c.maximum_size() << ':';
    for (long l = -1; l != 20; ++l) { if (c.has_label(l)) { os << l << '=' << c.age(l) << '='; os << Helper::LRUCache<long, std::string>(c).get(l) << ' '; } }
    for (int i = 0; i != 20; ++i) { long v = b.random->get(); if (v < std::get<0>(b.tuple) || v > std::get<0>(b.tuple) + 3) os << "random " << v; }
    return os.str();
}
inline void destroy(Bundle* b) { delete b; }

inline void fail(int kind, uint64_t seed) {
    long k = static_cast<long>(seed % 100u);
    Helper::Array<long> a(2u, 1);
    Helper::LRUCache<long, long> c(1u);
    Helper::Map<long, long> const m{{1000, 1}};
    switch (kind) {
        case 0: HELPER_ASSERT(k < 0); break;
        case 1: HELPER_PRECONDITION_MSG(k < 0, "k=" << k); break;
        case 2: HELPER_NOT_IMPLEMENTED;
        case 3: a.at(static_cast<size_t>(k) + 2u); break;
        case 4: c.get(k); break;
        case 5: m.get(k); break;
        case 6: Helper::dynamic_handle_extract<Circle>(static_cast<Helper::Handle<Shape> const&>(Helper::Handle<Shape>(Square(k)))); break;
        case 7: { std::istringstream is("[1;2]"); std::vector<int> v; is >> v; break; }
        case 8: Helper::Array<long>(static_cast<size_t>(-1)); break;
        case 9: HELPER_THROW(std::domain_error, "c26", "k=" << k);
    }
}
constexpr int FAILURES = 10;
inline std::string caught(std::function<void()> const& f) {
    std::ostringstream err;
    std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
    std::string r = "nothing";
    try { f(); }
    catch (std::domain_error const& e) { r = std::string("domain_error ") + e.what(); }
    catch (std::out_of_range const&) { r = "out_of_range"; }
    catch (std::ios_base::failure const&) { r = "failure"; }
    catch (std::runtime_error const& e) { std::string w(e.what()); r = w.find("k<0") != std::string::npos || w.find("k < 0") != std::string::npos ? "runtime_error of k" : "runtime_error"; }
    catch (std::bad_cast const&) { r = "bad_cast"; }
    catch (std::bad_alloc const&) { r = "bad_alloc"; }
    catch (std::exception const&) { r = "exception"; }
    catch (...) { r = "unknown"; }
    std::cerr.rdbuf(old);
    return r;
}
inline std::string look(Helper::Handle<Shape> const& h) {
    std::ostringstream os, err;
    std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
    try { long r = Helper::dynamic_handle_extract<Circle>(h).r; os << "circle " << r; } catch (std::bad_cast const&) { os << "not a circle"; }
    try { long a = Helper::dynamic_handle_extract<Square>(h).a; os << " square " << a; } catch (std::bad_cast const&) { os << " not a square"; }
    try { long c = Helper::dynamic_handle_cast<ColouredHandle>(h).const_reference().colour(); os << " colour " << c; } catch (std::bad_cast const&) { os << " no colour"; }
    std::shared_ptr<Shape const> p = h.managed_pointer();
    os << (Helper::dynamic_pointer_extract<Circle>(p) ? " circle" : "") << (Helper::dynamic_pointer_extract<Square>(p) ? " square" : "");
    std::cerr.rdbuf(old);
    if (err.str().find("circle" + std::to_string(h.const_reference().size()) + ",") != std::string::npos) os << " written";  // the object names itself
    return os.str();
}
inline unsigned long long draw() { return Helper::UniformIntRandomiser<unsigned long long>(0u, ~0ull).get(); }
template<int... NS> inline void once_of(int n, std::integer_sequence<int, NS...>) { ((n == NS ? (warn_once<NS>(), deprecated_once<NS>()) : void()), ...); }
inline std::string once(int n) {
    std::ostringstream err;
    std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
    once_of(n, std::make_integer_sequence<int, ONCE>());
    std::cerr.rdbuf(old);
    return err.str();
}
inline void failing_test(int n) {
    std::ostringstream out, err;
    std::streambuf* o = std::cout.rdbuf(out.rdbuf());
    std::streambuf* e = std::cerr.rdbuf(err.rdbuf());
    for (int i = 0; i != n; ++i) { HELPER_TEST_EQUAL(i, i + 1); HELPER_TEST_SKIP(nothing()); HELPER_PRINT_TEST_CASE_TITLE("case"); }
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
}
inline std::string tests() {  // the titles of test cases are numbered, so that this numbers one more
    std::ostringstream out;
    std::streambuf* o = std::cout.rdbuf(out.rdbuf());
    HELPER_PRINT_TEST_CASE_TITLE("title");
    std::cout.rdbuf(o);
    size_t digit = out.str().find_first_of("0123456789");
    return std::to_string(HELPER_TEST_FAILURES) + " " + std::to_string(HELPER_TEST_SKIPPED) + " " + (digit == std::string::npos ? "none" : std::to_string(std::stol(out.str().substr(digit))));
}

// Objects of the library made while the unit is initialised, and destroyed when the program ends
static bool started = false;
static unsigned long long start_draws[4];
static std::string start_text;
static std::unique_ptr<Bundle> const start_bundle(make(5));
static Api api{C26_TEXT(UNIT), make, copy, change, text, destroy, fail, caught, shape, look, draw, once, failing_test, tests, start_draws, &start_text, &started, nullptr};
static struct Start {
    Start() {
        for (auto& d : start_draws) d = draw();
        for (int i = 0; i != CHANGES; ++i) change(*start_bundle, i, 7);
        start_text = text(*start_bundle) + caught([] { fail(0, 1); }) + look(start_bundle->shape);
        api.next = Api::first;
        Api::first = &api;
        started = true;
    }
    ~Start() { change(*start_bundle, 0, 3); text(*start_bundle); }
} start;

}  // namespace UNIT
