// Objects of the library which the units of the program hand to each other. All headers of the library have been included.
#ifndef VERIF_C26_EXCHANGE_HPP
#define VERIF_C26_EXCHANGE_HPP
#include <atomic>
#include <cstdint>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>

struct Shape {
    virtual ~Shape() {}
    virtual Shape* clone() const = 0;
    virtual Shape* _copy() const = 0;
    virtual Shape* _move() = 0;
    virtual long size() const = 0;
    virtual void grow(long n) = 0;
};
struct Coloured : Shape { virtual long colour() const = 0; };
struct Circle : Coloured, Helper::WritableInterface {
    long r, c;
    Circle(long r_, long c_) : r(r_), c(c_) {}
    Shape* clone() const override { return new Circle(*this); }
    Shape* _copy() const override { return new Circle(*this); }
    Shape* _move() override { return new Circle(*this); }
    long size() const override { return r; }
    void grow(long n) override { r += n; }
    long colour() const override { return c; }
    std::ostream& _write(std::ostream& os) const override { return os << "circle" << r << "," << c; }
};
struct Square : Shape {
    long a;
    explicit Square(long b) : a(b) {}
    Shape* clone() const override { return new Square(*this); }
    Shape* _copy() const override { return new Square(*this); }
    Shape* _move() override { return new Square(*this); }
    long size() const override { return a * a; }
    void grow(long n) override { a += n; }
};
struct ColouredHandle : Helper::Handle<Coloured> {
    using Helper::Handle<Coloured>::Handle;
    ColouredHandle(Helper::Handle<Coloured> const& h) : Helper::Handle<Coloured>(h) {}
};
struct ShapeWriter : Helper::WriterInterface<long> {
    virtual ~ShapeWriter() {}
    virtual ShapeWriter* clone() const { return new ShapeWriter(*this); }
    std::ostream& _write(std::ostream& os, long const& n) const override { return os << "<" << n << ">"; }
};
struct Left { static constexpr int code() { return 7; } };
struct Right { static constexpr int code() { return -7; } };
typedef Helper::CodedVariant<int, Left, Right> Side;

struct Bundle {
    Helper::Array<std::string> array;
    Helper::SharedArray<long> shared;
    Helper::List<std::string> list;
    Helper::LinkedList<long> linked;
    Helper::Set<long> set;
    Helper::Map<long, std::string> map;
    Helper::BinaryWord word;
    Helper::LRUCache<long, std::string> cache;
    Helper::Lazy<std::string> lazy;
    Helper::Handle<Shape> shape;
    Helper::Writer<long> writer;
    Side side;
    Helper::Range range;
    Helper::String string;
    Helper::Tuple<long, std::string> tuple;
    std::shared_ptr<Helper::RandomiserInterface<long>> random;
};
inline std::atomic<long> lazy_calls(0);

// Notices given once, wherever the function which gives them is called from
template<int N> inline void warn_once() { HELPER_WARN_ONCE("once" << N); }
template<int N> inline void deprecated_once() { HELPER_DEPRECATED(something, use another); }
constexpr int ONCE = 60;

struct Api {
    char const* unit;
    Bundle* (*make)(uint64_t);
    Bundle* (*copy)(Bundle const&);
    void (*change)(Bundle&, int, uint64_t);
    std::string (*text)(Bundle const&);
    void (*destroy)(Bundle*);
    void (*fail)(int kind, uint64_t);
    std::string (*caught)(std::function<void()> const&);
    Helper::Handle<Shape> (*shape)(int kind, long);
    std::string (*look)(Helper::Handle<Shape> const&);
    unsigned long long (*draw)();
    std::string (*once)(int n);
    void (*failing_test)(int n);
    std::string (*tests)();
    unsigned long long const* start_draws;
    std::string const* start_text;
    bool const* started;
    Api* next;
    static inline Api* first = nullptr;
};
#endif
