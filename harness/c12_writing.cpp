// C12: writing containers, pairs, tuples and sequences.  Oracle: a renderer of its own, which lets only the elements'
// own writers write, each into a stream of its own with the same formatting.
#include "mon.hpp"
#include <fstream>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <cstdlib>
#include <iostream>
#include "container.hpp"
#include "binary_word.hpp"
#include "iterator.hpp"

using Helper::Array; using Helper::SharedArray; using Helper::List; using Helper::LinkedList; using Helper::Set; using Helper::Map; using Helper::BinaryWord; using mon::Rng;
typedef std::string S;

// Elements which record that they are written.
std::vector<int>& written() { static auto* v = new std::vector<int>; return *v; }
struct Rec { int id = 0; Rec() = default; explicit Rec(int i) : id(i) {} friend bool operator<(Rec const& a, Rec const& b) { return a.id < b.id; } };
inline std::ostream& operator<<(std::ostream& os, Rec const& r) { { mon::Untracked u; written().push_back(r.id); } return os << 'r' << r.id; }
struct Solid { int id = 0; Solid() = default; explicit Solid(int i) : id(i) {} Solid(Solid&&) = default; Solid& operator=(Solid&&) = default; friend bool operator<(Solid const& a, Solid const& b) { return a.id < b.id; } };  // cannot be copied
inline std::ostream& operator<<(std::ostream& os, Solid const& s) { { mon::Untracked u; written().push_back(s.id); } return os << "s" << s.id; }
struct Awkward { int x = 0; };  // writes what looks like a container, in several steps
inline std::ostream& operator<<(std::ostream& os, Awkward const& a) { os << '[' << a.x << ','; os.put(']'); return os.write("{,", 2); }

template<class T> struct G;
template<class T> void leaf(S& s, std::ios const& f, T const& t) { std::ostringstream os; os.copyfmt(f); os.width(0); os.exceptions(std::ios::goodbit); os << t; s += os.str(); }
template<> struct G<int> { static int make(Rng& r) { return static_cast<int>(r.range(-50, 3000)); } static void render(S& s, std::ios const& f, int t) { leaf(s, f, t); } };
template<> struct G<double> { static double make(Rng& r) { return static_cast<double>(r.range(-100000, 100000)) / 37.0; } static void render(S& s, std::ios const& f, double t) { leaf(s, f, t); } };
template<> struct G<bool> { static bool make(Rng& r) { return r.chance(1, 2); } static void render(S& s, std::ios const& f, bool t) { leaf(s, f, t); } };
template<> struct G<char> { static char make(Rng& r) { return static_cast<char>(' ' + r.below(95)); } static void render(S& s, std::ios const&, char t) { s += t; } };
template<> struct G<S> { static S make(Rng& r) { S t; for (size_t k = r.below(5); k > 0; --k) t += "ab,[]{}: "[r.below(9)]; return t; } static void render(S& s, std::ios const&, S const& t) { s += t; } };
template<> struct G<Rec> { static Rec make(Rng& r) { return Rec(static_cast<int>(r.below(1000))); } static void render(S& s, std::ios const& f, Rec const& t) { s += 'r'; leaf(s, f, t.id); } };
template<> struct G<Awkward> { static Awkward make(Rng& r) { return Awkward{static_cast<int>(r.below(1000))}; } static void render(S& s, std::ios const& f, Awkward const& t) { s += '['; leaf(s, f, t.x); s += ",]{,"; } };
template<> struct G<BinaryWord> { static BinaryWord make(Rng& r) { BinaryWord w; for (size_t k = r.below(5); k > 0; --k) w.push_back(r.chance(1, 2)); return w; } static void render(S& s, std::ios const&, BinaryWord const& w) { if (w.size() == 0) s += 'e'; for (size_t i = 0; i < w.size(); ++i) s += w[i] ? '1' : '0'; } };
inline size_t some(Rng& r) { return r.chance(1, 4) ? 0 : r.chance(1, 50) ? r.edge(140) : r.below(5); }
template<class C, class T> struct GSeq { static C make(Rng& r) { C c; for (size_t k = some(r); k > 0; --k) c.push_back(G<T>::make(r)); return c; }
    static void render(S& s, std::ios const& f, C const& c) { s += '['; size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it) { if (i++) s += ','; G<T>::render(s, f, *it); } s += ']'; } };
template<class T> struct G<std::vector<T>> : GSeq<std::vector<T>, T> {};
template<class T> struct G<List<T>> : GSeq<List<T>, T> {};
template<class T> struct G<std::list<T>> : GSeq<std::list<T>, T> {};
template<class T> struct G<LinkedList<T>> : GSeq<LinkedList<T>, T> {};
template<class T> struct G<Array<T>> : GSeq<std::vector<T>, T> { static Array<T> make(Rng& r) { std::vector<T> v; for (size_t k = some(r); k > 0; --k) v.push_back(G<T>::make(r)); return Array<T>(v.begin(), v.end()); }
    static void render(S& s, std::ios const& f, Array<T> const& c) { s += '['; for (size_t i = 0; i < c.size(); ++i) { if (i) s += ','; G<T>::render(s, f, c[i]); } s += ']'; } };
template<class T> struct G<SharedArray<T>> { static SharedArray<T> make(Rng& r) { SharedArray<T> a(some(r)); for (size_t i = 0; i < a.size(); ++i) a[i] = G<T>::make(r); return a; }
    static void render(S& s, std::ios const& f, SharedArray<T> const& c) { s += '['; for (size_t i = 0; i < c.size(); ++i) { if (i) s += ','; G<T>::render(s, f, c[i]); } s += ']'; } };
template<class C, class T> struct GSet { static C make(Rng& r) { C c; for (size_t k = some(r); k > 0; --k) c.insert(G<T>::make(r)); return c; }
    static void render(S& s, std::ios const& f, C const& c) { s += '{'; size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it) { if (i++) s += ','; G<T>::render(s, f, *it); } s += '}'; } };
template<class T> struct G<Set<T>> : GSet<Set<T>, T> {};
template<class T> struct G<std::set<T>> : GSet<std::set<T>, T> {};
template<class C, class K, class T> struct GMap { static C make(Rng& r) { C c; for (size_t k = some(r); k > 0; --k) { std::pair<K, T> e(G<K>::make(r), G<T>::make(r)); c.insert(e); } return c; }
    static void render(S& s, std::ios const& f, C const& c) { s += '{'; size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it) { s += i++ ? ", " : " "; G<K>::render(s, f, it->first); s += ':'; G<T>::render(s, f, it->second); } s += " }"; } };
template<class K, class T> struct G<Map<K, T>> : GMap<Map<K, T>, K, T> {};
template<class K, class T> struct G<std::map<K, T>> : GMap<std::map<K, T>, K, T> {};
template<class A, class B> struct G<std::pair<A, B>> { static std::pair<A, B> make(Rng& r) { A a = G<A>::make(r); return std::pair<A, B>(a, G<B>::make(r)); } static void render(S& s, std::ios const& f, std::pair<A, B> const& p) { s += '('; G<A>::render(s, f, p.first); s += ','; G<B>::render(s, f, p.second); s += ')'; } };
template<class... T> struct G<std::tuple<T...>> { static std::tuple<T...> make(Rng& r) { return std::tuple<T...>{G<T>::make(r)...}; }
    static void render(S& s, std::ios const& f, std::tuple<T...> const& t) { s += '('; size_t i = 0; std::apply([&](auto const&... x) { ((s += i++ ? "," : "", G<std::decay_t<decltype(x)>>::render(s, f, x)), ...); }, t); s += ')'; } };

// ------------------------------------------------------------------ streams
struct Format { std::ios::fmtflags flags; std::streamsize precision; char fill; };
Format random_format(Rng& r) {
    std::ios::fmtflags f = std::ios::skipws | (r.chance(1, 3) ? std::ios::hex : r.chance(1, 5) ? std::ios::oct : std::ios::dec); if (r.chance(1, 4)) f |= std::ios::showpos; if (r.chance(1, 4)) f |= std::ios::showbase; if (r.chance(1, 4)) f |= std::ios::uppercase;
    if (r.chance(1, 4)) f |= std::ios::boolalpha; if (r.chance(1, 4)) f |= std::ios::showpoint; if (r.chance(1, 4)) f |= std::ios::left; else if (r.chance(1, 4)) f |= std::ios::internal; if (r.chance(1, 4)) f |= std::ios::fixed; else if (r.chance(1, 4)) f |= std::ios::scientific; if (r.chance(1, 8)) f |= std::ios::unitbuf;
    if (r.chance(1, 3)) f = std::ios::skipws | std::ios::dec; return Format{f, static_cast<std::streamsize>(r.below(12)), r.chance(1, 2) ? ' ' : '*'};
}
struct Full : std::streambuf { S s; size_t cap; explicit Full(size_t n) : cap(n) {} int_type overflow(int_type c) override { if (s.size() >= cap) return traits_type::eof(); s += static_cast<char>(c); return c; } };
struct PlainPunct : std::numpunct<char> { char do_thousands_sep() const override { return '\''; } S do_grouping() const override { return "\3"; } };

// Writes by w into a stream with random formatting and compares with the text which render makes.
template<class W, class R> void judge(Rng& r, char const* what, W&& w, R&& render) {
    Format f = random_format(r); bool grouping = r.chance(1, 6); mon::log("%s flags %x precision %d", what, static_cast<unsigned>(f.flags), static_cast<int>(f.precision));
    std::ostringstream model; auto prepare = [&](std::ostream& os) { os.flags(f.flags); os.precision(f.precision); os.fill(f.fill); if (grouping) { mon::Untracked u; static std::locale* loc = new std::locale(std::locale::classic(), new PlainPunct); os.imbue(*loc); } };
    prepare(model); S want; render(want, model); S lead = r.chance(1, 2) ? "" : "x";
    std::ostringstream os; prepare(os); os << lead; { mon::Untracked u; written().clear(); }
    std::ios::iostate before = os.rdstate(); std::ostream& back = w(static_cast<std::ostream&>(os));
    MON_CHECK(&back == &os, "stream-returned", what << " returns another stream"); S got = os.str();
    MON_CHECK(got == lead + want, "text", what << " writes '" << got << "', expected '" << lead + want << "'"); MON_CHECK(os.rdstate() == before, "stream-state", what << " leaves the stream in state " << os.rdstate());
    MON_CHECK(os.flags() == f.flags && os.precision() == f.precision && os.fill() == f.fill && os.width() == 0, "stream-format", what << " leaves the stream with flags " << os.flags() << ", precision " << os.precision() << ", width " << os.width());
    os << 'z'; S after = os.str(); MON_CHECK(after == lead + want + "z", "stream-usable", what << " leaves a stream on which z gives '" << after << "'");
    if (r.chance(1, 6) && !want.empty()) { Full b(r.below(want.size())); std::ostream ls(&b); prepare(ls); bool thr = r.chance(1, 2); if (thr) ls.exceptions(std::ios::badbit); auto o = mon::attempt([&] { w(static_cast<std::ostream&>(ls)); });
        MON_CHECK(want.compare(0, b.s.size(), b.s) == 0 && ls.bad() && o == (thr ? mon::Outcome::threw_ios : mon::Outcome::returned), "full-stream", what << " to a stream with room for " << b.cap << " characters writes '" << b.s << "' and " << mon::name(o) << ", expected a part of '" << want << "'"); mon::event("full streams"); }
    if (r.chance(1, 12)) { std::ostringstream fs; prepare(fs); fs.setstate(std::ios::failbit); w(static_cast<std::ostream&>(fs)); MON_CHECK(fs.str().empty() && fs.rdstate() == std::ios::failbit, "failed-stream", what << " to a failed stream writes '" << fs.str() << "'"); mon::event("failed streams"); }
    if (r.chance(1, 8)) { std::ostringstream es, ms; prepare(es); es.setstate(std::ios::eofbit); ms.setstate(std::ios::eofbit); ms << '['; w(static_cast<std::ostream&>(es)); MON_CHECK(es.str().empty() && es.rdstate() == ms.rdstate(), "ended-stream", what << " to a stream at its end writes '" << es.str() << "' and leaves it in state " << es.rdstate() << ", expected " << ms.rdstate()); mon::event("ended streams"); }
    mon::event("texts"); mon::nontrivial();
}
template<class T> void contents(Rng& r, char const* what) {
    T t = G<T>::make(r); T const& c = t; S before; std::ostringstream plain; G<T>::render(before, plain, c); mon::log("%.200s", before.c_str());
    judge(r, what, [&](std::ostream& os) -> std::ostream& { using Helper::operator<<; using std::operator<<; return os << c; }, [&](S& s, std::ios const& f) { G<T>::render(s, f, c); });
    S after; G<T>::render(after, plain, c); MON_CHECK(after == before, "content", "writing " << what << " changed it from " << before << " to " << after);
}
#define SUITE(name, q, t, ...) MON_SUITE(name, q, t) { contents<__VA_ARGS__>(rng, #__VA_ARGS__); }
typedef std::pair<int, int> II;
// iterators with writers, in pairs
struct Mark { typedef std::random_access_iterator_tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef int const* pointer; typedef int const& reference; int const* p; int name; int const& operator*() const { return *p; } Mark& operator+=(std::ptrdiff_t n) { p += n; return *this; } friend std::ostream& operator<<(std::ostream& os, Mark const& m) { return os << "m" << m.name; } };
template<> struct G<Mark> { static Mark make(Rng& r) { static int const x[1] = {0}; return Mark{x, static_cast<int>(r.range(-300, 300))}; } static void render(S& s, std::ios const& f, Mark const& m) { std::ostringstream o; o.copyfmt(f); o.exceptions(std::ios::goodbit); o << "m" << m.name; s += o.str(); } };
template<> struct G<char const*> { static char const* make(Rng& r) { static char const* const t[] = {"", "a", "one, two", "{x}"}; return t[r.below(4)]; } static void render(S& s, std::ios const&, char const* t) { s += t; } };
template<class A, class B> struct Places { A a; B b; Helper::PairIterator<A, B> both; friend std::ostream& operator<<(std::ostream& os, Places const& p) { return os << p.both; } };
template<class A, class B> struct G<Places<A, B>> { typedef Places<A, B> P; static P make(Rng& r) { A a = G<A>::make(r); B b = G<B>::make(r); return P{a, b, Helper::PairIterator<A, B>(a, b)}; } static void render(S& s, std::ios const& f, P const& p) { s += '{'; G<A>::render(s, f, p.a); s += ','; G<B>::render(s, f, p.b); s += '}'; } };
typedef Places<Mark, char const*> MarkText; typedef Places<Mark, Mark> Marks; typedef Places<char const*, Mark> TextMark;
SUITE(iterators_marks, 60, 3000, Marks)
SUITE(iterators_mark_text, 60, 3000, MarkText)
SUITE(iterators_text_mark, 60, 3000, TextMark)
SUITE(vector_of_iterators, 60, 3000, std::vector<Marks>)
SUITE(array_int, 120, 6000, Array<int>)
SUITE(array_string, 80, 4000, Array<S>)
SUITE(array_array, 80, 4000, Array<Array<double>>)
SUITE(array_pair, 80, 4000, Array<std::pair<S, Array<bool>>>)
SUITE(shared_int, 120, 6000, SharedArray<int>)
SUITE(shared_list, 80, 4000, SharedArray<List<S>>)
SUITE(vector_int, 120, 6000, std::vector<int>)
SUITE(vector_bool, 120, 6000, std::vector<bool>)
SUITE(vector_vector, 80, 4000, std::vector<std::vector<char>>)
SUITE(vector_awkward, 80, 4000, std::vector<Awkward>)
SUITE(list_double, 120, 6000, List<double>)
SUITE(list_bool, 80, 4000, List<bool>)
SUITE(list_list, 80, 4000, List<List<int>>)
SUITE(list_words, 80, 4000, List<BinaryWord>)
SUITE(list_set, 80, 4000, List<Set<S>>)
SUITE(list_map, 80, 4000, List<Map<int, S>>)
SUITE(list_tuple, 80, 4000, List<std::tuple<int, S, List<II>>>)
SUITE(linked_int, 120, 6000, LinkedList<int>)
SUITE(linked_std, 80, 4000, std::list<S>)
SUITE(linked_set, 80, 4000, LinkedList<Set<double>>)
SUITE(set_int, 120, 6000, Set<int>)
SUITE(set_std, 80, 4000, std::set<S>)
SUITE(set_set, 80, 4000, Set<Set<int>>)
SUITE(set_pair, 80, 4000, Set<std::pair<int, S>>)
SUITE(map_int_int, 120, 6000, Map<int, int>)
SUITE(map_std, 80, 4000, std::map<S, double>)
SUITE(map_nested, 80, 4000, Map<S, Map<int, List<bool>>>)
SUITE(map_keys, 80, 4000, Map<std::pair<int, List<int>>, Array<S>>)
SUITE(pair_simple, 120, 6000, std::pair<int, double>)
SUITE(pair_nested, 80, 4000, std::pair<List<int>, std::pair<S, Set<int>>>)
SUITE(tuple_0, 5, 50, std::tuple<>)
SUITE(tuple_1, 80, 3000, std::tuple<S>)
SUITE(tuple_2, 80, 3000, std::tuple<int, Array<int>>)
SUITE(tuple_3, 80, 3000, std::tuple<bool, char, double>)
SUITE(tuple_5, 80, 3000, std::tuple<int, std::pair<int, S>, Map<int, int>, std::tuple<S, S>, LinkedList<int>>)
SUITE(tuple_8, 80, 3000, std::tuple<int, int, int, int, int, int, int, int>)

SUITE(tuple_13, 40, 1500, std::tuple<int, S, int, S, int, S, int, S, int, S, int, S, bool>)
SUITE(tuple_16, 40, 1500, std::tuple<int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int>)
SUITE(tuple_20, 40, 1500, std::tuple<int, int, int, int, int, int, int, int, int, int, S, S, S, S, S, S, S, double, double, List<int>>)

// ------------------------------------------------------------------ every element is written once, in order
template<class C> void recorded(Rng& r, char const* what) {
    C c; std::vector<int> ids; size_t n = r.chance(1, 12) ? r.edge(600) : r.below(7); { mon::Untracked u; for (size_t i = 0; i < n; ++i) ids.push_back(static_cast<int>(i * 10 + r.below(10))); }
    if constexpr (requires { c.push_back(typename C::value_type(1)); }) for (int i : ids) c.push_back(typename C::value_type(i)); else for (int i : ids) c.insert(typename C::value_type(i));
    std::ostringstream os; mon::log("%s %s", what, mon::show(ids).c_str()); { mon::Untracked u; written().clear(); } { using Helper::operator<<; os << c; }
    MON_CHECK(written() == ids, "written-once", what << " wrote the elements " << mon::show(written()) << ", expected " << mon::show(ids)); mon::event("recorded elements", n); mon::nontrivial();
}
MON_SUITE(recorded_elements, 200, 5000) { recorded<std::vector<Rec>>(rng, "vector"); recorded<List<Rec>>(rng, "list"); recorded<LinkedList<Rec>>(rng, "linked list"); recorded<Set<Rec>>(rng, "set"); }
MON_SUITE(uncopyable, 200, 5000) {
    recorded<std::vector<Solid>>(rng, "vector of uncopyable"); recorded<std::list<Solid>>(rng, "linked list of uncopyable"); recorded<std::set<Solid>>(rng, "set of uncopyable");
    size_t n = rng.below(6); Array<Solid> a(n); SharedArray<Solid> s(n); std::map<int, Solid> m; S wa = "[", wm = "{"; for (size_t i = 0; i < n; ++i) { a[i].id = s[i].id = static_cast<int>(i); m.emplace(static_cast<int>(i), Solid(static_cast<int>(i))); wa += (i ? ",s" : "s") + std::to_string(i); wm += (i ? ", " : " ") + std::to_string(i) + ":s" + std::to_string(i); }
    std::ostringstream os; { using Helper::operator<<; os << a << s << m; } MON_CHECK(os.str() == wa + "]" + wa + "]" + wm + " }", "text", "containers of uncopyable elements are written as " << os.str());
    { std::ostringstream o, w; std::map<int, std::shared_ptr<Solid>> mp; std::vector<std::shared_ptr<Solid>> ps; std::map<Solid, Solid> mm; for (size_t i = 0; i < n; ++i) { mp[static_cast<int>(i)] = std::make_shared<Solid>(static_cast<int>(i)); ps.push_back(mp[static_cast<int>(i)]); mm.emplace(static_cast<int>(i), static_cast<int>(i) + 5); } w << "<"; for (size_t i = 0; i < n; ++i) w << (i ? ";s" : "s") << i; w << "><"; for (size_t i = 0; i < n; ++i) w << (i ? ";s" : "s") << i; w << ">{"; for (size_t i = 0; i < n; ++i) w << (i ? "," : "") << i << ":s" << i; w << "}{"; for (size_t i = 0; i < n; ++i) w << (i ? "," : "") << i << ":s" << i; w << "}{"; for (size_t i = 0; i < n; ++i) w << (i ? "," : "") << "s" << i << ":s" << i + 5; w << "}";
      Helper::write_sequence(o, a.begin(), a.end(), '<', '>', ';'); Helper::write_pointer_sequence(o, ps.begin(), ps.end(), '<', '>', ';'); Helper::write_map_sequence(o, m.begin(), m.end()); Helper::write_map_pointer_sequence(o, mp.begin(), mp.end()); Helper::write_map_sequence(o, mm.begin(), mm.end()); MON_CHECK(o.str() == w.str(), "text", "sequences of uncopyable elements are written as " << o.str() << " instead of " << w.str()); }
    mon::event("uncopyable elements", n + 1);
}
// ------------------------------------------------------------------ the sequence writers
struct Term { int i; double c; int index() const { return i; } double coefficient() const { return c; } };
MON_SUITE(writers, 1500, 60000) {
    Rng& r = rng; bool plain = r.chance(1, 4); int style = static_cast<int>(r.below(4)); S few; for (int i = 0; i < 2; ++i) few += ",:;[]{} \n|x0"[r.below(12)];
    // usual characters, any characters at all, or two characters for all four purposes
    auto ch = [&] { return style == 0 ? static_cast<char>(r.below(256)) : style == 1 ? few[r.below(2)] : static_cast<char>(33 + r.below(94)); };
    char o = ch(), c = ch(), s = ch(), d = ch(); if (r.chance(1, 10)) s = '\0'; if (r.chance(1, 10)) o = ' ';
    int kind = static_cast<int>(r.below(5)), dflt = static_cast<int>(plain ? 0 : 1 + r.below(3)); bool map = kind >= 2; if (dflt < 1) { o = map ? '{' : '['; } if (dflt < 2) c = map ? '}' : ']'; if (dflt < 3) s = ','; bool described = dflt == 3 && r.chance(1, 2); if (!described) d = ':';
    List<int> v; Map<int, S> m; std::map<int, std::shared_ptr<double>> mp; std::vector<std::unique_ptr<double>> ps; std::vector<Term> ts; size_t n = r.chance(1, 4) ? 0 : r.chance(1, 25) ? r.edge(300) : r.below(8); int key = 0; if (s == d) mon::event("equal separators and descriptors"); if (o == c) mon::event("equal brackets"); if (s == o || s == c) mon::event("separators like brackets");
    for (size_t i = 0; i < n; ++i) { int x = G<int>::make(r); double y = G<double>::make(r); key += static_cast<int>(1 + r.below(20)); v.push_back(x); m[key] = G<S>::make(r); mp[key] = std::make_shared<double>(y); ps.push_back(std::make_unique<double>(y)); ts.push_back(Term{key, y}); }
    mon::log("kind %d, %zu elements, characters %d %d %d %d", kind, n, o, c, s, d); size_t from = n ? r.below(n + 1) : 0, to = from + (n > from ? r.below(n - from + 1) : 0);  // a part of the sequence
    auto call = [&](auto f, std::ostream& os, auto b, auto e) -> std::ostream& { switch (dflt) { case 0: return f(os, b, e); case 1: return f(os, b, e, o); case 2: return f(os, b, e, o, c); default: if constexpr (requires { f(os, b, e, o, c, s, d); }) { if (described) return f(os, b, e, o, c, s, d); } return f(os, b, e, o, c, s); } };
    auto seq = [&](S& w, auto one) { w += o; for (size_t i = from; i < to; ++i) { if (i > from) w += s; one(w, i); } w += c; };
    long df = static_cast<long>(from), dt = static_cast<long>(to);
    switch (kind) {
    case 0: judge(r, "write_sequence", [&](std::ostream& os) -> std::ostream& { return call([](std::ostream& q, auto... a) -> decltype(Helper::write_sequence(q, a...)) { return Helper::write_sequence(q, a...); }, os, v.begin() + df, v.begin() + dt); }, [&](S& w, std::ios const& f) { seq(w, [&](S& z, size_t i) { leaf(z, f, v[i]); }); }); break;
    case 1: judge(r, "write_pointer_sequence", [&](std::ostream& os) -> std::ostream& { return call([](std::ostream& q, auto... a) -> decltype(Helper::write_pointer_sequence(q, a...)) { return Helper::write_pointer_sequence(q, a...); }, os, ps.begin() + df, ps.begin() + dt); }, [&](S& w, std::ios const& f) { seq(w, [&](S& z, size_t i) { leaf(z, f, *ps[i]); }); }); break;
    case 2: judge(r, "write_map_sequence", [&](std::ostream& os) -> std::ostream& { return call([](std::ostream& q, auto... a) -> decltype(Helper::write_map_sequence(q, a...)) { return Helper::write_map_sequence(q, a...); }, os, std::next(m.begin(), df), std::next(m.begin(), dt)); }, [&](S& w, std::ios const& f) { seq(w, [&](S& z, size_t i) { auto it = std::next(m.begin(), static_cast<long>(i)); leaf(z, f, it->first); z += d; z += it->second; }); }); break;
    case 3: judge(r, "write_map_pointer_sequence", [&](std::ostream& os) -> std::ostream& { return call([](std::ostream& q, auto... a) -> decltype(Helper::write_map_pointer_sequence(q, a...)) { return Helper::write_map_pointer_sequence(q, a...); }, os, std::next(mp.begin(), df), std::next(mp.begin(), dt)); }, [&](S& w, std::ios const& f) { seq(w, [&](S& z, size_t i) { auto it = std::next(mp.begin(), static_cast<long>(i)); leaf(z, f, it->first); z += d; leaf(z, f, *it->second); }); }); break;
    default: judge(r, "write_coefficient_map_sequence", [&](std::ostream& os) -> std::ostream& { return call([](std::ostream& q, auto... a) -> decltype(Helper::write_coefficient_map_sequence(q, a...)) { return Helper::write_coefficient_map_sequence(q, a...); }, os, ts.begin() + df, ts.begin() + dt); }, [&](S& w, std::ios const& f) { seq(w, [&](S& z, size_t i) { leaf(z, f, ts[i].i); z += d; leaf(z, f, ts[i].c); }); }); break;
    }
    mon::event("sequence writers");
}
MON_SUITE(single_pass, 100, 3000) {  // ranges which can be read only once
    std::string text; std::vector<int> v; for (size_t k = rng.below(8); k > 0; --k) { v.push_back(G<int>::make(rng)); text += std::to_string(v.back()) + " "; } std::istringstream is(text); std::ostringstream os; mon::log("%s", text.c_str());
    Helper::write_sequence(os, std::istream_iterator<int>(is), std::istream_iterator<int>(), '<', '>', '|'); S w = "<"; for (size_t i = 0; i < v.size(); ++i) w += (i ? "|" : "") + std::to_string(v[i]); MON_CHECK(os.str() == w + ">", "text", "write_sequence of a single-pass range writes " << os.str()); mon::event("single-pass ranges"); mon::nontrivial();
}
template<class C> void large(Rng& r, char const* what) {  // far more elements than any buffer
    C c; size_t n = 300 + r.below(5000); bool set = false; S w; std::ostringstream os; mon::log("%s of %zu", what, n);
    if constexpr (requires { c.push_back(typename C::value_type()); }) for (size_t i = 0; i < n; ++i) c.push_back(G<typename C::value_type>::make(r));
    else if constexpr (requires { c.resize(n); }) { c.resize(n); for (size_t i = 0; i < n; ++i) c[i] = G<typename C::value_type>::make(r); }
    else { set = true; for (size_t i = 0; i < n; ++i) c.insert(static_cast<typename C::value_type>(r.below(1u << 20))); }
    (void)set; G<C>::render(w, os, c); { using Helper::operator<<; os << c; } MON_CHECK(os.str() == w, "text", "a " << what << " of " << n << " elements is written wrongly: '" << os.str().substr(0, 200) << "'"); mon::nontrivial();
}
MON_SUITE(large, 6, 60) {
    large<List<int>>(rng, "list"); large<std::vector<S>>(rng, "vector"); large<LinkedList<int>>(rng, "linked list"); large<Array<double>>(rng, "array"); large<Set<int>>(rng, "set");
    { size_t n = 300 + rng.below(3000); SharedArray<int> a(n); Map<int, int> m; for (size_t i = 0; i < n; ++i) { a[i] = G<int>::make(rng); m.insert(static_cast<int>(i * 3), a[i]); } S w; std::ostringstream os; G<SharedArray<int>>::render(w, os, a); G<Map<int, int>>::render(w, os, m); os << a << m; MON_CHECK(os.str() == w, "text", "a shared array and a map of " << n << " elements are written wrongly"); }
}
int main(int c, char** v) {
    { auto* i = new std::ios_base::Init; (void)i; }
    mon::require("texts", 3000); for (char const* e : {"full streams", "failed streams", "recorded elements", "uncopyable elements", "sequence writers", "single-pass ranges", "equal brackets", "separators like brackets"}) mon::require(e, 90);
    mon::require("equal separators and descriptors", 12);
    return mon::main(c, v);
}
