// C11: reading sequences and binary words.  Oracle: a parser of its own over strings, and what was written.
#include "mon.hpp"
#include <climits>
#include <deque>
#include <fstream>
#include <list>
#include <sstream>
#include <string>
#include <cstdlib>
#include <iostream>
#include "container.hpp"
#include "binary_word.hpp"

using Helper::BinaryWord; using Helper::List; using Helper::LinkedList; using mon::Rng;
typedef std::string S;

// ------------------------------------------------------------------ item types: how they are read, by an independent parser
struct Tok { char c = '?'; int n = -1; };  // a letter directly followed by a number
inline std::istream& operator>>(std::istream& is, Tok& t) { char c; if (!(is >> c)) return is; if (c < 'a' || c > 'z') { is.setstate(std::ios_base::failbit); return is; } t.c = c; is >> t.n; return is; }
inline std::ostream& operator<<(std::ostream& os, Tok const& t) { return os << t.c << t.n; }
inline bool operator==(Tok const& a, Tok const& b) { return a.c == b.c && a.n == b.n; }

void blanks(S const& s, size_t& p) { while (p < s.size() && std::isspace(static_cast<unsigned char>(s[p]))) ++p; }
bool integer(S const& s, size_t& p, long lo, long hi, long& v) {
    bool neg = false; if (p < s.size() && (s[p] == '+' || s[p] == '-')) neg = s[p++] == '-';
    size_t b = p; long x = 0; bool over = false; while (p < s.size() && s[p] >= '0' && s[p] <= '9') { x = x * 10 + (s[p++] - '0'); if (x > (1L << 40)) { over = true; x = 1L << 40; } }
    if (p == b || over) return false; if (neg) x = -x; if (x < lo || x > hi) return false; v = x; return true;
}
template<class T> struct Item;
template<> struct Item<int> { static constexpr char const* alphabet = "0123456789-+"; static bool parse(S const& s, size_t& p, int& v) { blanks(s, p); long x; if (!integer(s, p, INT_MIN, INT_MAX, x)) return false; v = static_cast<int>(x); return true; }
    static S text(Rng& r, int& v) { v = r.chance(1, 8) ? (r.chance(1, 2) ? INT_MAX : INT_MIN) : static_cast<int>(r.range(-1000, 100000)); S z = v >= 0 && r.chance(1, 8) ? "+" : ""; if (v >= 0 && r.chance(1, 8)) z += "00"; return z + std::to_string(v); } };
template<> struct Item<short> { static constexpr char const* alphabet = "0123456789-+"; static bool parse(S const& s, size_t& p, short& v) { blanks(s, p); long x; if (!integer(s, p, SHRT_MIN, SHRT_MAX, x)) return false; v = static_cast<short>(x); return true; }
    static S text(Rng& r, short& v) { v = static_cast<short>(r.next()); return std::to_string(v); } };
template<> struct Item<bool> { static constexpr char const* alphabet = "012-+"; static bool parse(S const& s, size_t& p, bool& v) { blanks(s, p); long x; if (!integer(s, p, 0, 1, x)) return false; v = x; return true; }
    static S text(Rng& r, bool& v) { v = r.chance(1, 2); return v ? "1" : "0"; } };
template<> struct Item<char> { static constexpr char const* alphabet = "abc;,[]"; static bool parse(S const& s, size_t& p, char& v) { blanks(s, p); if (p >= s.size()) return false; v = s[p++]; return true; }
    static S text(Rng& r, char& v) { v = static_cast<char>('a' + r.below(26)); return S(1, v); } };
template<> struct Item<Tok> { static constexpr char const* alphabet = "abz0123-"; static bool parse(S const& s, size_t& p, Tok& t) { blanks(s, p); if (p >= s.size() || s[p] < 'a' || s[p] > 'z') return false; t.c = s[p++]; return Item<int>::parse(s, p, t.n); }
    static S text(Rng& r, Tok& t) { t.c = static_cast<char>('a' + r.below(26)); S s = Item<int>::text(r, t.n); return S(1, t.c) + (r.chance(1, 4) ? " " : "") + s; } };
struct Sep { char o, c, s; };
template<class T> bool parse_sequence(S const& s, size_t& p, Sep b, std::vector<T>& v) {
    v.clear(); blanks(s, p); if (p >= s.size() || s[p++] != b.o) return false;
    blanks(s, p); if (p >= s.size()) return false; if (s[p] == b.c) { ++p; return true; }
    for (;;) { T x; if (!Item<T>::parse(s, p, x)) return false; v.push_back(x); blanks(s, p); if (p >= s.size()) return false; char c = s[p++]; if (c == b.c) return true; if (c != b.s) return false; }
}
template<class T> struct Item<std::vector<T>> { static constexpr char const* alphabet = "01[],"; static bool parse(S const& s, size_t& p, std::vector<T>& v) { return parse_sequence<T>(s, p, Sep{'[', ']', ','}, v); }
    static S text(Rng& r, std::vector<T>& v); };
S gap(Rng& r) { switch (r.below(12)) { case 0: return " "; case 1: return "\n"; case 2: return " \t "; default: return ""; } }
template<class T> S sequence_text(Rng& r, Sep b, std::vector<T>& v, size_t max) {
    size_t n = r.chance(1, 6) ? 0 : max > 4 && r.chance(1, 60) ? r.edge(max * 100) : r.below(max + 1); S s = S(1, b.o); v.clear();
    for (size_t i = 0; i < n; ++i) { if (i) s += b.s; T x; s += gap(r) + Item<T>::text(r, x) + gap(r); v.push_back(x); }
    if (n == 0) s += gap(r);
    return s + b.c;
}
template<class T> S Item<std::vector<T>>::text(Rng& r, std::vector<T>& v) { return sequence_text<T>(r, Sep{'[', ']', ','}, v, 4); }

template<class T> S item_show(T const& x) { std::ostringstream os; os << x; return os.str(); }
template<class T> S item_show(std::vector<T> const& v);
template<class C> S seq_show(C const& c) { S s = "<"; bool first = true; for (auto it = c.begin(); it != c.end(); ++it) { if (!first) s += ' '; first = false; s += item_show(static_cast<typename C::value_type const&>(*it)); } return s + ">"; }
template<class T> S item_show(std::vector<T> const& v) { return seq_show(v); }

// ------------------------------------------------------------------ streams
struct OneByOne : std::streambuf {  // gives one character at a time and can take back exactly one
    S s; size_t p = 0; char b[2]; size_t fetched = 0;
    explicit OneByOne(S const& t) : s(t) { setg(b + 1, b + 1, b + 1); }
    int_type underflow() override { if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (p == s.size()) return traits_type::eof(); if (p) b[0] = s[p - 1]; b[1] = s[p++]; setg(p > 1 ? b : b + 1, b + 1, b + 2); return traits_type::to_int_type(b[1]); }
};
struct Input {
    std::unique_ptr<std::streambuf> own; std::unique_ptr<std::istream> is; int kind; bool throwing = false;
    Input(Rng& r, S const& text, bool eof_may_throw) {
        kind = static_cast<int>(r.below(8));
        if (kind < 4) is = std::make_unique<std::istringstream>(text);
        else if (kind < 7) { own = std::make_unique<OneByOne>(text); is = std::make_unique<std::istream>(own.get()); }
        else { { std::ofstream o("input.txt", std::ios::binary); o << text; } is = std::make_unique<std::ifstream>("input.txt", std::ios::binary); }
        if (r.chance(1, 4)) { throwing = true; is->exceptions(std::ios::failbit | std::ios::badbit | (eof_may_throw && r.chance(1, 2) ? std::ios::eofbit : std::ios::goodbit)); mon::log("exceptions"); }
        mon::log("stream %d", kind);
    }
    S rest() { is->exceptions(std::ios::goodbit); is->clear(); S s; int c; while ((c = is->get()) != EOF) s += static_cast<char>(c); return s; }
};
template<class C> C filled() { C c; for (int i = 0; i < 3; ++i) c.push_back(typename C::value_type()); return c; }

// Reads the text into a container which is not empty before and compares with the parser's opinion.
template<class C> void read_and_compare(Rng& r, S const& text, Sep b, bool by_operator) {
    typedef typename C::value_type T; std::vector<T> want; size_t p = 0; bool ok; { mon::Untracked u; ok = parse_sequence<T>(text, p, b, want); }
    mon::log("read '%s' with %d %d %d%s", text.c_str(), b.o, b.c, b.s, by_operator ? " by >>" : ""); Input in(r, text, true); C c = filled<C>(); std::istream* back = nullptr;
    auto o = mon::attempt([&] {
        if constexpr (std::is_base_of_v<std::vector<T>, C>) { if (by_operator) { using std::operator>>; back = &(*in.is >> static_cast<std::vector<T>&>(c)); return; } }
        if (b.o == '[' && b.c == ']' && b.s == ',' && r.chance(1, 2)) back = &Helper::read_sequence(*in.is, c);
        else back = &Helper::read_sequence(*in.is, c, b.o, b.c, b.s); });
    if (ok) {
        MON_CHECK(o == mon::Outcome::returned, "well-formed-rejected", "reading the well-formed '" << text << "' " << mon::name(o));
        MON_CHECK(back == in.is.get(), "stream-returned", "reading returns another stream"); MON_CHECK(!in.is->fail() && !in.is->eof(), "stream-state", "after reading '" << text << "' the stream has state " << in.is->rdstate());
        S g = seq_show(c), w = seq_show(want); MON_CHECK(g == w && c.size() == want.size(), "items", "reading '" << text << "' gives " << g << ", expected " << w);
        S rest = in.rest(); MON_CHECK(rest == text.substr(p), "rest", "after reading '" << text << "' the rest is '" << rest << "', expected '" << text.substr(p) << "'"); mon::event(text.size() > p ? "accepted texts with more to follow" : "accepted whole texts"); if (want.empty()) mon::event("empty sequences");
    } else { MON_CHECK(o == mon::Outcome::threw_ios, "malformed-accepted", "reading the malformed '" << text << "' " << mon::name(o) << " with " << seq_show(c)); mon::event("rejected texts"); }
    mon::nontrivial();
}
S mutate(Rng& r, S s, S const& alphabet) {
    for (int n = static_cast<int>(r.below(3)) + 1; n > 0; --n) { if (s.empty()) return s; size_t p = r.below(s.size()); char c = r.chance(1, 4) ? static_cast<char>(r.below(256)) : alphabet[r.below(alphabet.size())];
        switch (r.below(5)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, c); break; case 2: s[p] = c; break; case 3: s.resize(p); break; default: std::swap(s[p], s[r.below(s.size())]); break; } }
    return s;
}
template<class C> void texts(Rng& r, bool numeric) {
    typedef typename C::value_type T; static Sep const seps[] = {{'[', ']', ','}, {'(', ')', ';'}, {'{', '}', ','}, {'<', '>', '|'}, {'|', '|', ','}, {'#', '#', '#' + 1}, {'[', ']', '['}, {':', '.', '/'}};
    Sep b = seps[r.chance(1, 2) ? 0 : r.below(numeric ? 8 : 4)]; bool by = b.o == '[' && b.c == ']' && b.s == ',' && r.chance(1, 3);
    std::vector<T> v; S s = gap(r) + sequence_text<T>(r, b, v, 6); S alphabet = S(Item<T>::alphabet) + b.o + b.c + b.s + " \n\tx";
    switch (r.below(6)) {
    case 0: case 1: break;                                              // well-formed
    case 2: s += r.chance(1, 2) ? " tail" : "]7,8"; break;              // followed by other text
    case 3: s = s.substr(0, r.below(s.size() + 1)); mon::event("truncated texts"); break;
    case 4: s = mutate(r, s, alphabet); break;
    default: { size_t n = r.below(9); s = ""; for (size_t i = 0; i < n; ++i) s += i == 0 && r.chance(2, 3) ? b.o : alphabet[r.below(alphabet.size())]; break; }
    }
    read_and_compare<C>(r, s, b, by);
}
// every character in the place of every punctuation character of a text, of which only the right one may be accepted
MON_SUITE(punctuation, 40, 1200) {
    static Sep const seps[] = {{'[', ']', ','}, {'(', ')', ';'}, {'{', '}', '|'}, {'<', '>', ':'}}; Sep b = rng.chance(1, 2) ? seps[0] : seps[rng.below(4)]; std::vector<int> v; S s; do s = sequence_text<int>(rng, b, v, 4); while (v.size() < 2 || s.size() > 60);
    std::vector<size_t> places; for (size_t i = 0; i < s.size(); ++i) if (s[i] == b.o || s[i] == b.c || s[i] == b.s) places.push_back(i);
    size_t p = rng.pick(places); bool by = b.o == '[' && rng.chance(1, 2);
    for (int c = 0; c < 256; ++c) { S t = s; t[p] = static_cast<char>(c); if (rng.chance(1, 2)) t += " ]"; mon::page->used = 0; read_and_compare<std::vector<int>>(rng, t, b, by); } mon::event("replaced punctuation");
}
// brackets and separators of all kinds of characters
MON_SUITE(any_punctuation, 600, 20000) {
    auto ch = [&] { for (;;) { char c = static_cast<char>(rng.below(256)); if (!std::isspace(static_cast<unsigned char>(c)) && !(c >= '0' && c <= '9') && c != '-' && c != '+') return c; } };
    Sep b{ch(), ch(), ch()}; if (rng.chance(1, 8)) b.s = b.o; if (rng.chance(1, 8)) b.c = b.o; if (rng.chance(1, 12)) b.s = '\0'; if (rng.chance(1, 12)) b.o = '\0'; if (rng.chance(1, 12)) b.c = '\0'; if (b.c == b.s) return;  // could not tell whether more items follow
    std::vector<int> v; S s = sequence_text<int>(rng, b, v, 6); if (rng.chance(1, 4)) s = s.substr(0, rng.below(s.size() + 1)); else if (rng.chance(1, 3)) s = mutate(rng, s, S("019- ") + b.o + b.c + b.s); else s += "x"; read_and_compare<List<int>>(rng, s, b, false); mon::event("texts with unusual punctuation");
}
// a source which breaks down while it is read
struct Broken : OneByOne { size_t limit, given = 0; Broken(S const& t, size_t n) : OneByOne(t), limit(n) {} int_type underflow() override { if (gptr() == egptr() && given++ >= limit) throw std::runtime_error("source broke"); return OneByOne::underflow(); } };
MON_SUITE(broken_sources, 200, 8000) {
    std::vector<int> v; S s = sequence_text<int>(rng, Sep{'[', ']', ','}, v, 6); size_t at = rng.below(s.size() + 3); bool throwing = rng.chance(1, 3); mon::log("'%s' breaks at %zu", s.c_str(), at); Broken b(s, at); std::istream is(&b); if (throwing) is.exceptions(std::ios::badbit); std::vector<int> g(2, 5);
    auto o = mon::attempt([&] { Helper::read_sequence(is, g); });
    if (at >= s.size()) MON_CHECK(o == mon::Outcome::returned && g == v && is.good(), "items", "reading '" << s << "' from a source which works this far " << mon::name(o));
    else { MON_CHECK(o == mon::Outcome::threw_ios || (throwing && o == mon::Outcome::threw_runtime), "broken-source", "reading '" << s << "' from a source broken after " << at << " characters " << mon::name(o)); mon::event("broken sources"); }
    mon::nontrivial();
}
// with other number formats, and without skipping blanks where there are none
MON_SUITE(formats, 300, 10000) {
    std::vector<unsigned> v, g; for (size_t n = rng.below(9); n > 0; --n) v.push_back(static_cast<unsigned>(rng.chance(1, 2) ? rng.below(300) : rng.next())); std::stringstream ss; switch (rng.below(3)) { case 0: ss << std::hex; break; case 1: ss << std::oct; break; default: break; } if (rng.chance(1, 3)) ss << std::uppercase;
    Helper::write_sequence(ss, v.begin(), v.end()); if (rng.chance(1, 2)) ss << std::noskipws; auto flags = ss.flags(); mon::log("'%s' flags %x", ss.str().c_str(), static_cast<unsigned>(flags)); auto o = mon::attempt([&] { Helper::read_sequence(ss, g); });
    MON_CHECK(o == mon::Outcome::returned && g == v && !ss.fail(), "items", "'" << ss.str() << "' is read as " << mon::show(g)); MON_CHECK(ss.flags() == flags, "stream-format", "reading changed the format of the stream"); mon::event("other formats"); mon::nontrivial();
}
MON_SUITE(ints, 3000, 120000) { texts<std::vector<int>>(rng, true); }
MON_SUITE(shorts, 1000, 40000) { texts<List<short>>(rng, true); }
MON_SUITE(bools, 1000, 40000) { texts<std::vector<bool>>(rng, true); }
MON_SUITE(chars, 1000, 40000) { texts<std::vector<char>>(rng, false); }
MON_SUITE(tokens, 1000, 40000) { texts<std::deque<Tok>>(rng, true); }
MON_SUITE(lists, 500, 20000) { texts<std::list<int>>(rng, true); }
MON_SUITE(linked, 500, 20000) { texts<LinkedList<int>>(rng, true); }
MON_SUITE(nested, 1000, 40000) { texts<std::vector<std::vector<int>>>(rng, false); }
MON_SUITE(truncations, 60, 1500) {  // every prefix of a text
    std::vector<int> v; S s = gap(rng) + sequence_text<int>(rng, Sep{'[', ']', ','}, v, 6); for (size_t n = 0; n <= s.size(); ++n) { read_and_compare<std::vector<int>>(rng, s.substr(0, n), Sep{'[', ']', ','}, rng.chance(1, 2)); mon::event("truncated texts"); }
}
// all texts of a small alphabet up to a length: the case number is the first characters
MON_SUITE(all_texts, 36, 216) {
    static char const a[] = "[],1 x"; uint64_t c = mon::st().case_no; S head; for (int i = 0; i < (mon::st().thorough ? 3 : 2); ++i) { head += a[c % 6]; c /= 6; }
    S s; for (int len = 0; len <= 4; ++len) { long total = 1; for (int i = 0; i < len; ++i) total *= 6; for (long k = 0; k < total; ++k) { s = head; long q = k; for (int i = 0; i < len; ++i) { s += a[q % 6]; q /= 6; } mon::page->used = 0;
        std::vector<int> want, got; size_t p = 0; bool ok = parse_sequence<int>(s, p, Sep{'[', ']', ','}, want); std::istringstream is(s); auto o = mon::attempt([&] { Helper::read_sequence(is, got); });
        MON_CHECK(ok ? o == mon::Outcome::returned : o == mon::Outcome::threw_ios, ok ? "well-formed-rejected" : "malformed-accepted", "reading '" << s << "' " << mon::name(o));
        if (ok) { MON_CHECK(got == want, "items", "reading '" << s << "' gives " << seq_show(got)); MON_CHECK(static_cast<size_t>(is.tellg()) == p, "rest", "reading '" << s << "' stops at " << is.tellg() << ", expected " << p); mon::event("accepted short texts"); } else mon::event("rejected short texts"); } }
    mon::log("%s", head.c_str()); mon::nontrivial();
}
// ------------------------------------------------------------------ what was written is read back
template<class T> void written(Rng& r) {
    List<T> l; size_t n = r.below(20); for (size_t i = 0; i < n; ++i) { T x; Item<T>::text(r, x); l.push_back(x); }
    std::ostringstream os; { using Helper::operator<<; os << static_cast<std::vector<T> const&>(l); } S tail = r.chance(1, 2) ? "" : "12]"; read_and_compare<std::vector<T>>(r, os.str() + tail, Sep{'[', ']', ','}, true);
    std::vector<T> back; std::istringstream is(os.str()); Helper::read_sequence(is, back); MON_CHECK(seq_show(back) == seq_show(l), "written", "'" << os.str() << "' is read as " << seq_show(back)); mon::event("sequences read back");
}
MON_SUITE(written_ints, 200, 8000) { written<int>(rng); }
MON_SUITE(written_bools, 200, 8000) { written<bool>(rng); }
MON_SUITE(doubles, 300, 10000) {
    std::vector<double> v, g; size_t n = rng.below(8); for (size_t i = 0; i < n; ++i) v.push_back(static_cast<double>(rng.range(-100000, 100000)) / 64.0); std::ostringstream os; os.precision(17); Helper::write_sequence(os, v.begin(), v.end(), '(', ')', ' '); S s = os.str(); mon::log("%s", s.c_str());
    // a blank as separator cannot be told from optional blanks: written with commas instead
    for (char& c : s) if (c == ' ') c = ','; std::istringstream is(s + "9"); Helper::read_sequence(is, g, '(', ')', ','); MON_CHECK(g == v, "written", "'" << s << "' is read as " << mon::show(g)); MON_CHECK(is.get() == '9', "rest", "more than the sequence was read"); mon::nontrivial();
}
// ------------------------------------------------------------------ binary words
S bits(BinaryWord const& w) { S s; for (size_t i = 0; i < w.size(); ++i) s += w[i] ? '1' : '0'; return s; }
void word_forms(Rng& r, S const& m) {
    BinaryWord w; for (char c : m) w.push_back(c == '1'); S form; int f = static_cast<int>(r.below(4));
    if (f == 0) { std::ostringstream os; os << w; form = os.str(); MON_CHECK(form == (m.empty() ? "e" : m), "written-form", "the word " << m << " is written as " << form); }
    else if (f == 1) { std::ostringstream os; { using Helper::operator<<; os << static_cast<std::vector<bool> const&>(w); } form = os.str(); }
    else if (f == 2) form = m.empty() ? "e" : m;
    else { form = "["; for (size_t i = 0; i < m.size(); ++i) { if (i) form += ","; form += gap(r) + m[i] + gap(r); } form += "]"; }
    S lead = r.chance(1, 4) ? gap(r) : "", tail; static char const* const tails[] = {"", "", " 01", ",", "x", "]", "\n1", "2", "-", "[0]", " "}; tail = tails[r.below(11)]; if (form == "e" && r.chance(1, 4)) tail = "01";
    S text = lead + form + tail; mon::log("word '%s'", text.c_str()); Input in(r, text, false); BinaryWord got; for (int i = 0; i < 3; ++i) got.push_back(true); auto o = mon::attempt([&] { *in.is >> got; });
    MON_CHECK(o == mon::Outcome::returned && !in.is->fail(), "word-rejected", "reading the word '" << text << "' " << mon::name(o) << ", state " << in.is->rdstate());
    MON_CHECK(bits(got) == m, "word", "'" << text << "' is read as " << bits(got)); S rest = in.rest(); MON_CHECK(rest == tail, "word-rest", "after reading a word from '" << text << "' the rest is '" << rest << "'");
    if (tail.empty()) { BinaryWord a = Helper::make_binary_word(lead + form), b(lead + form); MON_CHECK(bits(a) == m && bits(b) == m, "made-word", "a word made from '" << text << "' is " << bits(a) << " or " << bits(b)); }
    mon::event(f == 0 || f == 2 ? "words as bits" : "words as lists"); if (m.empty()) mon::event("empty words"); if (!tail.empty()) mon::event("words with more to follow"); mon::nontrivial();
}
MON_SUITE(words, 2500, 100000) { S m; size_t n = rng.chance(1, 6) ? 0 : rng.chance(1, 30) ? rng.edge(2100) : rng.below(rng.chance(1, 5) ? 150 : 12); for (size_t i = 0; i < n; ++i) m += rng.chance(1, 2) ? '1' : '0'; word_forms(rng, m); }
MON_SUITE(huge_words, 6, 60) { S m; size_t n = (rng.chance(1, 2) ? size_t(1) << rng.range(11, 17) : rng.below(100000)) + rng.below(3000); while (m.size() < n) { m += rng.chance(1, 2) ? "0110" : "1010011"; } word_forms(rng, m); mon::event("huge words"); }
#ifdef NDEBUG
MON_SUITE(millions_of_bits, 1, 6) { size_t n = (size_t(1) << rng.range(20, 22)) + rng.below(3000); S m; while (m.size() < n) m += rng.chance(1, 2) ? "0110" : "1010011"; mon::log("%zu bits", m.size()); std::stringstream is(m + " rest"); BinaryWord w, u(m); is >> w; S rest; std::getline(is, rest); MON_CHECK(bits(w) == m && rest == " rest" && bits(u) == m, "word", "a word of " << m.size() << " bits is read as one of " << w.size() << " and made as one of " << u.size()); std::ostringstream os; os << w; MON_CHECK(os.str() == m, "written-form", "a word of " << m.size() << " bits is written by " << os.str().size() << " characters"); mon::nontrivial(); }
#endif
MON_SUITE(several_words, 300, 12000) {  // words written one after the other
    std::vector<S> ms; std::stringstream ss; size_t n = 1 + rng.below(6); for (size_t i = 0; i < n; ++i) { S m; for (size_t k = rng.below(9); k > 0; --k) m += rng.chance(1, 2) ? '1' : '0'; BinaryWord w; for (char c : m) w.push_back(c == '1'); if (i) ss << ' '; ss << w; ms.push_back(m); }
    mon::log("'%s'", ss.str().c_str()); for (size_t i = 0; i < n; ++i) { BinaryWord w; ss >> w; MON_CHECK(!ss.fail() && bits(w) == ms[i], "word", "word " << i << " of '" << ss.str() << "' is read as " << bits(w)); } mon::event("words after words", n); mon::nontrivial();
}
MON_SUITE(malformed_words, 500, 20000) {  // no result is prescribed, but nothing unread may be used and malformed lists fail
    static char const a[] = "01e[], x2"; S s; for (size_t k = rng.below(8); k > 0; --k) s += a[rng.below(9)]; mon::log("'%s'", s.c_str()); Input in(rng, s, false); BinaryWord w; auto o = mon::attempt([&] { *in.is >> w; });
    size_t p = 0; blanks(s, p); if (p < s.size() && s[p] == '[') { std::vector<bool> v; bool ok = parse_sequence<bool>(s, p, Sep{'[', ']', ','}, v); MON_CHECK(ok == (o == mon::Outcome::returned), ok ? "word-rejected" : "malformed-word-list", "reading the word '" << s << "' " << mon::name(o)); }
    else if (o == mon::Outcome::returned) { for (bool b : w) { S z = b ? "1" : "0"; MON_CHECK(s.find(z) != S::npos, "invented-bit", "reading '" << s << "' gives the bit " << z); } }
    mon::event("malformed words"); mon::nontrivial();
}
int main(int c, char** v) {
    for (char const* e : {"accepted whole texts", "accepted texts with more to follow", "empty sequences", "rejected texts", "truncated texts", "sequences read back", "words as bits", "words as lists", "empty words", "words with more to follow", "malformed words", "other formats", "broken sources", "texts with unusual punctuation"}) mon::require(e, 100);
    mon::require("replaced punctuation", 20);
    return mon::main(c, v);
}
