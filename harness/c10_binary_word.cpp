// C10: binary words.  Oracle: strings of the characters 0 and 1.
#include "mon.hpp"
#include <algorithm>
#include <set>
#include <string>
#include <cstdlib>
#include <iostream>
#include "binary_word.hpp"

using Helper::BinaryWord; using mon::Rng;
typedef std::string S;

S read(BinaryWord const& w) { S s; for (size_t i = 0; i < w.size(); ++i) s += w[i] ? '1' : '0'; return s; }
BinaryWord word(S const& s) { BinaryWord w; for (char c : s) w.push_back(c == '1'); return w; }
S random_word(Rng& r, size_t max) { size_t n = r.chance(1, 8) ? 0 : r.below(max + 1); S s; int k = static_cast<int>(r.below(4)); for (size_t i = 0; i < n; ++i) s += (k == 0 ? r.chance(1, 2) : k == 1 ? r.chance(1, 10) : k == 2 ? i % 2 : r.chance(9, 10)) ? '1' : '0'; return s; }
void expect(BinaryWord const& w, S const& s, std::string const& op) {
    mon::Untracked u; S g = read(w);
    MON_CHECK(g == s, "content/" + op, op << " gives " << g << ", expected " << s);
    MON_CHECK(w.bytes() * 8 >= w.size() && (w.bytes() == 0 || (w.bytes() - 1) * 8 < w.size()), "bytes", "a word of " << w.size() << " bits takes " << w.bytes() << " bytes");
}
void relations(BinaryWord const& x, BinaryWord const& y, S const& s, S const& t) {
    bool prefix = t.compare(0, s.size(), s) == 0 && s.size() <= t.size(), sub = t.find(s) != S::npos;
    MON_CHECK(x.is_prefix(y) == prefix, "is_prefix", s << " is " << (prefix ? "" : "not ") << "a prefix of " << t);
    MON_CHECK(x.is_subword(y) == sub, "is_subword", s << " is " << (sub ? "" : "not ") << "a subword of " << t);
    MON_CHECK((x < y) == (s < t), "less", s << " < " << t << " is " << (x < y));
    MON_CHECK((x == y) == (s == t) && (x != y) == (s != t), "equal", s << " == " << t << " is " << (x == y));
    MON_CHECK(int(x < y) + int(y < x) + int(x == y) == 1, "trichotomy", s << " and " << t << " are related in " << int(x < y) + int(y < x) + int(x == y) << " ways");
    MON_CHECK((x > y) == (s > t) && (x <= y) == (s <= t) && (x >= y) == (s >= t), "greater", s << " and " << t << " are compared wrongly by >, <= or >=");
    mon::event(prefix ? "prefixes" : "non-prefixes"); mon::event(sub ? "subwords" : "non-subwords"); mon::event("compared pairs");
}
// ------------------------------------------------------------------ random histories
MON_SUITE(history, 1200, 60000) {
    BinaryWord a[3]; S m[3]; Rng& r = rng; size_t big = r.chance(1, 4) ? 200 : 20;
    auto check = [&](char const* op) { for (int i = 0; i < 3; ++i) expect(a[i], m[i], op); };
    for (int n = 10 + static_cast<int>(r.below(40)); n > 0; --n) {
        int i = static_cast<int>(r.below(3)), k = static_cast<int>(r.below(3));
        switch (r.below(12)) {
        case 0: case 1: { bool b = r.chance(1, 2); mon::log("w%d.append(%d)", i, b); a[i].append(b); m[i] += b ? '1' : '0'; check("append bit"); break; }
        case 2: case 3: { mon::log("w%d.append(w%d)", i, k); a[i].append(a[k]); m[i] += S(m[k]); check("append word"); mon::event(i == k ? "self appends" : "appends"); if (m[i].size() > 400) { m[i].resize(300); a[i].resize(300); } break; }
        case 4: case 5: { int q = r.chance(1, 6) ? static_cast<int>(r.range(-3, 0)) : r.chance(1, 12) ? (r.chance(1, 2) ? INT32_MAX : INT32_MIN) : r.chance(1, 4) ? static_cast<int>(m[i].size()) + static_cast<int>(r.range(-1, 1)) : static_cast<int>(r.below(m[i].size() + 3));
            mon::log("w%d.erase_prefix(%d)", i, q); a[i].erase_prefix(q); if (q > 0) m[i].erase(0, static_cast<size_t>(q)); check("erase_prefix"); mon::event(q <= 0 ? "erasures of nothing" : "erasures"); break; }
        case 6: { if (m[i].empty()) break; bool b = r.chance(1, 2); mon::log("w%d.set_back(%d)", i, b); a[i].set_back(b); m[i].back() = b ? '1' : '0'; check("set_back"); mon::event("set_back"); break; }
        case 7: { S s = random_word(r, big); mon::log("w%d=%s", i, s.c_str()); a[i] = word(s); m[i] = s; check("assign"); break; }
        case 8: { mon::log("w%d:=w%d", i, k); if (r.chance(1, 2)) a[i] = a[k]; else { BinaryWord t(a[k]); a[i] = std::move(t); } m[i] = S(m[k]); check("copy"); break; }
        case 9: { if (m[i].empty()) break; size_t p = r.below(m[i].size()), q = r.below(m[i].size() - p + 1); mon::log("w%d=part(w%d,%zu,%zu)", k, i, p, q); S s = m[i].substr(p, q); BinaryWord t = word(s); relations(t, a[i], s, m[i]); a[k] = t; m[k] = s; check("part"); break; }
        case 10: { if (m[i].empty()) break; mon::log("w%d.append(its own bit)", i); bool b = a[i].front(); a[i].append(a[i].front()); m[i] += b ? '1' : '0'; check("append own bit"); break; }
        default: mon::log("w%d?w%d", i, k); relations(a[i], a[k], m[i], m[k]); check("comparisons"); break;
        }
        mon::event("steps");
    }
    mon::nontrivial();
}
// ------------------------------------------------------------------ pairs which are nearly related
MON_SUITE(pairs, 2500, 150000) {
    Rng& r = rng; size_t big = r.chance(1, 3) ? 130 : 12; S s = random_word(r, big), t;
    switch (r.below(5)) {
    case 0: t = random_word(r, big); break;
    case 1: t = s + random_word(r, 6); break;                                                           // an extension
    case 2: t = random_word(r, 70) + s + random_word(r, 4); break;                                      // an embedding
    case 3: t = s; if (!t.empty()) { size_t p = r.below(t.size()); t[p] = t[p] == '0' ? '1' : '0'; } break;  // one bit away
    default: t = s; if (!t.empty()) { size_t p = r.below(t.size()); t[p] = t[p] == '0' ? '1' : '0'; } t = random_word(r, 5) + t + random_word(r, 5); break;
    }
    mon::log("%s %s", s.c_str(), t.c_str()); BinaryWord x = word(s), y = word(t); relations(x, y, s, t); relations(y, x, t, s); expect(x, s, "after comparing"); expect(y, t, "after comparing");
    S u = random_word(r, big); BinaryWord z = word(u); if (x < y && y < z) MON_CHECK(x < z, "transitive", s << " < " << t << " < " << u);
    std::set<BinaryWord> o{x, y, z}; std::set<S> q{s, t, u}; MON_CHECK(o.size() == q.size() && std::equal(o.begin(), o.end(), q.begin(), [](BinaryWord const& a, S const& b) { return read(a) == b; }), "ordered set", "an ordered set of " << s << ", " << t << ", " << u << " is in another order");
    mon::nontrivial();
}
// ------------------------------------------------------------------ all pairs of short words, one first word in each case
S short_word(uint64_t i) { S s; for (i += 1; i > 1; i /= 2) s += i & 1 ? '1' : '0'; return s; }  // 0: empty, 1..2: one bit, 3..6: two bits, ...
MON_SUITE(all_pairs, 127, 511) {
    uint64_t i = mon::st().case_no, n = mon::st().thorough ? 511 : 127; S s = short_word(i); BinaryWord x = word(s); mon::log("all pairs with %s", s.c_str());
    for (uint64_t k = 0; k < n; ++k) { S t = short_word(k); BinaryWord y = word(t); relations(x, y, s, t);
        BinaryWord c(x); c.append(y); MON_CHECK(read(c) == s + t, "content/append word", s << " appended " << t << " is " << read(c)); }
    for (int k = -1; k <= static_cast<int>(s.size()) + 1; ++k) { BinaryWord c(x); c.erase_prefix(k); MON_CHECK(read(c) == (k <= 0 ? s : s.substr(std::min(s.size(), static_cast<size_t>(k)))), "content/erase_prefix", s << " without " << k << " bits is " << read(c)); }
    if (!s.empty()) for (int b = 0; b < 2; ++b) { BinaryWord c(x); c.set_back(b); S w = s; w.back() = b ? '1' : '0'; MON_CHECK(read(c) == w, "content/set_back", s << " with last bit " << b << " is " << read(c)); }
    mon::nontrivial(); mon::event("short words");
}
MON_SUITE(large, 10, 200) {
    S s = random_word(rng, 3000), t = random_word(rng, 5000); mon::log("large %zu %zu", s.size(), t.size()); BinaryWord x = word(s), y = word(t); x.append(y); expect(x, s + t, "append word"); relations(y, x, t, s + t);
    size_t k = rng.below(s.size() + t.size() + 10); x.erase_prefix(static_cast<int>(k)); expect(x, (s + t).substr(std::min(k, s.size() + t.size())), "erase_prefix"); x.append(x); mon::nontrivial();
}
MON_SUITE(millions, 2, 12) {  // beyond what 16 bit numbers of bytes can tell
    size_t n = std::vector<size_t>{524288, 524289, 600000, 1048576, 2097160, 1u << 22}[(mon::st().case_no * 3 + rng.below(3)) % 6] + rng.below(3); mon::log("%zu bits", n); BinaryWord x; x.resize(n); MON_CHECK(x.size() == n && x.bytes() == (n + 7) / 8 && x.capacity() >= n && !x.empty(), "bytes", "a word of " << n << " bits has size " << x.size() << " and " << x.bytes() << " bytes");
    std::vector<size_t> at; for (int i = 0; i < 30; ++i) { size_t p = i < 3 ? n - 1 - static_cast<size_t>(i) : rng.below(n); x[p] = true; at.push_back(p); } std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end()); size_t ones = 0; bool right = true; for (size_t i = 0; i < n; ++i) if (x[i]) { right = right && ones < at.size() && at[ones] == i; ++ones; } MON_CHECK(right && ones == at.size(), "index", "a word of " << n << " bits has " << ones << " ones after " << at.size() << " were set");
    BinaryWord y(x); MON_CHECK(y == x && x.is_prefix(y) && !(y < x) && y.bytes() == x.bytes(), "copy", "a copy of " << n << " bits differs"); y[at[0]] = false; MON_CHECK(y != x && y < x && !x.is_prefix(y) && !(x < y), "less", "words of " << n << " bits which differ at " << at[0]); y.resize(n - 9); MON_CHECK(y.size() == n - 9 && y.bytes() == (n - 9 + 7) / 8, "bytes", "a word of " << n - 9 << " bits has " << y.bytes() << " bytes"); mon::event("millions of bits"); mon::nontrivial();
}
MON_SUITE(lengths, 14, 800) {  // long words which only differ by how far they reach, or only in one of the bits around there
    size_t n = (size_t(1) << rng.range(9, 17)) + rng.below(rng.chance(1, 2) ? 18 : 1000) - 9; S s; while (s.size() < n) s += random_word(rng, 64) + '0'; s.resize(n); BinaryWord const x = word(s); mon::log("reaching %zu", n);
    for (int i = 0; i < 12; ++i) { size_t d = i < 8 ? 1 + rng.below(17) : 1 + rng.edge(n - 1); if (d > n) d = n; BinaryWord y(x); y.resize(n - d); S t = s.substr(0, n - d); bool up = rng.chance(1, 4); if (up && !t.empty()) { t.back() = t.back() == '0' ? '1' : '0'; y.set_back(!y.back()); }
        bool less = s < t, more = t < s; MON_CHECK((x < y) == less && (y < x) == more && !(x == y), "less", "of words of " << n << " and " << n - d << " bits, " << (up ? "which differ in the last common bit" : "of which one begins the other") << ", the first is" << (x < y ? "" : " not") << " less and the second is" << (y < x ? "" : " not"));
        bool pre = !up || t.empty(); MON_CHECK(y.is_prefix(x) == pre && !x.is_prefix(y) && !x.is_subword(y), "is_prefix", "words of " << n - d << " and " << n << " bits"); if (pre) MON_CHECK(y.is_subword(x), "is_subword", "the first " << n - d << " bits of a word of " << n << " are not found"); }
    for (int i = 0; i < 6; ++i) { size_t at = i < 3 ? n - 1 - rng.below(18) : rng.edge(n - 1); BinaryWord y(x); y[at] = !y[at]; MON_CHECK((x < y) == y[at] && (y < x) == x[at] && !y.is_prefix(x) && !x.is_prefix(y) && !x.is_subword(y) && !y.is_subword(x) && x != y, "less", "words of " << n << " bits which differ at " << at); }
    expect(x, s, "after comparing"); mon::event("words of many lengths"); mon::nontrivial();
}
MON_SUITE(huge, 4, 40) {  // sizes beyond those of 15 and 16 bit numbers
    size_t turn = mon::st().case_no % 4, n = turn == 0 ? 32768 + rng.below(32000) : turn == 1 ? 65536 + rng.below(4) : turn == 2 ? (size_t(1) << rng.range(14, 17)) + rng.below(9) : rng.below(200000); S s; while (s.size() < n) s += random_word(rng, 64) + '0'; s.resize(n); mon::log("huge %zu", s.size()); BinaryWord x = word(s); expect(x, s, "push_back");
    for (int i = 0; i < 6; ++i) { size_t k = 1 + rng.below(rng.chance(1, 3) ? 60 : 8); if (i == 0) k += 4; /* erasing takes steps of the size times the number */ x.erase_prefix(static_cast<int>(k)); s.erase(0, k); expect(x, s, "erase_prefix"); if (s.empty()) break;
        BinaryWord y = word(s.substr(s.size() - std::min<size_t>(s.size(), 9))); MON_CHECK(y.is_subword(x), "is_subword", "the last bits of a word of " << s.size() << " are not found"); BinaryWord z(x); MON_CHECK(x.is_prefix(z) && x == z && !(x < z), "is_prefix", "a copy of " << s.size() << " bits"); z.set_back(!z.back()); MON_CHECK(!x.is_prefix(z) && x != z && (x < z) == z.back(), "less", "a word of " << s.size() << " bits which differs in the last"); }
    { size_t m = s.size(); x.append(x); s += s; expect(x, s, "append word to itself"); BinaryWord y(x); y.resize(m); MON_CHECK(y.is_prefix(x) && y < x && !(x < y) && !x.is_prefix(y) && !x.is_subword(y), "is_prefix", "half of a word of " << s.size() << " bits"); }
    mon::event("huge words"); mon::nontrivial();
}
#if defined(NDEBUG) && !defined(__SANITIZE_ADDRESS__)
MON_SUITE(gigantic, 2, 4) {  // sizes which 31 and 32 bit numbers of bits cannot tell
    bool more = mon::st().case_no % 2; size_t n = (size_t(1) << (more ? 32 : 31)) + rng.below(70); mon::log("gigantic %zu", n); BinaryWord w; w.resize(n); std::vector<size_t> at{n - 1, n - 2 - rng.below(60), 200, 260 + rng.below(1000), rng.below(n), rng.below(n)}; for (size_t i : at) w[i] = true;
    MON_CHECK(w.size() == n && w.bytes() == (n + 7) / 8, "bytes", "a word of " << n << " bits is said to have " << w.size() << " bits and " << w.bytes() << " bytes"); w.set_back(false); MON_CHECK(!w.back() && w.size() == n, "set_back", "the last of " << n << " bits"); w.set_back(true); w.append(true); MON_CHECK(w.size() == n + 1 && w.back() && w.bytes() == (n + 8) / 8, "append bit", "to " << n << " bits"); ++n; at.push_back(n - 1);
    w.erase_prefix(0); w.erase_prefix(-1); MON_CHECK(w.size() == n, "erase_prefix", "of nothing, from " << n << " bits, leaves " << w.size()); size_t k = 1 + rng.below(more ? 1 : 2);  /* erasing may take steps of the size times the number */ w.erase_prefix(static_cast<int>(k)); MON_CHECK(w.size() == n - k, "erase_prefix", "of " << k << " bits from " << n << " leaves " << w.size()); if (w.size() != n - k) return;
    bool right = true; for (size_t i : at) if (i >= k) right = right && w[i - k]; size_t ones = 0; std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end()); for (size_t i = 0; i < 3000; ++i) ones += w[i]; size_t expected = 0; for (size_t i : at) expected += i >= k && i - k < 3000; MON_CHECK(right && ones == expected, "erase_prefix", "of " << k << " bits from " << n << " changes the others");
    if (!more) { BinaryWord v(w); MON_CHECK(v == w, "copy", "of " << v.size() << " bits"); v.set_back(false); MON_CHECK(v < w && !v.is_prefix(w), "less", "words of " << v.size() << " bits which differ in the last"); }
    mon::event("gigantic words"); mon::nontrivial();
}
#endif
// ------------------------------------------------------------------ sizes and positions around the powers of two, words of periods
S periodic(Rng& r, size_t n, size_t period) { S p; for (size_t i = 0; i < period; ++i) p += r.chance(1, 2) ? '1' : '0'; S s; while (s.size() < n) s += p; s.resize(n); return s; }
MON_SUITE(edges, 500, 30000) {
    Rng& r = rng; size_t limit = r.pick(std::vector<size_t>{20, 70, 140, 300, 600}), n = r.edge(limit), k = r.edge(limit); S t, s = r.chance(1, 2) ? periodic(r, n, 1 + r.below(9)) : [&] { S q; while (q.size() < n) q += random_word(r, 64) + '0'; q.resize(n); return q; }();
    switch (r.below(7)) {
    case 0: t = s.substr(0, std::min(k, n)); break;                                                                     // a prefix ending there
    case 1: t = s; if (n) { size_t p = std::min(k, n - 1); t[p] = t[p] == '0' ? '1' : '0'; if (r.chance(1, 2)) t.resize(p + 1); } break;   // different from there
    case 2: t = s; if (n) { size_t p = n - 1 - std::min(k, n - 1); t[p] = t[p] == '0' ? '1' : '0'; } break;             // counted from the back
    case 3: t = n ? s.substr(std::min(k, n - 1)) : S(); break;                                                          // a suffix: found at the last position
    case 4: { size_t p = n ? std::min(k, n - 1) : 0; t = s.substr(p, r.edge(n - p + 1)); if (!t.empty() && r.chance(1, 2)) t.back() = t.back() == '0' ? '1' : '0'; break; }  // a part, or nearly
    case 5: t = s + periodic(r, k, 1 + r.below(5)); break;
    default: { S u = s.substr(0, n / 2), v = u; if (!v.empty()) v.back() = v.back() == '0' ? '1' : '0'; t = v; s = u; for (int i = static_cast<int>(r.below(4)); i >= 0; --i) s += u; s += v; if (!s.empty() && r.chance(1, 3)) s.pop_back(); break; }  // a needle with a long false start
    }
    mon::log("edges %zu %zu: %s %s", s.size(), t.size(), s.substr(0, 700).c_str(), t.substr(0, 700).c_str()); BinaryWord x = word(s), y = word(t); relations(x, y, s, t); relations(y, x, t, s); relations(x, x, s, s);
    { BinaryWord c(x); c.append(y); expect(c, s + t, "append word"); c.append(c); expect(c, s + t + s + t, "append word to itself"); BinaryWord d(c); int q = static_cast<int>(r.edge(2 * (s.size() + t.size()) + 3)); d.erase_prefix(q); expect(d, (s + t + s + t).substr(std::min(static_cast<size_t>(q), c.size())), "erase_prefix"); relations(d, c, read(d), read(c)); relations(x, c, s, read(c)); }
    { BinaryWord c; S w; for (size_t i = 0; i < k; ++i) { bool b = r.chance(1, 2); c.append(b); w += b ? '1' : '0'; } expect(c, w, "append bit"); if (k) { for (int b = 0; b < 2; ++b) { c.set_back(b); w.back() = b ? '1' : '0'; expect(c, w, "set_back"); } } c.append(x); expect(c, w + s, "append word"); c.erase_prefix(static_cast<int>(k)); expect(c, s, "erase_prefix of what was there before"); c.append(BinaryWord()); expect(c, s, "append an empty word"); c.erase_prefix(static_cast<int>(s.size())); expect(c, S(), "erase_prefix of all"); c.append(y); expect(c, t, "append to an emptied word"); BinaryWord m(std::move(c)); expect(m, t, "move"); c = BinaryWord(); c.append(m); expect(c, t, "append after moving"); c.reserve(5000); c.append(c); expect(c, t + t, "append to itself within the capacity"); }
    { BinaryWord c(x); for (size_t q = 0; q < s.size(); q += 1 + r.below(70)) { c[q] = !c[q]; } S w = read(c); relations(c, x, w, s); relations(x, c, s, w); }
    expect(x, s, "after all"); expect(y, t, "after all"); mon::event("words of edge sizes"); mon::nontrivial();
}
int main(int c, char** v) {
    mon::require("self appends", 100); mon::require("erasures of nothing", 100); mon::require("prefixes", 300); mon::require("subwords", 300); mon::require("non-subwords", 300); mon::require("short words", 127); mon::require("set_back", 100); mon::require("words of edge sizes", 300); mon::require("words of many lengths", 14);
    return mon::main(c, v);
}
