// Reference model of character encodings, written from the Unicode standard (D92/Table 3-7, section 3.9
// "U+FFFD substitution of maximal subparts") and from docs/ref_charset.adoc; shares no code with strf.
#ifndef UTFMODEL_HPP
#define UTFMODEL_HPP
#include <vector>
#include <string>
#include <cstdint>
namespace um {

enum Kind { U8, U16, U32, SB };
struct Enc {
    Kind kind;
    const char* name;
    // single byte encodings
    const std::uint32_t* dec = nullptr;    // 256 entries; 0xFFFFFFFF = undefined byte
    const std::int16_t* enc = nullptr;     // 0x10000 entries; -1 = unsupported
    char32_t repl() const { return kind == SB ? U'?' : 0xFFFD; }
};
struct Item { bool ok; std::uint32_t cp; std::size_t pos, len; };

inline bool is_surr(std::uint32_t c) { return c >= 0xD800 && c <= 0xDFFF; }

// one item at position i (units given as unsigned values)
template <class GetUnit>
inline Item decode1(const Enc& e, GetUnit at, std::size_t i, std::size_t n, bool lax) {
    std::uint32_t b0 = at(i);
    switch (e.kind) {
    case SB: { std::uint32_t c = e.dec[b0]; return {c != 0xFFFFFFFFu, c, i, 1}; }
    case U32: return { b0 <= 0x10FFFF && (lax || !is_surr(b0)), b0, i, 1 };
    case U16:
        if (!is_surr(b0)) return {true, b0, i, 1};
        if (b0 < 0xDC00 && i + 1 < n) { std::uint32_t b1 = at(i + 1); if (b1 >= 0xDC00 && b1 <= 0xDFFF) return {true, 0x10000 + ((b0 - 0xD800) << 10) + (b1 - 0xDC00), i, 2}; }
        return {lax, b0, i, 1};
    case U8: {
        if (b0 < 0x80) return {true, b0, i, 1};
        unsigned need; std::uint32_t lo = 0x80, hi = 0xBF, cp;
        if (b0 >= 0xC2 && b0 <= 0xDF) { need = 1; cp = b0 & 0x1F; }
        else if (b0 >= 0xE0 && b0 <= 0xEF) { need = 2; cp = b0 & 0x0F; if (b0 == 0xE0) lo = 0xA0; if (b0 == 0xED && !lax) hi = 0x9F; }
        else if (b0 >= 0xF0 && b0 <= 0xF4) { need = 3; cp = b0 & 7; if (b0 == 0xF0) lo = 0x90; if (b0 == 0xF4) hi = 0x8F; }
        else return {false, 0, i, 1};
        std::size_t k = 1;
        for (; need; --need, ++k) {
            if (i + k >= n) return {false, 0, i, k};
            std::uint32_t b = at(i + k);
            if (b < lo || b > hi) return {false, 0, i, k};
            lo = 0x80; hi = 0xBF; cp = (cp << 6) | (b & 0x3F);
        }
        return {true, cp, i, k};
    }}
    return {false, 0, i, 1};
}
struct Seq { std::uint32_t u[4]; unsigned n; };
inline bool can_encode(const Enc& e, std::uint32_t cp) { return e.kind != SB || (cp < 0x10000 && e.enc[cp] >= 0); }
inline Seq encode(const Enc& e, std::uint32_t cp) {
    switch (e.kind) {
    case SB: return {{(std::uint32_t)(std::uint8_t)e.enc[cp]}, 1};
    case U32: return {{cp}, 1};
    case U16: if (cp < 0x10000) return {{cp}, 1}; return {{0xD800 + ((cp - 0x10000) >> 10), 0xDC00 + ((cp - 0x10000) & 0x3FF)}, 2};
    default:
        if (cp < 0x80) return {{cp}, 1};
        if (cp < 0x800) return {{0xC0 | (cp >> 6), 0x80 | (cp & 0x3F)}, 2};
        if (cp < 0x10000) return {{0xE0 | (cp >> 12), 0x80 | ((cp >> 6) & 0x3F), 0x80 | (cp & 0x3F)}, 3};
        return {{0xF0 | (cp >> 18), 0x80 | ((cp >> 12) & 0x3F), 0x80 | ((cp >> 6) & 0x3F), 0x80 | (cp & 0x3F)}, 4};
    }
}
enum Reason { completed, no_space, unsupported, invalid };
struct Event { bool inv; std::uint32_t a; std::size_t len;     // inv: (position, length); otherwise: codepoint
    bool operator==(const Event& o) const { return inv == o.inv && a == o.a && len == o.len; } };
struct Result {
    std::size_t src; Reason reason; std::size_t must_events;   // events[must_events..] may or may not be reported (the item that found no space)
};
enum { LAX = 1, STOP_INV = 2, STOP_UNS = 4 };
// flags: 1 lax, 2 stop on invalid, 4 stop on unsupported
template <class GetUnit>
inline Result transcode(const Enc& S, const Enc& D, GetUnit at, std::size_t n, std::size_t cap, unsigned flags,
                        std::vector<std::uint32_t>& out, std::vector<Event>& ev, bool quirk = false) {
    out.clear(); ev.clear();
    std::size_t i = 0;
    while (i < n) {
        Item it = decode1(S, at, i, n, flags & LAX);
        std::uint32_t cp = it.cp;
        if (quirk && it.ok && cp >= 0xE000 && cp <= 0xFFFF && cp != 0xFFFD && !can_encode(D, cp)) it.ok = false;   // known finding, see transcheck.hpp
        std::size_t must = ev.size();
        if (!it.ok) {
            ev.push_back({true, (std::uint32_t)it.pos, it.len});
            if (flags & STOP_INV) return {i, invalid, ev.size()};
            cp = D.repl();
        } else if (!can_encode(D, cp)) {
            if (cp != 0xFFFD) {
                ev.push_back({false, cp, 0});
                if (flags & STOP_UNS) return {i, unsupported, ev.size()};
            }
            cp = D.repl();
        }
        Seq s = encode(D, cp);
        if (out.size() + s.n > cap) return {i, no_space, must};
        for (unsigned k = 0; k < s.n; ++k) out.push_back(s.u[k]);
        i += it.len;
    }
    return {i, completed, ev.size()};
}
inline const Enc& utf(Kind k) {
    static const Enc e8{U8, "UTF-8"}, e16{U16, "UTF-16"}, e32{U32, "UTF-32"};
    return k == U8 ? e8 : k == U16 ? e16 : e32;
}
template <class C> constexpr Kind utf_kind() { return sizeof(C) == 1 ? U8 : sizeof(C) == 2 ? U16 : U32; }

} // namespace um
#endif
