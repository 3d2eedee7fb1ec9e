// C18: width calculators.
// PART 0: std_width_calc on words over grapheme classes (all encodings, all limits, around the 32-code-point buffer)
// PART 1: std_width_calc: every code point in every class context
// PART 2: all calculators on arbitrary input (ill-formed too), every charset, limits, long strings
#include <strf.hpp>
#include <vector>
#include <string>
#include "mc.hpp"
#include "utfmodel.hpp"
#include "transcheck.hpp"
#include "widthmodel.hpp"
#include "data/sbtables.hpp"
using strf::width_t;

template <class C> struct Word { std::vector<C> u; std::vector<size_t> at; };   // units, and where each code point begins
template <class C> static Word<C> encode(const um::Enc& e, const u32s& s) {
    Word<C> r;
    for (auto c : s) { r.at.push_back(r.u.size()); um::Seq q = um::encode(e, c); for (unsigned i = 0; i < q.n; ++i) r.u.push_back((C)q.u[i]); }
    r.at.push_back(r.u.size()); return r;
}
static const um::Enc E8{um::U8, "UTF-8"}, E16{um::U16, "UTF-16"}, E32{um::U32, "UTF-32"};
static std::string wstr(width_t w) { return mc::sfmt("%d/65536", w.underlying_value()); }

// one calculator result against the expected one
template <class CS, class W, class C>
void expect(const char* who, const CS& cs, W wc, width_t lim, const C* b, const C* e, width_t ew, width_t epw, const C* ep, bool nopos = false) {
    width_t w = wc.str_width(cs, lim, b, e);
    auto r = wc.str_width_and_pos(cs, lim, b, e);
    mc::step(2);
    if (w == ew && (nopos || (r.width == epw && r.ptr == ep))) return;
    auto k = mc::sfmt("%s %s limit=%s str=%s", who, cs.name(), wstr(lim).c_str(), hex(b, e - b).c_str());
    mc::fail(k, k + ": str_width=" + wstr(w) + " expected " + wstr(ew) + "; str_width_and_pos={" + wstr(r.width) + mc::sfmt(", +%ld} expected {", (long)(r.ptr - b)) + wstr(epw) + mc::sfmt(", +%ld}", (long)(ep - b)));
}
template <class CS, class C> void std_calc(const CS& cs, const Word<C>& w, const std::vector<Cl>& cl, const std::vector<std::int32_t>& lims) {
    const C* b = w.u.data(); const C* e = b + w.u.size();
    for (auto L : lims) {
        width_t lim = width_t::from_underlying(L);
        std::int64_t sum = 0, l = L < 0 ? 0 : L; size_t p = w.at.size() - 1; bool found = false;
        for (auto& c : cl) { sum += (std::int64_t)c.w << 16; if (!found && sum > l) { p = c.pos; found = true; } }
        width_t ew = width_t::from_underlying((std::int32_t)(sum < l ? sum : l));
        expect("std_width_calc", cs, strf::std_width_calc, lim, b, e, ew, ew, b + w.at[p]);
    }
}
static std::vector<std::int32_t> limits_for(int total, int tail) {   // around the end of the string
    std::vector<std::int32_t> v = {0x7FFFFFFF};
    for (int k = (total - tail) * 2; k <= total * 2 + 2; ++k) if (k >= 0) v.push_back(k << 15);
    if (total - tail <= 0) { v.push_back(-1); v.push_back(-0x10000); v.push_back(INT32_MIN); v.push_back(1); }
    else v.push_back(0);
    v.push_back((total << 16) - 1); v.push_back((total << 16) + 1);
    return v;
}
static const char32_t reps[] = {'a', 0x4E00, '\r', '\n', 1, 0x301, 0x302A, 0x200D, 0x1F1E6, 0x600, 0x903, 0x1100, 0x1160, 0x11A8, 0xAC00, 0xAC01, 0x1F600, 0xA9};
enum { NR = sizeof reps / sizeof *reps };

static std::vector<Cl> CLS;
static void word(const u32s& s, int tail, bool all) {
    if (!mc::take()) return;
    clusters(s, CLS);
    int total = 0; for (auto& c : CLS) total += c.w;
    auto lims = limits_for(total, tail);
    mc::state(mc::hash(s)); if (mc::want_sample()) mc::sample(mc::show(s) + mc::sfmt(" width %d", total));
    std_calc(strf::utf<char32_t>, encode<char32_t>(E32, s), CLS, lims);
    if (all) { std_calc(strf::utf<char>, encode<char>(E8, s), CLS, lims); std_calc(strf::utf<char16_t>, encode<char16_t>(E16, s), CLS, lims); }
}
template <class F> void words(int len, F f) {
    u32s s; std::vector<int> ix((size_t)len, 0);
    for (;;) {
        s.clear(); for (int i : ix) s += reps[i];
        f(s);
        int k = len - 1; while (k >= 0 && ++ix[(size_t)k] == NR) ix[(size_t)k--] = 0;
        if (k < 0) break;
    }
}
static void part0() {
    for (int len = 0; len <= 4; ++len) words(len, [](const u32s& s) { word(s, 100, true); });
    words(5, [](const u32s& s) { word(s, 2, false); });
    if (mc::thorough()) words(6, [](const u32s& s) { word(s, 1, false); });
    // the internal buffer holds 32 code points
    for (int pre : {26, 27, 28, 29, 30, 31, 32, 33, 60, 61, 62, 63, 64, 94, 95, 96}) {
        for (char32_t pc : {U'a', U'\u4E00', U'\u0301'})
            for (int len = 1; len <= (pc == 'a' ? 3 : 2); ++len) words(len, [&](const u32s& s) { u32s t((size_t)pre, pc); t += s; word(t, 8, len < 3); });
        if (pre <= 33 || mc::thorough()) words(4, [&](const u32s& s) { u32s t((size_t)pre, U'a'); t += s; word(t, 4, false); });
        // clusters that continue over a boundary
        for (char32_t a : reps) for (char32_t b : reps) for (char32_t c : reps) for (size_t n : {1u, 2u, 3u, 30u, 31u, 32u, 33u, 64u}) {
            u32s t((size_t)pre, U'a'); t += a; t += u32s(n, b); t += c; word(t, 8, false);
        }
    }
    // lone surrogates and out-of-range values count as U+FFFD: checked in part 2
}
static void part1() {
    auto usable = [](char32_t c) { return !(c >= 0xD800 && c < 0xE000) && cls(c) != G_NEW; };
    for (char32_t c = 0; c < 0x110000; ++c) {
        if (!usable(c)) continue;
        if (!mc::take()) continue;
        std::string why;
        if (strf::std_width_calc.char_width(strf::utf<char32_t>, c) != width_t(cw(c))) why += " char_width;";
        if (c < 0x10000 && strf::std_width_calc.char_width(strf::utf<char16_t>, (char16_t)c) != width_t(cw(c))) why += " char_width (UTF-16);";
        if (c < 0x80 && strf::std_width_calc.char_width(strf::utf<char>, (char)c) != width_t(cw(c))) why += " char_width (UTF-8);";
        if (!why.empty()) mc::fail(mc::sfmt("char_width U+%X", (unsigned)c), mc::sfmt("U+%X:%s expected %d", (unsigned)c, why.c_str(), cw(c)));
        std::vector<std::int32_t> lims{0x7FFFFFFF};
        auto one = [&](const u32s& s) {
            clusters(s, CLS); lims.resize(1); int sum = 0;
            for (auto& k : CLS) { if (sum) lims.push_back(sum << 16); sum += k.w; }
            lims.push_back(sum << 16);
            Word<char32_t> w; w.u.assign(s.begin(), s.end()); for (size_t i = 0; i <= s.size(); ++i) w.at.push_back(i);
            std_calc(strf::utf<char32_t>, w, CLS, lims);
        };
        one(u32s(1, c)); one(u32s(2, c)); one(u32s(3, c));
        bool hangul = c >= 0xAC00 && c <= 0xD7A3; (void)hangul;
        for (char32_t r : reps) { one(u32s{r, c}); one(u32s{c, r}); }
        for (char32_t r : {U'\U0001F600', U'\U0001F1E6', U'a', U'\u1100'}) { one(u32s{r, c, r}); one(u32s{r, 0x200D, c}); one(u32s{c, 0x200D, r}); one(u32s{r, r, c}); one(u32s{r, 0x301, 0x200D, c}); }
        mc::state(mc::mix(1, c)); if (mc::want_sample()) mc::sample(mc::sfmt("U+%X in 55 contexts", (unsigned)c));
    }
    // whole planes in UTF-8 and UTF-16
    for (char32_t c = 0; c < 0x110000; ++c) {
        if (!usable(c) || !mc::take()) continue;
        u32s s{'a', c, c, 'b'}; clusters(s, CLS); int sum = 0; for (auto& k : CLS) sum += k.w;
        std::vector<std::int32_t> lims{0x7FFFFFFF, sum << 16, (sum - 1) << 16, (sum << 15)};
        std_calc(strf::utf<char>, encode<char>(E8, s), CLS, lims); std_calc(strf::utf<char16_t>, encode<char16_t>(E16, s), CLS, lims);
    }
}
// ---- part 2
static std::vector<std::int32_t> lims2(int n) {
    std::vector<std::int32_t> v = {0x7FFFFFFF, 0x7FFF0000, 0x7FFF0001, -1, -0x10000, INT32_MIN, INT32_MIN + 1, 0, 1, 0x7FFF, 0x8000, 0xFFFF};
    for (int k = 1; k <= n + 1; ++k) for (int d : {-1, 0, 1, 0x8000}) v.push_back((k << 16) + d);
    return v;
}
template <class C, class CS> void calcs(const CS& cs, const um::Enc& e, const std::vector<C>& w, const std::vector<std::int32_t>& lims, const char* form) {
    static Guarded<C> g;                       // the string ends at an inaccessible page
    const C* b; const C* en;
    if (w.size() * sizeof(C) < 4000) { C* x = g.end_range(w.size()); std::copy(w.begin(), w.end(), x); b = x; en = x + w.size(); }
    else { b = w.data(); en = b + w.size(); }
    std::vector<um::Item> items; bool valid = true;
    auto at = [&](size_t i) { return (std::uint32_t)uval(b[i]); };
    u32s s; Word<C> ww;
    for (size_t i = 0; i < w.size();) { um::Item it = um::decode1(e, at, i, w.size(), false); items.push_back(it); if (!it.ok) valid = false; s += it.ok ? (char32_t)it.cp : U'\uFFFD'; ww.at.push_back(i); i += it.len; }
    ww.at.push_back(w.size());
    const std::int64_t n = (std::int64_t)w.size(), m = (std::int64_t)items.size();
    bool known_class = true; for (auto c : s) if (cls(c) == G_NEW) known_class = false;
    mc::state(mc::hash(w.data(), w.size() * sizeof(C), mc::hash(e.name, std::strlen(e.name))));
    if (mc::want_sample()) mc::sample(mc::sfmt("%s(%s) %s", e.name, tname<C>(), hex(w.data(), std::min<size_t>(w.size(), 20)).c_str()));
    if (known_class) {
        clusters(s, CLS);
        for (auto L : lims) {
            std::int64_t sum = 0, l = L < 0 ? 0 : L; size_t p = ww.at.size() - 1; bool found = false;
            for (auto& c : CLS) { sum += (std::int64_t)c.w << 16; if (!found && sum > l) { p = c.pos; found = true; } }
            width_t ew = width_t::from_underlying((std::int32_t)(sum < l ? sum : l));
            expect(form, cs, strf::std_width_calc, width_t::from_underlying(L), b, en, ew, ew, b + ww.at[p]);
        }
    }
    for (auto L : lims) {
        width_t lim = width_t::from_underlying(L), zero = 0;
        std::int64_t fl = L < 0 ? 0 : L >> 16, cl = L < 0 ? 0 : ((std::int64_t)L + 0xFFFF) >> 16;
        auto wid = [](std::int64_t k) { return width_t::from_underlying(k > 0x7FFF ? 0x7FFFFFFF : (std::int32_t)(k << 16)); };
        expect(mc::sfmt("%s fast_width", form).c_str(), cs, strf::fast_width, lim, b, en, L <= 0 ? zero : n <= fl ? wid(n) : lim, wid(std::min(n, fl)), b + std::min(n, fl));
        const C* up = b + ww.at[(size_t)std::min(m, fl)];
        expect(mc::sfmt("%s width_as_u32len", form).c_str(), cs, strf::width_as_u32len, lim, b, en, wid(std::min(m, cl)), wid(std::min(m, fl)), up);
        if (valid) expect(mc::sfmt("%s width_as_fast_u32len", form).c_str(), cs, strf::width_as_fast_u32len, lim, b, en, wid(std::min(m, cl)), wid(std::min(m, fl)), up);
        else {   // documented to assume validity: only that it stays within the string and the limit
            width_t x = strf::width_as_fast_u32len.str_width(cs, lim, b, en); auto r = strf::width_as_fast_u32len.str_width_and_pos(cs, lim, b, en);
            mc::step(2);
            if (x < 0 || x > wid(cl) || r.width < 0 || r.width > wid(fl) || r.ptr < b || r.ptr > en) { auto k = mc::sfmt("%s width_as_fast_u32len limit=%s out of range for %s %s", form, wstr(lim).c_str(), e.name, hex(w.data(), w.size()).c_str()); mc::fail(k, k); }
        }
    }
}
template <class C, class CS> void charset(const CS& cs, const um::Enc& e, const std::vector<std::vector<std::uint32_t>>& toks, int len) {
    strf::dynamic_charset<C> dyn = cs.to_dynamic();
    for (int n = 0; n <= len; ++n) {
        std::vector<size_t> ix((size_t)n, 0); auto lims = lims2(2 * n > 8 ? 8 : 2 * n);
        for (;;) {
            if (mc::take()) {
                std::vector<C> w; for (auto i : ix) for (auto u : toks[i]) w.push_back((C)u);
                calcs<C>(cs, e, w, lims, "static"); if (n <= 3) calcs<C>(dyn, e, w, lims, "dynamic");
            }
            int k = n - 1; while (k >= 0 && ++ix[(size_t)k] == toks.size()) ix[(size_t)k--] = 0;
            if (k < 0) break;
        }
    }
    // long strings: every length to 140, and beyond the largest width
    std::vector<size_t> ns; for (size_t i = 5; i <= 140; ++i) ns.push_back(i); for (size_t i : {1000, 32766, 32767, 32768, 32769, 40000, 70000}) ns.push_back(i);
    for (auto n : ns) for (size_t t = 0; t < toks.size(); ++t) {
        if (n >= 32766 && t > 5) continue;
        if (!mc::take()) continue;
        mc::alive();
        std::vector<C> w; for (size_t i = 0; i < n; ++i) for (auto u : toks[i + 1 == n ? t : i % 7 == 6 ? (t * 3 + 1) % toks.size() : 0]) w.push_back((C)u);
        std::vector<std::int32_t> lims = {0x7FFFFFFF, 0x7FFF0000, 0, -1, 0x10000};
        for (auto k : {31, 32, 33, 63, 64, 65, (int)std::min<size_t>(n, 32000) - 1, (int)std::min<size_t>(n, 32000), (int)std::min<size_t>(n, 32000) + 1}) { lims.push_back(k << 16); lims.push_back((k << 16) + 0x8000); }
        calcs<C>(cs, e, w, lims, "static");
    }
    if constexpr (sizeof(C) <= 2) if (e.kind != um::U8)
        for (std::uint32_t u = 0; u < (sizeof(C) == 1 ? 256u : 65536u); ++u) {
            if (!mc::take()) continue;
            auto d = um::decode1(e, [&](size_t) { return u; }, 0, 1, true);
            int want = d.ok ? cw(d.cp) : 1;
            mc::step();
            if (strf::std_width_calc.char_width(cs, (C)u) != width_t(want) || strf::fast_width.char_width(cs, (C)u) != 1 || strf::width_as_u32len.char_width(cs, (C)u) != 1 || strf::width_as_fast_u32len.char_width(cs, (C)u) != 1)
                mc::fail(mc::sfmt("char_width %s %X", e.name, u), mc::sfmt("char_width of unit %X of %s: std %g expected %d", u, e.name, strf::std_width_calc.char_width(cs, (C)u).underlying_value() / 65536.0, want));
        }
}
static void part2() {
    int x = mc::thorough() ? 1 : 0;
    std::vector<std::vector<std::uint32_t>> t8 = {{'a'}, {0xC3, 0xA9}, {0xE4, 0xB8, 0x80}, {0xF0, 0x9F, 0x98, 0x80}, {0xCC, 0x81}, {0xE2, 0x80, 0x8D}, {'\r'}, {'\n'}, {0x80}, {0xC3}, {0xE4, 0xB8}, {0xF0, 0x9F, 0x98}, {0xED, 0xA0, 0x80}, {0xFF}, {0xF0}};
    std::vector<std::vector<std::uint32_t>> t16 = {{'a'}, {0xE9}, {0x4E00}, {0xD83D, 0xDE00}, {0x301}, {0x200D}, {'\r'}, {'\n'}, {0xD83D}, {0xDE00}, {0xDFFF}, {0xD800}};
    std::vector<std::vector<std::uint32_t>> t32 = {{'a'}, {0x4E00}, {0x1F600}, {0x301}, {0x200D}, {'\r'}, {'\n'}, {0xD800}, {0xDFFF}, {0x110000}, {0xFFFFFFFF}, {0x1F1E6}};
    charset<char>(strf::utf<char>, E8, t8, 4 + x);
    charset<char8_t>(strf::utf<char8_t>, E8, t8, 3);
    charset<char16_t>(strf::utf<char16_t>, E16, t16, 4 + x);
    charset<char32_t>(strf::utf<char32_t>, E32, t32, 4 + x);
    charset<wchar_t>(strf::utf<wchar_t>, E32, t32, 3);
    std::vector<std::vector<std::uint32_t>> ts = {{'a'}, {0x80}, {0x81}, {0xA9}, {0xAD}, {0xE9}, {0xFF}, {'\r'}, {'\n'}};
    auto sb = [&](auto cs, const std::uint32_t* dec) {
        static std::vector<std::int16_t> inv; inv.assign(0x10000, -1);
        for (int b = 255; b >= 0; --b) if (dec[b] != UNDEF) inv[dec[b]] = (std::int16_t)b;
        um::Enc e{um::SB, cs.name(), dec, inv.data()};
        charset<char>(cs, e, ts, 3);
    };
#define X(n) sb(strf::n<char>, dec_##n);
    X(ascii) X(iso_8859_1) X(iso_8859_5) X(iso_8859_7) X(iso_8859_8) X(windows_1252) X(windows_1251) X(windows_1255)
#undef X
}
static void body() {
    init_cls();
#if PART == 0
    part0();
#elif PART == 1
    part1();
#else
    part2();
#endif
}
MC_MAIN(body)
