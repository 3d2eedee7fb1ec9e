// C16: digit grouping, thousands separators and decimal points.
#include <algorithm>
#include <cmath>
#include "print.hpp"
#include "floatmodel.hpp"
#include <limits>
using std::size_t;

static std::string gname(const std::vector<int>& g, bool stop) { std::string r = "{"; for (int x : g) r += std::to_string(x) + ","; return r + (stop ? "-1}" : "}"); }

// ---- digit groupings built at run time, through every constructor
static strf::digits_grouping variadic(const std::vector<int>& g, bool stop) {
    switch (g.size()) {
    case 0: return stop ? strf::digits_grouping(-1) : strf::digits_grouping();
    case 1: return stop ? strf::digits_grouping(g[0], -1) : strf::digits_grouping(g[0]);
    case 2: return stop ? strf::digits_grouping(g[0], g[1], -1) : strf::digits_grouping(g[0], g[1]);
    case 3: return stop ? strf::digits_grouping(g[0], g[1], g[2], -1) : strf::digits_grouping(g[0], g[1], g[2]);
    case 4: return stop ? strf::digits_grouping(g[0], g[1], g[2], g[3], -1) : strf::digits_grouping(g[0], g[1], g[2], g[3]);
    case 5: return stop ? strf::digits_grouping(g[0], g[1], g[2], g[3], g[4], -1) : strf::digits_grouping(g[0], g[1], g[2], g[3], g[4]);
    default: return stop ? strf::digits_grouping(g[0], g[1], g[2], g[3], g[4], g[5], -1) : strf::digits_grouping(g[0], g[1], g[2], g[3], g[4], g[5]);
    }
}
static strf::digits_grouping created(const std::vector<int>& g, bool stop) { strf::digits_grouping_creator c; for (size_t i = 0; i < g.size(); ++i) if (i % 2) c.push_high((unsigned)g[i]); else c.push_high(g[i]); return stop ? c.finish_no_more_sep() : c.finish(); }
static strf::digits_grouping from_str(const std::vector<int>& g, bool stop) { std::string s; for (int x : g) s += (char)x; if (stop) s += '\xFF'; return strf::digits_grouping(s.c_str()); }
static std::vector<int> collapse(std::vector<int> g) { while (g.size() > 1 && g[g.size() - 2] == g.back()) g.pop_back(); return g; }

// the groupings explored: all of up to 2 groups, all of up to 6 over a few sizes
static std::vector<std::vector<int>> groupings(bool small) {
    std::vector<std::vector<int>> r{{}};
    for (int a = 1; a <= 31; ++a) { if (small && a > 5 && a != 31 && a != 8) continue; r.push_back({a}); for (int b = 1; b <= 31; ++b) { if (small && b > 3 && b != 31) continue; r.push_back({a, b}); } }
    std::vector<int> S = small ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2, 3, 5, 31};
    for (int a : S) for (int b : S) for (int c : S) { r.push_back({a, b, c}); for (int d : S) { if (small && (a + b + c + d) % 2) continue; r.push_back({a, b, c, d}); for (int e : S) { if ((a + b + c + d + e) % (small ? 7 : 2)) continue; r.push_back({a, b, c, d, e}); for (int f : S) if ((a * 3 + b + c * 5 + d + e + f) % (small ? 17 : 3) == 0) r.push_back({a, b, c, d, e, f}); } } }
    return r;
}
template <class NP> static void wrapper(const NP& np, const std::vector<int>& g, bool stop, int dc, const char* form) {
    auto sp = im::split((size_t)dc, g, stop); int seps = dc ? (int)sp.size() - 1 : 0; mc::step();
    if (np.any_group_separation(dc) != (seps > 0) || np.thousands_sep_count(dc) != seps) mc::failf(mc::sfmt("%s %s digits=%d", form, gname(g, stop).c_str(), dc), "%s%s, %d digits: any_group_separation=%d thousands_sep_count=%d, expected %d separators", form, gname(g, stop).c_str(), dc, np.any_group_separation(dc), np.thousands_sep_count(dc), seps);
}
static void check_grouping(const strf::digits_grouping& dg, const std::vector<int>& g, bool stop, const char* form) {
    auto key = [&](const char* what, int dc) { return mc::sfmt("digits_grouping %s %s %s digits=%d", form, gname(g, stop).c_str(), what, dc); };
    auto bad = [&](const char* what, int dc, std::string w) { mc::fail(key(what, dc), key(what, dc) + ": " + w); };
    if (dg.empty() != g.empty()) bad("empty", 0, mc::sfmt("empty() is %d", dg.empty()));
    // iteration
    auto it = dg.get_iterator();
    for (size_t i = 0; i < g.size(); ++i) {
        mc::step();
        if (it.ended()) { bad("iterator", (int)i, "ended too early"); return; }
        bool last = i + 1 == g.size();
        if (it.current() != g[i] || it.is_last() != last || it.shall_repeat_current() != (last && !stop) || it.is_final() != (last && stop))
            bad("iterator", (int)i, mc::sfmt("group %zu: current=%d is_last=%d shall_repeat_current=%d is_final=%d", i, it.current(), it.is_last(), it.shall_repeat_current(), it.is_final()));
        it.advance();
    }
    if (!it.ended()) bad("iterator", (int)g.size(), "did not end");
    auto np10 = strf::numpunct<10>(dg); auto np2 = strf::numpunct<2>(dg);
    for (int dc = 1; dc <= 330; ++dc) {
        if (dc > 70 && dc % 13 > 2 && dc < 305) continue;
        auto sp = im::split((size_t)dc, g, stop); int seps = (int)sp.size() - 1; mc::step();
        if (dg.any_separator(dc) != (seps > 0)) bad("any_separator", dc, mc::sfmt("is %d", dg.any_separator(dc)));
        if (dg.separators_count(dc) != seps) bad("separators_count", dc, mc::sfmt("is %d, expected %d", dg.separators_count(dc), seps));
        auto d = dg.distribute(dc);
        // low groups (from the highest of them), the middle groups repeat the highest low one
        std::vector<size_t> got; auto low = d.low_groups; std::vector<int> lows; int guard = 0;
        while (!low.empty() && guard++ < 10) { lows.push_back(low.highest_group()); low.pop_high(); }
        got.push_back((size_t)d.highest_group);
        size_t k = 0;
        if (d.middle_groups_count > 0 && !lows.empty()) { for (int i = 0; i < d.middle_groups_count; ++i) got.push_back((size_t)lows[0]); k = 1; }
        for (; k < lows.size(); ++k) got.push_back((size_t)lows[k]);
        std::reverse(got.begin(), got.end());
        if (got != sp) { std::string t; for (auto x : got) t += std::to_string(x) + ","; std::string u; for (auto x : sp) u += std::to_string(x) + ","; bad("distribute", dc, "groups " + t + " (least significant first), expected " + u); }
        wrapper(np10, g, stop, dc, "numpunct<10>"); wrapper(np2, g, stop, dc, "numpunct<2>");
        mc::state(mc::hash(&dc, 4, mc::hash(g.data(), g.size() * 4, stop)));
    }
    if (dg.separators_count(0) != 0 || dg.separators_count(1) != 0 || dg.any_separator(0)) bad("separators_count", 0, "is not 0");
    // the facet keeps grouping and characters, in any order of setting
    for (char32_t s : {U',', U'\u00B7', U'\U0001F600'}) for (char32_t p : {U'.', U'\u066B', U'\U00010000'}) {
        mc::step();
        strf::numpunct<10> n; n.thousands_sep(s); n.grouping(dg); n.decimal_point(p);
        auto m = strf::numpunct<10>(dg).decimal_point(p).thousands_sep(s);
        auto q = strf::numpunct<10>{}.decimal_point(p).grouping(dg).thousands_sep(s);
        if (n.thousands_sep() != s || n.decimal_point() != p || n.grouping() != dg || !(n == m) || n != m || !(q == m) || m.distribute(9).highest_group != dg.distribute(9).highest_group) bad("facet", 0, "numpunct does not keep what it was given");
        if (m == strf::numpunct<10>(dg).decimal_point(p).thousands_sep(s + 1) || m == strf::numpunct<10>(dg).decimal_point(p + 1).thousands_sep(s)) bad("facet", 0, "different numpuncts compare equal");
    }
}
static void api() {
    for (auto& g : groupings(false)) for (int stop = 0; stop < 2; ++stop) {
        if (!mc::take()) continue;
        check_grouping(variadic(g, stop), g.empty() ? std::vector<int>{} : g, stop, "list");
        auto c = stop ? g : collapse(g);
        check_grouping(created(g, stop), c, stop, "creator");
        check_grouping(from_str(g, stop), c, stop, "string");
        // equality: the same groups, however given; different groups differ
        auto a = variadic(c, stop), b = created(g, stop);
        if (!(a == b) || a != b || created(g, stop) != from_str(g, stop)) mc::fail("digits_grouping == " + gname(g, stop), "equal groupings " + gname(g, stop) + " compare different");
        if (!g.empty()) {
            auto h = c; h.back() = h.back() == 31 ? 30 : h.back() + 1;
            if (variadic(h, stop) == a || variadic(c, !stop) == a || strf::digits_grouping() == a) mc::fail("digits_grouping != " + gname(g, stop), "a grouping different from " + gname(g, stop) + " compares equal to it");
            mc::step(3);
        }
    }
    // the creator: every sequence of pushes to length 3 over valid and invalid sizes, and the limit of 6 groups
    std::vector<int> P = {-2147483647 - 1, -1, 0, 1, 2, 3, 7, 30, 31, 32, 33, 34, 64, 65, 127, 128, 257, 0x7FFFFFFF};
    auto seq = [&](const std::vector<int>& v) {
        if (!mc::take()) return;
        for (int mode = 0; mode < 4; ++mode) {
            strf::digits_grouping_creator c; bool failed = false; std::vector<int> g;
            for (size_t i = 0; i < v.size(); ++i) {
                if (mode & 1) c.push_high((unsigned)v[i]); else c.push_high(v[i]);
                if (v[i] < 1 || v[i] > 31 || g.size() == 6) failed = true; else if (!failed) g.push_back(v[i]);
                if (c.failed() != failed) mc::fail("creator failed() " + gname(v, false), mc::sfmt("creator after %zu of the pushes %s: failed() is %d", i + 1, gname(v, false).c_str(), c.failed()));
            }
            bool stop = mode & 2;
            auto r = stop ? c.finish_no_more_sep() : c.finish();
            if (failed) g.clear();
            auto e = g.empty() ? strf::digits_grouping() : variadic(stop ? g : collapse(g), stop);
            mc::step();
            if (r != e) mc::fail("creator " + gname(v, stop), "creator with pushes " + gname(v, stop) + (failed ? " must give an empty grouping" : " gives another grouping"));
        }
        bool ok = true; std::string s; for (int x : v) { if (x < 1 || x > 127) ok = false; s += (char)x; }
        if (ok) for (int stop = 0; stop < 2; ++stop) {
            bool valid = v.size() <= 6; for (int x : v) if (x > 31) valid = false;
            auto e = valid ? variadic(stop ? v : collapse(v), stop) : strf::digits_grouping();
            if (strf::digits_grouping((s + (stop ? "\xFF" : "")).c_str()) != e) mc::fail("digits_grouping(string) " + gname(v, stop), "digits_grouping from the string of " + gname(v, stop) + " differs");
            mc::step();
        }
        mc::state(mc::hash(v.data(), v.size() * 4));
    };
    seq({});
    for (int a : P) { seq({a}); for (int b : P) { seq({a, b}); for (int c : P) seq({a, b, c}); } }
    for (int n = 4; n <= 9; ++n) for (int a = 1; a <= 31; ++a) for (int k = 0; k < n; ++k) { std::vector<int> v((size_t)n, a); seq(v); v[(size_t)k] = a == 1 ? 31 : 1; seq(v); v[(size_t)k] = 0; seq(v); v[(size_t)k] = 32; seq(v); }
    // facets without grouping
    for (int dc = 0; dc <= 400; ++dc) { if (!mc::take()) continue; std::vector<int> none; wrapper(strf::default_numpunct<10>(), none, false, dc, "default_numpunct"); wrapper(strf::no_grouping<16>().decimal_point(U':'), none, false, dc, "no_grouping"); wrapper(strf::numpunct<8>(), none, false, dc, "numpunct{}");
        auto d1 = strf::default_numpunct<10>().distribute(dc), d2 = strf::no_grouping<10>().distribute(dc), d3 = strf::numpunct<10>().distribute(dc);
        if (d1.highest_group != dc || d2.highest_group != dc || d3.highest_group != dc || !d1.low_groups.empty() || d1.middle_groups_count || !d2.low_groups.empty() || d2.middle_groups_count || !d3.low_groups.empty() || d3.middle_groups_count) mc::fail(mc::sfmt("ungrouped distribute %d", dc), mc::sfmt("a facet without grouping distributes %d digits", dc)); }
    if (mc::take()) {
        strf::no_grouping<10> n; n.decimal_point(U':'); auto c = (strf::numpunct<10>)n; auto d = (strf::numpunct<10>)strf::default_numpunct<10>();
        if (n.decimal_point() != U':' || c.decimal_point() != U':' || c.thousands_sep() != n.thousands_sep() || !c.grouping().empty() || d.decimal_point() != U'.' || d.thousands_sep() != U',' || !d.grouping().empty() || n == strf::no_grouping<10>() || n != strf::no_grouping<10>().decimal_point(U':') || strf::numpunct_c<10>::get_default().decimal_point() != U'.') mc::fail("no_grouping", "no_grouping / default_numpunct do not keep or convert what they hold");
    }
}

// ---- printing
struct U8 { using C = char; static auto cs() { return strf::utf8<char>; } static bool ok(char32_t c) { return c < 0xD800 || (c > 0xDFFF && c < 0x110000); } static std::string enc(const std::u32string& s) { return pr::enc<char>(s); } static const char* name() { return "UTF-8"; } };
struct U16 { using C = char16_t; static auto cs() { return strf::utf16<char16_t>; } static bool ok(char32_t c) { return U8::ok(c); } static std::u16string enc(const std::u32string& s) { return pr::enc<char16_t>(s); } static const char* name() { return "UTF-16"; } };
struct U32 { using C = wchar_t; static auto cs() { return strf::utf32<wchar_t>; } static bool ok(char32_t c) { return U8::ok(c); } static std::wstring enc(const std::u32string& s) { return pr::enc<wchar_t>(s); } static const char* name() { return "UTF-32"; } };
struct W1252 { using C = char; static auto cs() { return strf::windows_1252<char>; }
    static int byte(char32_t c) { return c < 0x80 || (c >= 0xA0 && c < 0x100) ? (int)c : c == 0x20AC ? 0x80 : c == 0x2019 ? 0x92 : -1; }
    static bool ok(char32_t c) { return byte(c) >= 0; } static std::string enc(const std::u32string& s) { std::string r; for (auto c : s) { int b = byte(c); r += b < 0 ? '?' : (char)b; } return r; } static const char* name() { return "windows-1252"; } };
struct Ascii { using C = char; static auto cs() { return strf::ascii<char>; } static bool ok(char32_t c) { return c < 0x80; } static std::string enc(const std::u32string& s) { std::string r; for (auto c : s) r += c < 0x80 ? (char)c : '?'; return r; } static const char* name() { return "ASCII"; } };

static const char32_t SEPS[] = {U',', U'\u00B7', U'\u2019', U'\U0001F600', 0xD800, 0x110000, U'\'', U'\u00FF'};
static const char32_t PTS[] = {U'.', U'\u00B7', U'\u20AC', U'\U0001D7D8', 0xDFFF, U':', 0x110000};

static strf::alignment_format af(int al, int w, char32_t f) { strf::alignment_format a; a.fill = f; a.width = (std::int16_t)w; a.alignment = al == 0 ? strf::text_alignment::left : al == 1 ? strf::text_alignment::right : strf::text_alignment::center; return a; }

template <class E, int B> static void ints(const std::vector<int>& g, bool stop, char32_t sep, int phase) {
    using C = typename E::C;
    auto fp = strf::pack(E::cs(), strf::numpunct<B>(variadic(g, stop)).thousands_sep(sep).decimal_point(U';'));
    const int maxd = B == 10 ? 20 : B == 16 ? 16 : B == 8 ? 22 : 64;
    for (int nd = 1; nd <= maxd; ++nd) {
        if (B == 2 && nd > 12 && nd % 7 > 1 && nd < 62) continue;
        unsigned long long v = 0; for (int i = 0; i < nd; ++i) { unsigned long long nv = v * B + (unsigned)((i * 7 + 1) % B ? (i * 7 + 1) % B : 1); if (i && nv / B != v) { nv = ~0ull; } v = nv; }
        if (nd == maxd) v = ~0ull;
        for (int form = 0; form < 5; ++form) {
            im::Spec s; s.base = B; s.punct = true; s.groups = g; s.stop = stop; s.sep = sep;
            bool neg = false;
            switch (form) {
            case 0: break;
            case 1: s.align = 1; s.width = (nd * 2 + phase) % 31; s.fill = U'\u2026'; break;
            case 2: s.pad0 = nd + 1 + (nd + phase) % 9; s.align = (phase + nd) % 3; s.width = s.pad0 + 3; s.fill = U'*'; break;
            case 3: s.prec = nd + (nd + phase) % 4; s.showbase = B != 10; s.align = 2; s.width = 40; s.fill = U'~'; break;
            case 4: s.showbase = B != 10; neg = true; s.sign = 1; break;
            }
            if (form == 1 && !E::ok(s.fill)) s.fill = U'?';
            unsigned long long mag = v; long long sv = (long long)v; if (neg) { if (B == 10 && v > 0x8000000000000000ull) continue; sv = (long long)(0 - v); }
            auto exp32 = im::print(neg, neg && B == 10, mag, neg ? (std::uint64_t)sv : v, s, E::ok(sep));
            auto exp = E::enc(exp32);
            pr::Opt o; o.width = (long)exp32.size(); o.level = (nd + phase + form) % 6 == 0 ? (exp.size() < 40 ? 2 : 1) : (nd + form) % 3 == 0 ? 1 : 0;
            strf::int_format f; f.base = B; f.precision = s.prec; f.pad0width = s.pad0; f.showbase = s.showbase; f.punctuate = true; f.sign = neg ? strf::showsign::positive_also : strf::showsign::negative_only;
            auto key = [&] { return mc::sfmt("%s base %d %s digits=%d form=%d sep=U+%lX grouping=%s width=%d pad0=%d precision=%d", E::name(), B, neg ? std::to_string(sv).c_str() : std::to_string(v).c_str(), nd, form, (unsigned long)sep, gname(g, stop).c_str(), s.width, s.pad0, s.prec); };
            auto run = [&](const auto& x) {
                if (s.align >= 0) pr::check<>(std::basic_string<C>(exp), [&](auto&& k) { k(fp, x.set_alignment_format(af(s.align, s.width, s.fill))); }, o, key);
                else pr::check<>(std::basic_string<C>(exp), [&](auto&& k) { k(fp, x); }, o, key);
            };
            if (neg) run(strf::fmt(sv).set_int_format(f)); else run(strf::fmt(v).set_int_format(f));
            if (form == 0) { if constexpr (B == 10) run(!strf::dec(v)); else if constexpr (B == 16) run(!strf::hex(v)); else if constexpr (B == 8) run(!strf::oct(v)); else run(!strf::bin(v)); }
            if (form == 0 && phase % 3 == 0) { if constexpr (B == 10) run(strf::punct(v)); else run(strf::punct(v).base(B)); }
        }
    }
}
template <class E> static void int_sweep(bool small) {
    auto gs = groupings(small); int phase = 0;
    for (auto& g : gs) for (int stop = 0; stop < 2; ++stop) for (char32_t sep : SEPS) {
        ++phase;
        if (small && g.size() > 2 && phase % 3) continue;
        if (!mc::take()) continue;
        ints<E, 10>(g, stop, sep, phase);
        if (phase % 3 == 0) { ints<E, 16>(g, stop, sep, phase / 3); }
        if (phase % 3 == 1) { ints<E, 8>(g, stop, sep, phase / 3); }
        if (phase % 3 == 2) { ints<E, 2>(g, stop, sep, phase / 3); }
    }
}
template <class E, class F> static void floats(const std::vector<int>& g, bool stop, char32_t sep, char32_t pt, int phase, const std::vector<F>& vs, const std::vector<fm::Val>& dv) {
    using C = typename E::C;
    auto fp = strf::pack(E::cs(), strf::numpunct<10>(variadic(g, stop)).thousands_sep(sep).decimal_point(pt), strf::numpunct<16>(3).decimal_point(pt));
    for (size_t i = 0; i < vs.size(); ++i) for (int n = 0; n < 4; ++n) for (int pi = 0; pi < 5; ++pi) {
        static const int PR[] = {-1, 0, 1, 3, 12};
        int al = (int)((i + (size_t)n + (size_t)pi + (size_t)phase) % 4) - 1;
        fm::Spec s; s.notation = n; s.prec = PR[pi]; s.punct = true; s.groups = g; s.stop = stop; s.sep = sep; s.point = s.hexpoint = pt; s.sep_ok = E::ok(sep);
        if (pi == 4) s.prec = 12 + phase % 5;
        // an invalid decimal point is encoded as any other character (E::enc): surrogates as they are, the rest replaced
        s.showpoint = (i + (size_t)phase) % 3 == 0; s.sign = (int)((i + (size_t)pi) % 3); s.align = al; if (al >= 0) { s.width = (int)((i * 5 + (size_t)phase) % 37); s.fill = E::ok(U'\u2026') ? U'\u2026' : U'#'; }
        if ((i + (size_t)n + (size_t)phase) % 4 == 0) s.pad0 = 7 + phase % 23;
        s.lc = phase % 3;
        if (n == fm::Gen && s.prec >= 0 && s.showpoint && fm::print(dv[i], s) != fm::print(dv[i], s, true)) s.showpoint = false;   // a known finding of C15
        auto exp32 = fm::print(dv[i], s); auto exp = E::enc(exp32);
        pr::Opt o; o.width = (long)exp32.size(); o.level = (i + (size_t)phase) % 5 == 0 ? (exp.size() < 30 ? 2 : 1) : 0;
        strf::float_format f; f.precision = s.prec; f.pad0width = s.pad0; f.showpoint = s.showpoint; f.punctuate = true;
        f.notation = n == fm::Gen ? strf::float_notation::general : n == fm::Fixed ? strf::float_notation::fixed : n == fm::Sci ? strf::float_notation::scientific : strf::float_notation::hex;
        f.sign = s.sign == 0 ? strf::showsign::negative_only : s.sign == 1 ? strf::showsign::positive_also : strf::showsign::fill_instead_of_positive;
        auto lc = s.lc == 0 ? strf::lowercase : s.lc == 1 ? strf::mixedcase : strf::uppercase;
        auto key = [&] { return mc::sfmt("%s %s %.17g notation=%d precision=%d showpoint=%d sign=%d sep=U+%lX point=U+%lX grouping=%s align=%d width=%d pad0=%d", E::name(), sizeof(F) == 4 ? "float" : "double", (double)vs[i], n, s.prec, s.showpoint, s.sign, (unsigned long)sep, (unsigned long)pt, gname(g, stop).c_str(), al, s.width, s.pad0); };
        auto x = strf::fmt(vs[i]).set_float_format(f);
        if (al >= 0) pr::check<>(std::basic_string<C>(exp), [&](auto&& k) { k(strf::pack(fp, lc), x.set_alignment_format(af(al, s.width, s.fill))); }, o, key);
        else pr::check<>(std::basic_string<C>(exp), [&](auto&& k) { k(strf::pack(fp, lc), x); }, o, key);
    }
}
template <class E, class F> static void float_sweep(bool small) {
    std::vector<F> vs; auto add = [&](double d) { if (std::isfinite((F)d)) vs.push_back((F)d); };
    add(0); add(999.96); add(-999999.5); add(9.5); add(99.99); add(0.0001234); add(0.05); add(-1e-7);
    for (int k = 0; k <= 24; ++k) { char t[40]; std::snprintf(t, sizeof t, "%.*se%d", k % 17 + 1, "12345678901234567", k / 2); double d = 0; std::from_chars(t, t + std::strlen(t), d); add(k % 2 ? d : -d); }
    for (int e : {3, 7, 12, 16, 17, 20, 21, 22, 23, 31, 33, 64, 70, 100, 308}) { add(1.0 * std::pow(10, e)); char t[40]; std::snprintf(t, sizeof t, "7.25189437e%d", e); double d = 0; std::from_chars(t, t + std::strlen(t), d); add(d); }
    for (int e = -6; e <= 15; e += 3) { char t[40]; std::snprintf(t, sizeof t, "9.9996e%d", e); double d = 0; std::from_chars(t, t + std::strlen(t), d); add(d); std::snprintf(t, sizeof t, "999999999.5e%d", e); std::from_chars(t, t + std::strlen(t), d); add(d); }
    vs.push_back(std::numeric_limits<F>::infinity()); vs.push_back(std::numeric_limits<F>::quiet_NaN()); vs.push_back(std::numeric_limits<F>::denorm_min());
    std::vector<fm::Val> dv; for (F f : vs) dv.push_back(fm::decompose(f));
    auto gs = groupings(small); int phase = 0;
    for (auto& g : gs) for (int stop = 0; stop < 2; ++stop) for (char32_t sep : SEPS) {
        ++phase;
        if (small ? phase % 2 : (g.size() > 2 && !mc::thorough() && phase % 3)) continue;
        if (!mc::take()) continue;
        floats<E, F>(g, stop, sep, sizeof(typename E::C) == 4 && phase % 7 == 6 ? U'\u066B' : PTS[(size_t)phase % 7], phase, vs, dv);
    }
}
// ---- every kind of numpunct facet: a type of the user's with the documented members only, no_grouping and default_numpunct
// print as the numpunct<Base> they convert to
template <int B> struct UserNp {
    using category = strf::numpunct_c<B>; strf::digits_grouping g; char32_t s, p;
    explicit operator strf::numpunct<B>() const noexcept { return strf::numpunct<B>(g).thousands_sep(s).decimal_point(p); }
    strf::digits_grouping grouping() const noexcept { return g; }
    strf::digits_distribution distribute(int n) const noexcept { return g.distribute(n); }
    bool any_group_separation(int n) const noexcept { return g.any_separator(n); }
    int thousands_sep_count(int n) const noexcept { return g.separators_count(n); }
    char32_t thousands_sep() const noexcept { return s; }
    char32_t decimal_point() const noexcept { return p; }
};
template <class E, int B, class FP> static void kinds_of(const char* kind, const FP& f, const strf::numpunct<B>& np, int phase) {
    using C = typename E::C;
    int idx = 0;
    auto one = [&](const char* what, const auto& x) {
        ++idx;
        auto exp = strf::to_basic_string<C>(E::cs(), np, x); strf::premeasurements<strf::size_presence::no, strf::width_presence::yes> w; strf::measure<C>(&w, strf::pack(E::cs(), np), x);
        pr::Opt o; o.width = w.accumulated_width().round(); o.level = (idx + phase) % 4 == 0 ? 1 : 0;
        auto key = [&] { return mc::sfmt("%s %s base %d %s #%d phase %d", E::name(), kind, B, what, idx, phase); };
        pr::check<>(std::basic_string<C>(exp), [&](auto&& k) { k(strf::pack(E::cs(), f), x); }, o, key);
        pr::check<>(std::basic_string<C>(exp), [&](auto&& k) { k(strf::pack(E::cs(), np, strf::constrain<std::is_arithmetic>(f)), x); }, o, key);
        if (phase % 3 == 0) pr::check<>(std::basic_string<C>(exp), [&](auto&& k) { k(strf::pack(E::cs()), strf::with(np, f)(x)); }, o, key);
    };
    for (unsigned long long v : {0ull, 7ull, 12ull, 123ull, 1234567ull, 0x8000000000000000ull, ~0ull}) for (int form = 0; form < 6; ++form) for (int pu = 0; pu < 2; ++pu) {
        strf::int_format i; i.base = B; i.punctuate = pu; strf::alignment_format a; a.fill = U'\u2026'; a.width = (std::int16_t)0;
        if (form == 1) { a.width = (std::int16_t)23; a.alignment = strf::text_alignment::right; } else if (form == 2) { i.pad0width = 12; a.width = (std::int16_t)15; a.alignment = strf::text_alignment::left; }
        else if (form == 3) { i.precision = 9; i.showbase = true; } else if (form == 4) { i.sign = strf::showsign::positive_also; i.showbase = true; }
        auto go = [&](const char* w, auto x) { auto y = strf::fmt(x).set_int_format(i); if (form == 1 || form == 2) one(w, y.set_alignment_format(a)); else one(w, y); };
        if (form == 5) { if constexpr (B == 10) { if (pu) { one("static", !strf::fmt(v)); one("short", !strf::fmt((short)v)); } else { one("plain", v); one("plain int", (int)v); } } else if constexpr (B == 16) { if (pu) one("static", !strf::hex(v)); else one("static", *strf::hex(v)); } else if constexpr (B == 8) { one("static", !strf::oct(v)); } else one("static", !strf::bin(v)); }
        else { go("unsigned", v); go("signed", (long long)v); }
    }
    if constexpr (B == 10 || B == 16) for (double v : {0.0, 0.5, -12.75, 1234567.875, 9.9996e15, 1e-7, 1e21, 0x1p+70}) for (int n = 0; n < 4; ++n) for (int pu = 0; pu < 2; ++pu) for (int pr_ : {-1, 2}) for (int al = 0; al < 2; ++al) {
        if ((n == 3) != (B == 16)) continue;
        strf::float_format i; i.punctuate = pu; i.precision = pr_; i.showpoint = n == 1; i.pad0width = al ? 9 : 0;
        i.notation = n == 0 ? strf::float_notation::general : n == 1 ? strf::float_notation::fixed : n == 2 ? strf::float_notation::scientific : strf::float_notation::hex;
        auto x = strf::fmt(v).set_float_format(i), y = x; auto z = strf::fmt((float)v).set_float_format(i); (void)y;
        if (al) { one("double", x > 20); one("float", z < 20); } else { one("double", x); one("float", z); }
        if (n == 0 && !pu && pr_ < 0) { if (!al) { one("plain double", v); one("plain float", (float)v); } else one("aligned plain double", strf::fmt(v) > 12); }
    }
}
template <class E, int B> static void kinds_base() {
    int phase = 0;
    for (auto& g : groupings(true)) { if (g.size() > 3) continue; for (int stop = 0; stop < 2; ++stop) for (char32_t sep : {U',', U'\u2019', U'\U0001F600'}) for (char32_t pt : {U'.', U'\u20AC'}) {
        ++phase; if (!mc::thorough() && phase % 4 > 1) continue; if (!mc::take()) continue;
        auto dg = variadic(g, stop); UserNp<B> u{dg, sep, pt};
        kinds_of<E, B>("user-defined numpunct", u, strf::numpunct<B>(dg).thousands_sep(sep).decimal_point(pt), phase);
    } }
    for (char32_t pt : {U'.', U':', U'\u20AC', U'\U0001D7D8'}) if (mc::take()) { ++phase; kinds_of<E, B>("no_grouping", strf::no_grouping<B>().decimal_point(pt), strf::numpunct<B>().decimal_point(pt), phase); }
    if (mc::take()) kinds_of<E, B>("default_numpunct", strf::default_numpunct<B>(), strf::numpunct<B>(), 0);
}
template <class E> static void kinds() { kinds_base<E, 10>(); kinds_base<E, 16>(); kinds_base<E, 8>(); kinds_base<E, 2>(); }
// the facets named after locales: the conventions of glibc
static void locales() {
    struct L { const char* name; strf::numpunct<10> np; char32_t pt, sep; const char* grp; };
    static const L all[] = {
#define X(n, pt, sep, g) {#n, strf::numpunct_##n, pt, sep, g},
#include "../data/numpunct_glibc.inc"
#undef X
    };
    for (auto& l : all) for (int nd = 1; nd <= 20; ++nd) for (int form = 0; form < 3; ++form) {
        if (!mc::take()) continue;
        std::vector<int> g; for (const char* p = l.grp; *p; ++p) if (*p != ';') g.push_back(*p - '0');
        std::string dg; for (int i = 0; i < nd; ++i) dg += (char)('0' + (i ? (i * 7) % 10 : 1)); auto v = strtoull(dg.c_str(), nullptr, 10); if (form == 2) { if (nd > 15) continue; }
        std::u32string want(dg.begin(), dg.end()); size_t pos = want.size(), k = 0;
        while (!g.empty()) { size_t n = (size_t)g[k < g.size() ? k : g.size() - 1]; ++k; if (pos <= n) break; pos -= n; want.insert(pos, 1, l.sep); }
        std::u32string got; bool getters = l.np.decimal_point() == l.pt && (g.empty() || l.np.thousands_sep() == l.sep);
        if (form == 0) got = strf::to_u32string.with(l.np)(strf::punct(v));
        else if (form == 1) { got = strf::to_u32string.with(strf::numpunct<10>(1), l.np)(strf::punct(-(std::int64_t)(v % 1000000000000000000ull))); auto m = std::to_string(v % 1000000000000000000ull);
            want.assign(m.begin(), m.end()); pos = want.size(); k = 0; while (!g.empty()) { size_t n = (size_t)g[k < g.size() ? k : g.size() - 1]; ++k; if (pos <= n) break; pos -= n; want.insert(pos, 1, l.sep); } want.insert(0, 1, U'-'); if (m == "0") want.erase(0, 1); }
        else { got = strf::to_u32string.with(l.np)(strf::fmt((double)v).fixed().punct().p(2)); want += l.pt; want += U"00"; }
        mc::step(); mc::state(mc::hash(got, mc::hash(l.name, strlen(l.name))));
        if (got != want || !getters) mc::fail(mc::sfmt("numpunct_%s %d digits form %d", l.name, nd, form), mc::sfmt("numpunct_%s prints ", l.name) + mc::show(got) + " expected " + mc::show(want) + (getters ? "" : "; decimal_point() or thousands_sep() is wrong"));
    }
}
static void body() {
#if PART == 8
    locales();
#elif PART == 5
    kinds<U8>();
#elif PART == 6
    kinds<W1252>();
#elif PART == 7
    kinds<U16>();
#elif PART == 0
    api();
#elif PART == 1
    int_sweep<U8>(false);
#elif PART == 2
    int_sweep<U16>(!mc::thorough()); int_sweep<U32>(true); int_sweep<W1252>(true); int_sweep<Ascii>(true);
#elif PART == 3
    float_sweep<U8, double>(false);
#elif PART == 4
    float_sweep<U16, double>(mc::thorough() ? false : true); float_sweep<U8, float>(true); float_sweep<U32, float>(true); float_sweep<W1252, double>(false); float_sweep<Ascii, float>(true);
#endif
}
MC_MAIN(body)
