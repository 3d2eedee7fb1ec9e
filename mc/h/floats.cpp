// C14/C15: printed floating-point numbers against fm::print.
#include <algorithm>
#include <cmath>
#include "print.hpp"
#include "floatmodel.hpp"
using std::size_t; using fm::Spec; using fm::Val;

static std::string specname(const Spec& s) {
    static const char* A[] = {"none", "left", "right", "center"}; static const char* N[] = {"gen", "fixed", "sci", "hex"};
    return mc::sfmt("%s precision=%d showpoint=%d sign=%d pad0=%d punct=%d case=%d align=%s width=%d fill=U+%lX", N[s.notation], s.prec, s.showpoint, s.sign, s.pad0, s.punct, s.lc, A[s.align + 1], s.width, (unsigned long)s.fill);
}
static strf::alignment_format af(const Spec& s) {
    strf::alignment_format a; a.fill = s.fill; a.width = (std::int16_t)s.width;
    a.alignment = s.align == 0 ? strf::text_alignment::left : s.align == 1 ? strf::text_alignment::right : strf::text_alignment::center; return a;
}
static strf::float_format ff(const Spec& s) {
    strf::float_format f; f.precision = s.prec; f.pad0width = s.pad0; f.showpoint = s.showpoint; f.punctuate = s.punct;
    f.notation = s.notation == fm::Gen ? strf::float_notation::general : s.notation == fm::Fixed ? strf::float_notation::fixed : s.notation == fm::Sci ? strf::float_notation::scientific : strf::float_notation::hex;
    f.sign = s.sign == 0 ? strf::showsign::negative_only : s.sign == 1 ? strf::showsign::positive_also : strf::showsign::fill_instead_of_positive;
    return f;
}
template <class F> std::string show(F f) { char b[64]; std::snprintf(b, sizeof b, "%s %a (%.17g)", sizeof f == 4 ? "float" : "double", (double)f, (double)f); return b; }
static strf::lettercase lc(int i) { return i == 0 ? strf::lowercase : i == 1 ? strf::mixedcase : strf::uppercase; }

static std::string once(const strf::lettercase& l, const auto& a) { return strf::to_string.with(l)(a); }
// *gen(x).p(n) drops trailing zeros that rounding produced: a known finding, checked exactly otherwise
template <class C, class F, class A> std::u32string known_or(F f, const Val& v, const Spec& s, const A& a, const std::u32string& exp) {
    if (s.notation == fm::Gen && s.prec >= 0 && s.showpoint && !v.nan && !v.inf) {
        auto q = fm::print(v, s, true);
        if (q != exp) {
            auto got = once(lc(s.lc), a);
            if (got != pr::enc<char>(exp)) { if (got == pr::enc<char>(q)) mc::known("general-showpoint-rounded", show(f) + " " + specname(s) + " prints " + got + " instead of " + pr::enc<char>(exp)); return q; }
        }
    }
    return exp;
}
template <class C, class F, class A> bool ck(F f, const Val& v, const Spec& s, const std::u32string& exp0, const A& a, const char* form, int level) {
    auto exp32 = known_or<C>(f, v, s, a, exp0);
    pr::Opt o; o.width = (long)exp32.size(); o.level = level;
    auto fp = strf::pack(lc(s.lc));
    return pr::check(pr::enc<C>(exp32), [&](auto&& k) { k(fp, a); }, o, [&] { return show(f) + " " + form + " " + specname(s); });
}
// every way to spell the format
template <class C, class F> void forms(F f, const Val& v, const Spec& s, int level) {
    auto exp = fm::print(v, s);
    auto al = [&](const auto& x, const char* form) { if (s.align < 0) ck<C>(f, v, s, exp, x, form, level); else ck<C>(f, v, s, exp, x.set_alignment_format(af(s)), form, level); };
    bool def = s.prec < 0 && !s.showpoint && s.sign == 0 && s.pad0 == 0 && s.notation == fm::Gen;
    if (def) { if (s.align < 0) ck<C>(f, v, s, exp, f, "plain", level); al(strf::fmt(f), "fmt"); al(strf::fmt(f).gen(), "gen()"); }
    al(strf::fmt(f).set_float_format(ff(s)), "set_float_format");
    auto x = s.notation == fm::Gen ? strf::fmt(f).set_float_notation(strf::float_notation::general) : s.notation == fm::Fixed ? strf::fmt(f).fixed() : s.notation == fm::Sci ? strf::sci(f) : strf::hex(f);
    auto y = std::move(x).p(s.prec);
    if (s.pad0) y = std::move(y).pad0(s.pad0);
    if (s.sign == 1) y = +std::move(y); else if (s.sign == 2) y = ~std::move(y);
    if (s.showpoint) y = *std::move(y);
    al(y, "chain");
}
template <class T> static T bits(std::uint64_t b) { T t; if constexpr (sizeof(T) == 4) { std::uint32_t c = (std::uint32_t)b; std::memcpy(&t, &c, 4); } else std::memcpy(&t, &b, 8); return t; }

// ---- shortest form: the text must parse back to the value, and be as short as std::to_chars'
template <class F> static void shortest_one(F f, bool fixed_too) {
    static char buf[700]; Val v = fm::decompose(f); Spec s;
    for (int n = 0; n < (fixed_too ? 4 : 1); ++n) {
        s.notation = n; auto exp = fm::print(v, s);
        auto r = n == 0 ? strf::to_range(buf, buf + 700)(f) : n == 1 ? strf::to_range(buf, buf + 700)(strf::fixed(f)) : n == 2 ? strf::to_range(buf, buf + 700)(strf::sci(f)) : strf::to_range(buf, buf + 700)(strf::hex(f));
        mc::step();
        size_t len = (size_t)(r.ptr - buf);
        bool same = len == exp.size(); for (size_t i = 0; same && i < len; ++i) same = (char32_t)buf[i] == exp[i];
        if (same && n != 3 && !v.nan && !v.inf) { F back = 0; auto q = std::from_chars(buf, r.ptr, back); same = q.ec == std::errc() && q.ptr == r.ptr && std::memcmp(&back, &f, sizeof f) == 0; }
        if (!same) mc::fail("shortest " + show(f) + mc::sfmt(" n=%d", n), show(f) + " prints as " + std::string(buf, r.ptr) + " expected " + mc::show(exp));
        else if (mc::want_sample()) mc::sample(show(f) + " -> " + std::string(buf, r.ptr));
    }
}
static void shortest_double() {
    std::vector<std::uint64_t> man;
    const std::uint64_t M = (std::uint64_t(1) << 52) - 1;
    for (int i = 0; i < 52; ++i) { man.push_back(std::uint64_t(1) << i); man.push_back(M ^ (std::uint64_t(1) << i)); man.push_back((std::uint64_t(1) << i) - 1); man.push_back(M & ~((std::uint64_t(1) << i) - 1)); for (int j = 0; j < i; ++j) { man.push_back((std::uint64_t(1) << i) | (std::uint64_t(1) << j)); man.push_back((std::uint64_t(1) << i) - (std::uint64_t(1) << j)); } }
    unsigned lim = mc::thorough() ? 65536 : 4096;
    for (std::uint64_t i = 0; i < lim; ++i) { man.push_back(i); man.push_back(M - i); man.push_back(i * (M / lim)); man.push_back((i * 0x9E3779B97F4A7ull) & M); }
    std::sort(man.begin(), man.end()); man.erase(std::unique(man.begin(), man.end()), man.end());
    for (std::uint64_t e = 0; e < 2048; ++e) {
        if (!mc::take()) continue;
        mc::state(e);
        for (auto m : man) { auto b = e << 52 | m; shortest_one(bits<double>(b), (m & 7) == 0 || m < 64); if ((m & 15) == 3) shortest_one(bits<double>(b | std::uint64_t(1) << 63), true); }
    }
    // doubles nearest to short decimals, and their neighbours
    unsigned dl = mc::thorough() ? 99999 : 9999;
    for (int k = -330; k <= 308; ++k) {
        if (!mc::take()) continue;
        for (unsigned d = 1; d <= dl; ++d) {
            char t[40]; int n = std::snprintf(t, sizeof t, "%ue%d", d, k); double x = 0; if (std::from_chars(t, t + n, x).ec != std::errc()) continue;
            std::uint64_t b; std::memcpy(&b, &x, 8);
            for (int j = -1; j <= 1; ++j) { if (b == 0 && j < 0) continue; shortest_one(bits<double>(b + (std::uint64_t)(std::int64_t)j), d < 100); }
        }
        mc::state(mc::hash(&k, 4));
    }
    // all digit counts
    for (int n = 1; n <= 17; ++n) for (int k = -40; k <= 25; ++k) {
        if (!mc::take()) continue;
        for (const char* pat : {"12345678901234567", "99999999999999999", "10000000000000001", "98765432109876543", "11111111111111111", "50505050505050505"}) {
            char t[60]; int l = std::snprintf(t, sizeof t, "%.*se%d", n, pat, k); double x = 0; std::from_chars(t, t + l, x); shortest_one(x, true); shortest_one(-x, true); float y = 0; if (std::from_chars(t, t + l, y).ec == std::errc()) shortest_one(y, true);
        }
    }
    for (std::uint64_t i = 0; i < (mc::thorough() ? 4000000u : 200000u); i += 1000) { if (!mc::take()) continue; for (std::uint64_t j = i; j < i + 1000; ++j) { shortest_one((double)j, true); shortest_one((double)j / 100, true); shortest_one((double)j * 1e10 + 7, true); } }
}
static void shortest_float() {
    if (mc::thorough()) {
        for (std::uint64_t hi = 0; hi < 0x10000; ++hi) { if (!mc::take()) continue; mc::state(hi); for (std::uint64_t lo = 0; lo < 0x10000; ++lo) shortest_one(bits<float>(hi << 16 | lo), (lo & 0xFF) == 0x55); mc::alive(); }
        return;
    }
    // every float whose low four bits are 0101 (1/16 of all floats)
    for (std::uint64_t hi = 0; hi < 0x10000; ++hi) { if (!mc::take()) continue; mc::state(hi); for (std::uint64_t lo = 5; lo < 0x10000; lo += 16) shortest_one(bits<float>(hi << 16 | lo), (lo & 0xFF0) == 0x550); }
    // all exponents x high mantissa bits x boundary low bits
    std::vector<unsigned> man;
    for (unsigned h = 0; h < 1024; ++h) for (unsigned l : {0u, 1u, 0x1FFFu, 0x1000u}) man.push_back(h << 13 | l);
    for (unsigned l = 0; l < 4096; ++l) for (unsigned h : {0u, 0x2ABu, 0x7FFu}) man.push_back(h << 12 | l);
    for (std::uint64_t e = 0; e < 256; ++e) for (size_t i = 0; i < man.size(); i += 1024) {
        if (!mc::take()) continue; mc::state(e << 32 | i);
        for (size_t j = i; j < i + 1024 && j < man.size(); ++j) { shortest_one(bits<float>(e << 23 | man[j]), (j & 7) == 0); if ((j & 15) == 0) shortest_one(bits<float>(std::uint64_t(1) << 31 | e << 23 | man[j]), true); }
    }
}
// ---- into every room: the text must be the same, and no unit outside the buffer, whatever room is left
template <class C, class F> static void rooms_one(F f, const char* t) {
    Val v = fm::decompose(f); Spec s; if (v.inf) return;
    for (int n = 0; n < 4; ++n) {
        s.notation = n; auto exp = fm::print(v, s); pr::Opt o; o.width = (long)exp.size(); o.level = exp.size() < 120 ? 2 : 1;
        auto key = [&] { return show(f) + " = " + t + " " + specname(s) + " in every room"; };
        if (n == 0) pr::check(pr::enc<C>(exp), [&](auto&& k) { k(strf::pack(), f); }, o, key);
        else if (n == 1) pr::check(pr::enc<C>(exp), [&](auto&& k) { k(strf::pack(), strf::fixed(f)); }, o, key);
        else if (n == 2) pr::check(pr::enc<C>(exp), [&](auto&& k) { k(strf::pack(), strf::sci(f)); }, o, key);
        else pr::check(pr::enc<C>(exp), [&](auto&& k) { k(strf::pack(), strf::hex(f)); }, o, key);
    }
}
template <class C> static void rooms() {
    for (int e : {-323, -310, -308, -101, -100, -99, -98, -45, -38, -37, -23, -22, -11, -10, -9, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 19, 20, 21, 22, 23, 38, 98, 99, 100, 101, 200, 307}) for (int n = 1; n <= 17; ++n) {
        if (!mc::take()) continue;
        for (const char* pat : {"12345678901234567", "99999999999999999"}) for (int neg = 0; neg < 2; ++neg) {
            char t[60]; int l = std::snprintf(t, sizeof t, "%s%c.%.*se%d", neg ? "-" : "", pat[0], n - 1, pat + 1, e);
            double x = 0; if (std::from_chars(t, t + l, x).ec == std::errc()) rooms_one<C>(x, t);
            float y = 0; if (n <= 9 && std::from_chars(t, t + l, y).ec == std::errc()) rooms_one<C>(y, t);
        }
    }
}
// ---- precision: every short decimal, every exponent, every precision
template <class C, class F> static void rounding() {
    unsigned dl = mc::thorough() ? 999999 : 99999;
    for (int k = mc::thorough() ? -25 : -16; k <= 14; ++k) for (unsigned blk = 0; blk <= dl; blk += 100) {
        if (!mc::take()) continue;
        for (unsigned d = blk; d < blk + 100; ++d) {
            if (d > 9999 && (k % 3 != 0) && d % 7 > 2) continue;
            char t[40]; int n = std::snprintf(t, sizeof t, "%ue%d", d, k); F x = 0; std::from_chars(t, t + n, x); if (d % 2) x = -x;
            Val v = fm::decompose(x);
            for (int nt = 0; nt < 3; ++nt) for (int p = 0; p <= 6; ++p) {
                Spec s; s.notation = nt; s.prec = p; s.showpoint = (d + (unsigned)p) % 3 == 0; s.align = d % 5 == 0 ? -1 : 2; s.width = 14; s.fill = U'*'; s.sign = (int)(d % 3); s.pad0 = d % 4 == 0 ? 9 : 0;
                auto exp = fm::print(v, s);
                auto f = strf::fmt(x).set_float_format(ff(s));
                if (s.align < 0) ck<C>(x, v, s, exp, f, "set_float_format", 0); else ck<C>(x, v, s, exp, f.set_alignment_format(af(s)), "set_float_format", 0);
            }
        }
    }
    // long digit strings: nines, ties, all digit counts and precisions
    for (int n = 1; n <= 17; ++n) for (int k = -25; k <= 20; ++k) {
        if (!mc::take()) continue;
        for (const char* pat : {"99999999999999999", "12345678901234567", "99949994999499949", "10000000000000005", "55555555555555555", "94999999999999999", "14999999999999995", "50000000000000000", "24500000000000000", "89999999999999999", "99500000000000000", "95000000000000000"}) {
            char t[60]; int l = std::snprintf(t, sizeof t, "%.*se%d", n, pat, k); F x = 0; if (std::from_chars(t, t + l, x).ec != std::errc()) continue; Val v = fm::decompose(x);
            for (int nt = 0; nt < 3; ++nt) for (int p = 0; p <= 20; ++p) for (int sp = 0; sp < 2; ++sp) {
                Spec s; s.notation = nt; s.prec = p; s.showpoint = sp; s.align = 1; s.width = p % 2 ? 12 : 31; s.fill = U'_';
                ck<C>(x, v, s, fm::print(v, s), strf::fmt(x).set_float_format(ff(s)).set_alignment_format(af(s)), "set_float_format", 0);
            }
        }
    }
    // hexadecimal: rounding of all nibble patterns at each precision
    for (int nib = 0; nib < 13; ++nib) for (unsigned pat = 0; pat < 4096; pat += 64) {
        if (!mc::take()) continue;
        for (unsigned q = pat; q < pat + 64; ++q) for (int rest = 0; rest < 3; ++rest) for (unsigned e : {0u, 1u, 1022u, 1023u, 1032u, 1033u, 1123u, 2045u, 924u, 913u}) {
            std::uint64_t m = (std::uint64_t)q << 40 >> (4 * (nib > 10 ? 10 : nib)); if (nib) m |= rest == 1 ? (((std::uint64_t(1) << (4 * nib)) - 1) << (52 - 4 * nib)) : 0; if (rest == 2) m |= 1;
            m &= 0xFFFFFFFFFFFFFull;
            F x; if constexpr (sizeof(F) == 8) x = bits<double>((std::uint64_t)e << 52 | m); else { int fe = (int)e - 1023 + 127; if (e == 0) fe = 0; if (fe < 0 || fe > 254) continue; x = bits<float>((std::uint64_t)fe << 23 | m >> 29); }
            Val v = fm::decompose(x);
            for (int p : {nib - 1, nib, nib + 1}) {
                if (p < 0) continue;
                Spec s; s.notation = fm::Hex; s.prec = p; s.showpoint = q & 1; s.lc = (int)(q % 3); s.align = 0; s.width = 20; s.fill = U'.'; s.pad0 = q % 5 == 0 ? 17 : 0;
                ck<C>(x, v, s, fm::print(v, s), strf::fmt(x).set_float_format(ff(s)).set_alignment_format(af(s)), "set_float_format", 0);
            }
        }
    }
}
// ---- every option combination
template <class C, class F> static void options(bool big) {
    std::vector<F> vs;
    for (double d : {0.0, -0.0, 1.0, -1.0, 9.9996, 0.00099996, 99996.0, 1234567.891, 1e-5, -1e-4, 0.1, 1e15, 123456789012345.0, 1e100, -1.5e-100, 9.5, 0.5, 255.99, 3.0e5, 12.0, 0.05, 1e21, 6.02214e23}) vs.push_back((F)d);
    vs.push_back(bits<F>(1)); vs.push_back(std::numeric_limits<F>::max()); vs.push_back(std::numeric_limits<F>::min());
    vs.push_back(std::numeric_limits<F>::infinity()); vs.push_back(-std::numeric_limits<F>::infinity()); vs.push_back(std::numeric_limits<F>::quiet_NaN()); vs.push_back(-std::numeric_limits<F>::quiet_NaN());
    std::vector<int> precs = {-1, 0, 1, 2, 3, 5, 9, 17, 40, 70, 150}, pads = {0, 1, 4, 9, 25, 66, 140}, widths = {0, 1, 5, 12, 30, 70, 150};
    if (!big) { precs = {-1, 0, 2, 70}; pads = {0, 7, 70}; widths = {0, 12, 80}; }
    precs.push_back(-7);
    std::vector<Val> dv; for (F f : vs) dv.push_back(fm::decompose(f));
    for (int nt = 0; nt < 4; ++nt) for (int p : precs) for (int sp = 0; sp < 2; ++sp) for (int sg = 0; sg < 3; ++sg) for (int pd : pads) for (int al = -1; al < 3; ++al) for (int w : widths) {
        if (al < 0 && w) continue;
        for (char32_t fill : {U' ', U'*', U'\u00E9', U'\U0001F600'}) {
            if (al < 0 && fill != U' ') continue;
            if (w == 0 && fill != U'*' && al >= 0) continue;
            if (!big && fill == U'\u00E9') continue;
            if (!mc::take()) continue;
            int l = 0;
            for (size_t i = 0; i < vs.size(); ++i) {
                Spec s; s.notation = nt; s.prec = p; s.showpoint = sp; s.sign = sg; s.pad0 = pd; s.align = al; s.width = w; s.fill = fill; s.lc = l = (l + 1) % 3;
                forms<C>(vs[i], dv[i], s, w <= 12 && pd < 25 && i % 5 == (size_t)(w % 5) ? 2 : (i + (size_t)pd) % 4 == 0 ? 1 : 0);
            }
        }
    }
}
static void body() {
#if PART == 0
    shortest_double();
#elif PART == 1
    shortest_float();
#elif PART == 2
    rounding<char, double>();
#elif PART == 3
    rounding<char16_t, float>();
#elif PART == 4
    options<char, double>(true);
#elif PART == 5
    options<char, float>(true); options<char16_t, double>(true);
#elif PART == 7
    rooms<char>(); rooms<char16_t>(); rooms<char32_t>();
#elif PART == 6
    options<char8_t, float>(true); options<char32_t, double>(mc::thorough()); options<wchar_t, float>(mc::thorough());
#endif
}
MC_MAIN(body)
