// C17 (FAM=1): alignment and fill of numbers, strings, joins.   C23 (FAM=0): characters, repeated characters, booleans, pointers.
// PART selects the character types and charsets.
#include <string_view>
#include <string>
#include "print.hpp"
#include "utfmodel.hpp"
#include "transcheck.hpp"
#include "widthmodel.hpp"
#include "data/sbtables.hpp"
#include "wcalc.hpp"
using strf::width_t;
static const um::Enc E8{um::U8, "UTF-8"}, E16{um::U16, "UTF-16"}, E32{um::U32, "UTF-32"};

struct A { bool on; strf::text_alignment al; std::int32_t w; char32_t fill; int sp; };
static const strf::text_alignment L = strf::text_alignment::left, R = strf::text_alignment::right, M = strf::text_alignment::center;

template <class C, class CS> struct H {
    using S = std::basic_string<C>;
    CS cs; const um::Enc& e; const char* form;
    int wc; strf::lettercase lc = strf::lettercase::lower; bool default_wc = false;
    S one(char32_t c) { um::Seq q = um::encode(e, um::can_encode(e, c) ? c : e.repl()); S s; for (unsigned i = 0; i < q.n; ++i) s += (C)q.u[i]; return s; }
    static S rep(const S& u, std::int64_t n) { S s; for (; n > 0; --n) s += u; return s; }
    // fmt: the formatted printable without alignment (prvalue factory); content and its width in 1/65536
    template <class F> void go(const F& make, const S& content, std::int64_t w, const A& a, int level, const std::string& what) {
        std::int64_t fc = 0;
        if (a.on && a.w > w) fc = (a.w - w + 0x7FFF) >> 16;
        std::int64_t lf = a.al == L ? 0 : a.al == M ? fc / 2 : fc;
        S f = one(a.fill), exp = rep(f, lf) + content + rep(f, fc - lf);
        auto key = [&] { return mc::sfmt("%s %s wcalc=%d lettercase=%d %s %s sp=%d", form, what.c_str(), wc, (int)lc, e.name, a.on ? mc::sfmt("%c %.6g fill U+%X", a.al == L ? '<' : a.al == M ? '^' : '>', a.w / 65536.0, (unsigned)a.fill).c_str() : "", a.sp); };
        strf::alignment_format af; af.fill = a.fill; af.width = width_t::from_underlying(a.w); af.alignment = a.al;
        width_t W = af.width;
        auto em = [&](auto&& k) {
            auto out = [&](const auto& x) { if (default_wc) k(strf::pack(cs, lc), x); else k(strf::pack(cs, WC{wc}, lc), x); };
            if (!a.on) { if (a.sp == 2) out(make().set_alignment_format(strf::default_alignment_format{})); else if (a.sp == 3) out((make() > 5).clear_alignment_format()); else out(make()); return; }
            switch (a.sp) {
            case 0: out(make().set_alignment_format(af)); break;
            case 1: if (a.al == L) out(make().fill(a.fill) < W); else if (a.al == R) out(make().fill(a.fill) > W); else out(make().fill(a.fill) ^ W); break;
            case 2: if (a.al == L) out((make() < W).fill(a.fill)); else if (a.al == R) out((make() > W).fill(a.fill)); else out((make() ^ W).fill(a.fill)); break;
            case 3: if (a.al == L) out(strf::left(make(), W, a.fill)); else if (a.al == R) out(strf::right(make(), W, a.fill)); else out(strf::center(make(), W, a.fill)); break;
            default: {                  // the last one wins
                auto f1 = (make() ^ 99).fill(U'#');
                if (a.al == L) out(std::move(f1).fill(a.fill) < W); else if (a.al == R) out((std::move(f1) > W).fill(a.fill)); else out((std::move(f1) < 3).set_alignment_format(af)); break; }
            }
        };
        pr::Opt o; o.level = level; o.w64 = w + (fc << 16);
        pr::check<false>(exp, em, o, key);
    }
    // all alignments of one content
    template <class F> void all(const F& make, const S& content, std::int64_t w, const std::string& what, bool full) {
        static const char32_t fills[] = {U' ', U'*', U'\u00E9', U'\u20AC', U'\u4E00', U'\U0001F600'};
        if (!mc::take()) return;
        for (int sp : {0, 2, 3}) go(make, content, w, A{false, R, 0, U' ', sp}, sp == 0 ? 2 : 0, what);
        std::vector<std::int32_t> ws = {-(5 << 16), 0, 0x8000, 0x10000, 0x18000, 0x18001, 0x28000};
        for (std::int64_t d : {-0x10000, -1, 0, 0x7FFF, 0x8000, 0x8001, 0x10000, 0x20000, 3 << 16, 7 << 16, 64 << 16, 65 << 16, 131 << 16}) if (w + d > 0 && w + d < 0x7FFF0000) ws.push_back((std::int32_t)(w + d));
        ws.push_back(300 << 16);
        for (size_t iw = 0; iw < ws.size(); ++iw) for (auto al : {L, R, M}) for (int f = 0; f < 6; ++f) {
            if (!full && (iw + f + (int)al) % 3) continue;
            for (int sp = 0; sp < 5; ++sp) if (full || (sp + f) % 5 == 0 || f == 0) go(make, content, w, A{true, al, ws[iw], fills[f], sp}, sp == 0 && f % 3 == 2 ? (w < (20 << 16) && f == 2 ? 2 : 1) : 0, what);
        }
        for (auto al : {L, R, M}) go(make, content, w, A{true, al, 3000 << 16, U' ', 0}, 1, what);
        mc::alive();
    }
    std::int64_t cw1(char32_t c) { return (std::int64_t)(wc == 0 ? cw(c) : 1) << 16; }
    S hexs(std::uint64_t v) { char b[40]; std::snprintf(b, sizeof b, lc == strf::lettercase::lower ? "%lx" : "%lX", (unsigned long)v); return pr::asc<C>(b); }
    void fam0(bool full) {
        // characters of the destination's type: any unit, as it is
        std::vector<std::uint32_t> units = {'a', 0, '\n', 0x7E};
        if (sizeof(C) == 1) for (auto u : {0x80, 0xE9, 0xFF}) units.push_back((std::uint32_t)u);
        if (sizeof(C) >= 2) for (auto u : {0xE9, 0x4E00, 0xD800, 0xDC00, 0xFFFF, 0x1100}) units.push_back((std::uint32_t)u);
        if (sizeof(C) == 4) for (auto u : {0x1F600u, 0x20000u, 0x110000u}) units.push_back(u);
        for (auto u : units) {
            um::Item it = um::decode1(e, [&](size_t) { return u; }, 0, 1, false);
            char32_t c = it.ok ? (char32_t)it.cp : U'\uFFFD';
            C ch = (C)u; std::int64_t w1 = cw1(c);
            if (mc::take()) {       // without any format
                auto em = [&](auto&& k) { k(strf::pack(cs, WC{wc}), ch); };
                pr::Opt o; o.level = 2; o.w64 = w1; pr::check<false>(S(1, ch), em, o, [&] { return mc::sfmt("%s char %X %s wcalc=%d", form, u, e.name, wc); });
            }
            for (int n : {1, 0, 2, 3, 5, 63, 64, 65, 200}) {
                bool big = n > 5;
                if (big && u != 'a' && u != 0xE9 && u != 0x4E00) continue;
                if (n == 1) all([&] { return strf::fmt(ch); }, S(1, ch), w1, mc::sfmt("fmt(char %X)", u), full && u == 'a');
                all([&] { return strf::multi(ch, n); }, S((size_t)n, ch), w1 * n, mc::sfmt("multi(char %X, %d)", u, n), full && (n == 2 || n == 0) && u == 'a');
            }
        }
        for (char32_t c : {U'a', U'\u00E9', U'\u20AC', U'\u4E00', U'\uFFFD', U'\U0001F600', (char32_t)0x10FFFF}) {
            S t = one(c);
            if (mc::take()) {
                auto em = [&](auto&& k) { k(strf::pack(cs, WC{wc}), c); };
                pr::Opt o; o.level = 2; o.w64 = cw1(c); pr::check<false>(t, em, o, [&] { return mc::sfmt("%s char32_t %X %s wcalc=%d", form, (unsigned)c, e.name, wc); });
            }
            for (int n : {1, 0, 2, 3, 21, 64, 70}) all([&] { return strf::fmt(c).multi(n); }, rep(t, n), cw1(c) * n, mc::sfmt("char32_t %X multi %d", (unsigned)c, n), full && c == U'\u4E00' && n < 3);
        }
        for (int l = 0; l < 3; ++l) {
            lc = l == 0 ? strf::lettercase::lower : l == 1 ? strf::lettercase::mixed : strf::lettercase::upper;
            for (bool b : {false, true}) {
                S t = pr::asc<C>(b ? (l == 0 ? "true" : l == 1 ? "True" : "TRUE") : (l == 0 ? "false" : l == 1 ? "False" : "FALSE"));
                std::int64_t w = (std::int64_t)t.size() << 16;
                if (mc::take()) { auto em = [&](auto&& k) { k(strf::pack(cs, WC{wc}, lc), b); }; pr::Opt o; o.level = 2; o.w64 = w; pr::check<false>(t, em, o, [&] { return mc::sfmt("%s bool %d lettercase %d", form, b, l); }); }
                all([&] { return strf::fmt(b); }, t, w, mc::sfmt("bool %d", b), full);
            }
            for (std::uint64_t v : {0ull, 1ull, 15ull, 16ull, 0xABCDEFull, 0xFFFFFFFFull, 0x7FFFABCDEFull, ~0ull, 0x8000000000000000ull}) {
                const void* p = (const void*)v; S t = pr::asc<C>(l == 2 ? "0X" : "0x") + hexs(v);
                std::int64_t w = (std::int64_t)t.size() << 16;
                if (mc::take()) { auto em = [&](auto&& k) { k(strf::pack(cs, WC{wc}, lc), p); }; pr::Opt o; o.level = 2; o.w64 = w; pr::check<false>(t, em, o, [&] { return mc::sfmt("%s pointer %lX lettercase %d", form, (unsigned long)v, l); }); }
                all([&] { return strf::fmt(p); }, t, w, mc::sfmt("pointer %lX", (unsigned long)v), full && v == 0xABCDEF);
            }
        }
        lc = strf::lettercase::lower;
        // every unit and every code point, plainly and in a fill
        if (wc == 0) {
            for (std::uint32_t u = 0; u < (sizeof(C) == 1 ? 256u : 65536u); ++u) {
                if (!mc::take()) continue;
                um::Item it = um::decode1(e, [&](size_t) { return u; }, 0, 1, false);
                C ch = (C)u; std::int64_t w1 = cw1(it.ok ? (char32_t)it.cp : U'\uFFFD');
                auto em = [&](auto&& k) { k(strf::pack(cs), ch, strf::right(ch, 4, U'*')); };
                pr::Opt o; o.level = 0; o.w64 = w1 + (4 << 16);
                S x = S(1, ch) + rep(one('*'), 4 - (w1 >> 16)) + S(1, ch);
                pr::check<false>(x, em, o, [&] { return mc::sfmt("%s unit %X and right(4)", form, u); });
            }
            for (std::uint32_t c = 0; c < 0x110000; ++c) {
                if (c >= 0xD800 && c < 0xE000) continue;
                if (!full && c > 0x300 && c % 17 && c % 0x400 > 1 && c % 0x400 < 0x3FF) continue;
                if (!mc::take()) continue;
                auto em = [&](auto&& k) { k(strf::pack(cs), (char32_t)c, strf::center((char32_t)c, 6, (char32_t)c)); };
                std::int64_t fc = 6 - (cw1(c) >> 16);
                pr::Opt o; o.level = 0; o.w64 = cw1(c) * 2 + (fc << 16);
                pr::check<false>(rep(one(c), fc + 2), em, o, [&] { return mc::sfmt("%s char32_t %X and center(6) filled with itself", form, c); });
            }
        }
    }
    void fam1(bool full) {
        static const struct { long long v; const char* s; } ints[] = {{0, "0"}, {-1, "-1"}, {12345, "12345"}, {-99999, "-99999"}, {9223372036854775807ll, "9223372036854775807"}};
        for (auto& x : ints) {
            S t = pr::asc<C>(x.s); std::int64_t w = (std::int64_t)t.size() << 16;
            all([&] { return strf::fmt(x.v); }, t, w, mc::sfmt("int %s", x.s), full && x.v == 12345);
            if (x.v >= 0) all([&] { return +strf::dec(x.v).pad0(8); }, pr::asc<C>(("+" + std::string(x.v == 0 ? "0000000" : x.v == 12345 ? "0012345" : x.s)).c_str()), x.v < 99999 ? 8 << 16 : 20 << 16, mc::sfmt("+int %s pad0(8)", x.s), false);
        }
        all([&] { return *strf::hex(0xBEEFu).p(6); }, pr::asc<C>("0x00beef"), 8 << 16, "*hex(beef).p(6)", full);
        all([&] { return strf::fmt((unsigned char)7); }, pr::asc<C>("7"), 1 << 16, "uint8 7", false);
        static const struct { double v; const char* s; } dbls[] = {{0.0, "0"}, {-0.0, "-0"}, {1.5, "1.5"}, {-123456.0, "-123456"}, {1e100, "1e+100"}, {-2.5e-10, "-2.5e-10"}, {__builtin_nan(""), "nan"}, {-__builtin_inf(), "-inf"}};
        for (auto& x : dbls) {
            S t = pr::asc<C>(x.s); std::int64_t w = (std::int64_t)t.size() << 16;
            all([&] { return strf::fmt(x.v); }, t, w, mc::sfmt("double %s", x.s), full && x.v == 1.5);
            if (x.v == 1.5) { all([&] { return strf::fixed(x.v, 3); }, pr::asc<C>("1.500"), 5 << 16, "fixed(1.5, 3)", false); all([&] { return strf::fmt((float)x.v); }, t, w, "float 1.5", false); all([&] { return strf::sci(x.v).pad0(10); }, pr::asc<C>("001.5e+00") .insert(0, 1, (C)'0'), 10 << 16, "sci(1.5).pad0(10)", false); }
        }
        // strings (in detail: C26)
        for (const char* s : {"", "x", "hello", "0123456789012345678901234567890123456789012345678901234567890123456789"}) {
            S t = pr::asc<C>(s); std::int64_t w = (std::int64_t)t.size() << 16;
            all([&] { return strf::fmt(t); }, t, w, std::string("string ") + s, full && t.size() == 5);
            all([&] { return strf::fmt(t).p(3); }, t.substr(0, 3), std::min<std::int64_t>(w, 3 << 16), std::string("string.p(3) ") + s, false);
            all([&] { return strf::sani(t); }, t, w, std::string("sani ") + s, false);
            all([&] { return strf::unsafe_transcode(t.c_str()); }, t, w, std::string("unsafe_transcode ") + s, false);
            if constexpr (!std::is_same_v<C, char32_t>) { std::u32string u(s, s + std::strlen(s)); all([&] { return strf::transcode(u); }, t, w, std::string("transcode from UTF-32 ") + s, false); }
        }
        {   // joins
            S ab = pr::asc<C>("ab");
            all([&] { return strf::join(); }, S(), 0, "join()", full);
            all([&] { return strf::join(1, ab, true); }, pr::asc<C>("1abtrue"), 7 << 16, "join(1, ab, true)", full);
            all([&] { return strf::join(strf::right(ab, 5, U'.'), strf::join(-7, (C)'c') ^ 6); }, pr::asc<C>("...ab -7c  "), 11 << 16, "join(right(ab, 5), join(-7, c) ^ 6)", false);
            std::string big(80, 'z'); S bt = pr::asc<C>(big.c_str());
            all([&] { return strf::join(ab, bt, strf::multi((C)'y', 70)); }, ab + bt + S(70, (C)'y'), 152 << 16, "join(ab, 80 z, 70 y)", false);
            std::vector<int> v = {1, 22, 333};
            all([&] { return strf::join(strf::range(v), strf::separated_range(v, ab.c_str())); }, pr::asc<C>("1223331ab22ab333"), 16 << 16, "join(range, separated_range)", full);
            all([&] { return strf::join(strf::fmt_separated_range(v, ab.c_str()).pad0(4), strf::fmt_range(v) > 5); }, pr::asc<C>("0001ab0022ab0333    1   22  333"), 31 << 16, "join(fmt_separated_range.pad0(4), fmt_range > 5)", false);
        }
        // join_left, join_right, join_center and join_align
        for (auto al : {L, R, M}) for (std::int64_t q : {-(5 << 16), 0, 1 << 16, (2 << 16) + 0x8000, 3 << 16, (3 << 16) + 0x8000, (3 << 16) + 0x8001, 4 << 16, (5 << 16) - 0x8000, (5 << 16) - 0x7FFF, 9 << 16, 10 << 16, 70 << 16, 200 << 16, 5000 << 16}) for (int fk = 0; fk < 4; ++fk) for (int ct = 0; ct < 3; ++ct) {
            if (!mc::take()) continue;
            const strf::width_t w = strf::width_t::from_underlying((std::int32_t)q); const char32_t f = fk == 0 ? U' ' : fk == 1 ? U'-' : fk == 2 ? U'\u20AC' : U'\U0001F600';
            S ab = pr::asc<C>("ab"), t = ct == 0 ? S() : ct == 1 ? pr::asc<C>("ab7") : pr::asc<C>(std::string(90, 'z').c_str()) + ab; const std::int64_t tw = (std::int64_t)t.size() << 16, d = q - tw;
            std::int64_t fc = d <= 0 ? 0 : (d >> 16) + ((d & 0xFFFF) > 0x8000 ? 1 : 0), lf = al == L ? 0 : al == M ? fc / 2 : fc;
            S exp = rep(one(f), lf) + t + rep(one(f), fc - lf);
            auto key = [&] { return mc::sfmt("%s join maker al=%d w=%f fill=%X content %d", form, (int)al, (double)q / 65536, (unsigned)f, ct); };
            S z90 = pr::asc<C>(std::string(90, 'z').c_str());
            auto go = [&](auto mk) { pr::Opt o; o.level = 2; o.w64 = tw + (fc << 16);
                auto em = [&](auto&& k) { k(strf::pack(cs, WC{wc}), mk(ab, 7)); }; auto em0 = [&](auto&& k) { k(strf::pack(cs, WC{wc}), mk()); }; auto em2 = [&](auto&& k) { k(strf::pack(cs, WC{wc}), mk(z90, ab)); };
                if (ct == 0) pr::check<false>(exp, em0, o, key); else if (ct == 1) pr::check<false>(exp, em, o, key); else pr::check<false>(exp, em2, o, key); };
            if (fk == 0) { go(strf::join_align(w, al)); if (al == L) go(strf::join_left(w)); else if (al == R) go(strf::join_right(w)); else go(strf::join_center(w)); if (!(q & 0xFFFF)) go(strf::join_align((std::int16_t)(q >> 16), al)); }
            else if (fk == 1) { go(strf::join_align(w, al, '-')); go(strf::join_align(w, al, (C)'-')); if (al == L) go(strf::join_left(w, '-')); else if (al == R) go(strf::join_right(w, '-')); else go(strf::join_center(w, '-')); }
            else { go(strf::join_align(w, al, f)); if (al == L) go(strf::join_left(w, f)); else if (al == R) go(strf::join_right(w, f)); else go(strf::join_center(w, f)); }
        }
        // formats of ranges apply to each element
        {
            std::vector<int> v = {5, -42, 777};
            for (auto al : {L, R, M}) for (int w : {0, 1, 2, 3, 4, 9, 70}) for (char32_t f : {U' ', U'\u20AC', U'\U0001F600'}) {
                if (!mc::take()) continue;
                S exp, sep = pr::asc<C>(", "), exp2; std::int64_t tw = 0;
                for (size_t i = 0; i < v.size(); ++i) { S t = pr::asc<C>(std::to_string(v[i]).c_str()); std::int64_t fc = std::max<std::int64_t>(0, w - (std::int64_t)t.size()), lf = al == L ? 0 : al == M ? fc / 2 : fc; S x = rep(one(f), lf) + t + rep(one(f), fc - lf); exp += x; if (i) exp2 += sep; exp2 += x; tw += std::max<std::int64_t>(w, (std::int64_t)t.size()); }
                strf::alignment_format af; af.fill = f; af.width = (std::int16_t)w; af.alignment = al;
                auto key = [&] { return mc::sfmt("%s fmt_range al=%d w=%d fill=%X", form, (int)al, w, (unsigned)f); };
                pr::Opt o; o.level = 2; o.w64 = tw << 16;
                pr::check<false>(exp, [&](auto&& k) { k(strf::pack(cs, WC{wc}), strf::fmt_range(v).set_alignment_format(af)); }, o, key);
                o.w64 = (tw + 4) << 16;
                pr::check<false>(exp2, [&](auto&& k) { k(strf::pack(cs, WC{wc}), strf::fmt_separated_range(v, sep.c_str()).fill(f).set_alignment_format(af)); }, o, key);
            }
        }
    }
    void run(bool full) {
        for (wc = 0; wc < (full || mc::thorough() ? 4 : 2); ++wc) {
#if FAM == 0
            fam0(full && wc == 0);
#else
            if (wc == 0 || wc == 3) fam1(full && wc == 0);
#endif
        }
        wc = 0; default_wc = true;
        all([&] { return strf::fmt(U'\u4E00'); }, one(U'\u4E00'), 2 << 16, "default width calculator: U+4E00", false);
        all([&] { return strf::fmt(true); }, pr::asc<C>("true"), 4 << 16, "default width calculator: true", false);
    }
};
template <class C, class CS> void run(const um::Enc& e, CS cs, const char* form, bool full) { auto* h = new H<C, CS>{cs, e, form}; h->run(full); delete h; }
static um::Enc sbenc(const char* name, const std::uint32_t* dec) {
    auto* inv = new std::vector<std::int16_t>(0x10000, -1);
    for (int b = 255; b >= 0; --b) if (dec[b] != UNDEF) (*inv)[dec[b]] = (std::int16_t)b;
    return um::Enc{um::SB, name, dec, inv->data()};
}
static void body() {
    init_cls();
    using namespace strf;
#if PART == 0
    run<char>(E8, utf8<char>, "char", true);
#elif PART == 1
    run<char>(sbenc("windows-1252", dec_windows_1252), windows_1252<char>, "char/1252", false);
    run<char8_t>(E8, utf8<char8_t>, "char8_t", false);
#elif PART == 2
    run<char16_t>(E16, utf16<char16_t>, "char16_t", true);
#else
    run<char32_t>(E32, utf32<char32_t>, "char32_t", false);
    run<wchar_t>(E32, utf<wchar_t>, "wchar_t", false);
#endif
}
MC_MAIN(body)
