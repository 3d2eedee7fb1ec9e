// C20: tr-strings. PART selects the character type and charset.
#include <string_view>
#include <string>
#include "print.hpp"
#include "utfmodel.hpp"
#include "transcheck.hpp"
#include "syntax.hpp"
#include "data/sbtables.hpp"
static const um::Enc E8{um::U8, "UTF-8"}, E16{um::U16, "UTF-16"}, E32{um::U32, "UTF-32"};

struct TrErr { const void* str; long len, pos; bool operator==(const TrErr&) const = default; };
static std::vector<TrErr>* trlog;
static int tr_copies;
template <class CS> struct TrNote {
    using category = strf::tr_error_notifier_c;
    void handle(const typename CS::code_unit* s, std::ptrdiff_t n, CS, std::ptrdiff_t pos) const { trlog->push_back({s, (long)n, (long)pos}); }
};

template <class C> struct Seg { bool text; std::basic_string<C> s; int arg; long pos; };
// the documented syntax
template <class C> std::vector<Seg<C>> parse(const std::basic_string<C>& s, int nargs) {
    std::vector<Seg<C>> r; int next = 0; size_t i = 0;
    auto lit = [&](C c) { if (r.empty() || !r.back().text) r.push_back({true, {}, 0, 0}); r.back().s += c; };
    auto brk = [&] { r.push_back({true, {}, 0, 0}); };
    while (i < s.size()) {
        if (s[i] != (C)'{') { lit(s[i++]); continue; }
        size_t open = i++;
        if (i < s.size() && s[i] == (C)'{') { brk(); lit(s[i++]); continue; }       // escaped
        bool comment = false; long arg = -1;
        if (i < s.size() && s[i] == (C)'-') comment = true;
        else if (i < s.size() && s[i] >= (C)'0' && s[i] <= (C)'9') { arg = 0; for (size_t k = i; k < s.size() && s[k] >= (C)'0' && s[k] <= (C)'9'; ++k) { arg = arg * 10 + (s[k] - (C)'0'); if (arg > 1000000) arg = 1000000; } }
        else arg = next++;
        while (i < s.size() && s[i] != (C)'}') ++i;
        if (i < s.size()) ++i;
        if (comment) brk(); else r.push_back({false, {}, arg < nargs ? (int)arg : -1, (long)open});
    }
    return r;
}
template <class C, class CS> struct H {
    using S = std::basic_string<C>;
    CS cs; const um::Enc& e; const char* form;
    std::vector<C> sp;      // special units used in words
    S one(char32_t c) { um::Seq q = um::encode(e, um::can_encode(e, c) ? c : e.repl()); S s; for (unsigned i = 0; i < q.n; ++i) s += (C)q.u[i]; return s; }
    struct Arg { S text; int w; };
    S bb = pr::asc<C>("bb"), empty, nest = pr::asc<C>("<{}{1}>");
    std::vector<Arg> args_of(int k) {
        switch (k) {
        case 0: return {};
        case 1: return {{bb, 2}};
        case 2: return {{pr::asc<C>((std::string(69, '*') + "7").c_str()), 70}, {one(U'\u4E00'), 2}};
        case 3: return {{S(), 0}, {pr::asc<C>("12345"), 5}, {pr::asc<C>("<truec>"), 7}};
        default: { std::vector<Arg> v; for (int i = 0; i < 12; ++i) v.push_back({pr::asc<C>(std::to_string(100 + i).c_str()), 3}); return v; }
        }
    }
    template <class F> void with(int k, F&& f) {
        switch (k) {
        case 0: f(); break;
        case 1: f(bb); break;
        case 2: f(strf::right(7, 70, U'*'), U'\u4E00'); break;
        case 3: f(empty, 12345, strf::tr(nest, true, (C)'c')); break;
        default: f(100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111);
        }
    }
    long swidth(const S& s) {       // plain text: ASCII, one wide character, ill-formed units
        long w = 0; size_t i = 0;
        auto at = [&](size_t k) { return (std::uint32_t)std::make_unsigned_t<C>(s[k]); };
        while (i < s.size()) { um::Item it = um::decode1(e, at, i, s.size(), false); w += it.ok && it.cp == 0x4E00 ? 2 : 1; i += it.len; }
        return w;
    }
    static inline unsigned long cnt = 0;
    void word(const S& s, int k, int level) {
        if (!mc::take()) return;
        auto args = args_of(k); auto segs = parse<C>(s, (int)args.size());
        S exp; long w = 0; std::vector<TrErr> errs;
        for (auto& g : segs) {
            if (g.text) { exp += g.s; w += swidth(g.s); }
            else if (g.arg >= 0) { exp += args[g.arg].text; w += args[g.arg].w; }
            else { exp += one(U'\uFFFD'); w += 1; errs.push_back({s.data(), (long)s.size(), g.pos}); }
        }
        auto key = [&] { return mc::sfmt("%s tr(%s) arguments:%d", form, mc::show(s).c_str(), (int)args.size()); };
        std::vector<TrErr> log; trlog = &log;
        std::basic_string_view<C> sv = s; TrNote<CS> note;
        bool cstr = s.find((C)0) == S::npos;
        auto errcheck = [&](const char* what, size_t times = 1) {
            bool ok = log.size() == errs.size() * times; for (size_t i = 0; ok && i < log.size(); ++i) ok = log[i] == errs[i % errs.size()];
            if (!ok) { std::string m; for (auto& x : log) m += mc::sfmt(" %ld", x.pos); m += " expected"; for (auto& x : errs) m += mc::sfmt(" %ld", x.pos);
                mc::fail(key() + what + " errors", key() + " " + what + ": notified error positions" + m); }
            log.clear();
        };
        auto fp = strf::pack(cs, note);
        const C nl = (C)'\n';
        with(k, [&](const auto&... a) {
            pr::Opt o; o.level = level; o.width = w;
            bool good = pr::check<false>(exp, [&](auto&& kk) { kk(fp, strf::tr(s, a...)); }, o, key);
            log.clear();
            {   // errors are notified, in order, when printed, and only then
                ChunkDst<C> d(512, 64);
                strf::to((strf::destination<C>&)d).with(fp)(strf::tr(s, a...)); errcheck("tr()");
                strf::premeasurements<strf::size_presence::yes, strf::width_presence::yes> pre;
                strf::measure<C>(&pre, fp, strf::tr(s, a...));
                if (!log.empty()) mc::fail(key() + " measure errors", key() + ": an error is notified while measuring");
                log.clear(); mc::step(2);
            }
            // the member functions, under every reserve policy
            auto syn = [&](const char* what, const S& got, const S& x, const SynLog& l, bool calc) {
                mc::step();
                if (got != x) mc::fail(key() + what, key() + " " + what + ": expected " + mc::show(x) + " got " + mc::show(got));
                if (calc && (l.asked < x.size() || l.recycles)) mc::fail(key() + what + " size", key() + " " + what + mc::sfmt(": asked for %zu, printed %zu, recycled %ld times", l.asked, x.size(), l.recycles));
                errcheck(what);
            };
            auto T = [&](std::size_t first) { return first; };
            SynLog l; Creator<C> cr{T(0), 64, &l};
            strf::printing_syntax<Creator<C>> ps{cr};
            unsigned sel = level >= 1 ? 7u : 1u << (cnt++ % 3);
            if (sel & 1) { l = {}; syn(".tr", ps.with(fp).tr(s, a...), exp, l, false);
                l = {}; syn(".reserve_calc.tr", ps.with(fp).reserve_calc().tr(sv, a...), exp, l, true); }
            if (sel & 2) { l = {}; syn(".trline", ps.with(fp).trline(s, a...), exp + nl, l, false);
                l = {}; syn(".reserve_calc.trline", ps.with(fp).reserve_calc().trline(s, a...), exp + nl, l, true); }
            if (sel & 4) { l = {}; syn(".reserve(5).tr", ps.reserve(5).with(fp).tr(sv, a...), exp, l, false);
                l = {}; syn(".reserve_calc.tr(facets)", ps.reserve_calc().tr(cs, note, s, a...), exp, l, true);
                if (cstr) { l = {}; trlog = &log; auto r = ps.with(fp).reserve_calc().tr(s.c_str(), a...); syn(".reserve_calc.tr(pointer)", r, exp, l, true); } }
            if (level >= 1 && good) {        // inside other printables, where only the width or both are measured
                S pad(w < 90 ? 90 - w : 0, (C)'.');
                auto t = strf::tr(s, a...);
                pr::Opt o2; o2.level = level - 1; o2.width = w < 90 ? 90 : w;
                pr::check<false>(pad + exp, [&](auto&& kk) { kk(fp, strf::join_right(90, U'.')(t)); }, o2, [&] { return key() + " in join_right(90)"; });
                log.clear();
                o2.width = w * 2 + 2 + 1;
                S brk = pr::asc<C>("[]");
                pr::check<false>(brk + exp + pr::asc<C>("x") + exp, [&](auto&& kk) { kk(fp, strf::tr(pr::asc<C>("{-c}[]{1}{0}{1}"), (C)'x', t)); }, o2, [&] { return key() + " in tr"; });
                log.clear();
                o2.width = w + 1;
                pr::check<false>(exp + nl, [&](auto&& kk) { kk(fp, strf::tr(pr::asc<C>("{}"), strf::join(t)), nl); }, o2, [&] { return key() + " in join in tr"; });
            }
        });
        mc::alive();
    }
    void run(bool full) {
        S wide = one(U'\u4E00');
        std::vector<S> tok = {pr::asc<C>("{"), pr::asc<C>("}"), pr::asc<C>("-"), pr::asc<C>("0"), pr::asc<C>("1"), pr::asc<C>("2"), pr::asc<C>("9"), pr::asc<C>("a"), um::can_encode(e, U'\u4E00') ? wide : one(U'\u00E9')};
        int maxlen = (full ? 7 : 6) + (mc::thorough() ? 1 : 0);
        for (int len = 0; len <= maxlen; ++len) {
            std::vector<int> ix(len, 0);
            for (;;) {
                S s; bool brace = false; for (int i : ix) { s += tok[i]; brace |= i == 0; }
                if (brace || len <= 2) for (int k = 0; k < 5; ++k) {
                    if (len == maxlen && len > 4 && k != 3 && (k == 1 || k == 4)) continue;
                    word(s, k, len <= 3 ? 2 : len == 4 ? 1 : 0);
                }
                int p = len - 1; while (p >= 0 && ++ix[p] == (int)tok.size()) ix[p--] = 0;
                if (p < 0) break;
            }
        }
        // positions: every number written with up to 3 digits, and very long ones
        for (int n = 0; n < 1000; ++n) for (int z = 0; z < 3; ++z) for (int k : {0, 3, 4}) for (const char* tail : {"}", "", " x}y", "}{}", "-}{{"}) {
            if (n > 40 && z && n % 37) continue;
            word(pr::asc<C>(("{" + std::string(z * 7, '0') + std::to_string(n) + tail).c_str()), k, 0);
        }
        for (const char* d : {"2147483648", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "184467440737095516160", "99999999999999999999999999999999", "00000000000000000000000000000000000002", "340282366920938463463374607431768211456"})
            for (int k = 0; k < 5; ++k) word(pr::asc<C>(("{" + std::string(d) + "}.").c_str()), k, 1);
        // characters next to those of the syntax, ill-formed units, NUL, inside and outside of braces
        std::vector<std::uint32_t> us = {0, 1, '/', ':', '|', '~', 'z', 0x2F, 0x3A, 0x7F};
        if (sizeof(C) == 1) for (std::uint32_t u : {0x80, 0xBF, 0xC3, 0xFB, 0xFD, 0xFF, 0xB0, 0xAD}) us.push_back(u);
        else for (std::uint32_t u : {0x17B, 0x7B00, 0xFF7B, 0x130, 0xFF10, 0xFF5B, 0xFF5D, 0x2D00, 0xD87B, 0xDC7B, 0xFFFF}) us.push_back(u);
        if (sizeof(C) == 4) for (std::uint32_t u : {0x1007Bu, 0x10030u, 0x10007Du, 0x1000007Bu, 0x8000007Du}) us.push_back(u);
        for (auto u : us) for (const char* t : {"@", "{@}", "{0@}", "{@0}{}", "{1@}", "{{@", "{-@}@", "@{", "{@", "x@{}@y", "{}@{@}@", "{9@9}"}) for (int k = 0; k < 5; ++k) {
            S s; for (const char* p = t; *p; ++p) s += *p == '@' ? (C)u : (C)*p;
            // widths of unusual characters are not modelled here: level without width
            word2(s, k);
        }
        // long texts between references
        std::vector<int> lens = {0, 1, 2, 31, 62, 63, 64, 65, 66, 127, 128, 129, 200};
        for (int a : lens) for (int b : lens) for (const char* ref : {"{}", "{1}", "{{", "{-comment}", "{x y z}", "{7}", "{"}) for (int k : {0, 2, 3}) {
            if (!full && (a + b) % 3) continue;
            word(S((size_t)a, (C)'x') + pr::asc<C>(ref) + S((size_t)b, (C)'y'), k, (a == 64 || b == 65) ? 2 : 1);
        }
        for (int n : lens) for (const char* ref : {"{}", "{1}", "{{", "{-c}", "{0", "{", "{1x}y"}) for (int k = 0; k < 5; ++k) { S s; for (int i = 0; i < n; ++i) s += pr::asc<C>(ref); word(s, k, k == 2 && n > 60 ? 0 : 1); }
        for (int n : lens) for (int k = 0; k < 5; ++k) { word(pr::asc<C>("a{-") + S((size_t)n, (C)'c') + pr::asc<C>("}b{") + S((size_t)n, (C)'d') + pr::asc<C>("}{1") + S((size_t)n, (C)'5') + pr::asc<C>("}"), k, 1); }
    }
    void word2(const S& s, int k) {     // as word(), without the width
        if (!mc::take()) return;
        auto args = args_of(k); auto segs = parse<C>(s, (int)args.size());
        S exp; std::vector<TrErr> errs, log; trlog = &log;
        for (auto& g : segs) if (g.text) exp += g.s; else if (g.arg >= 0) exp += args[g.arg].text; else { exp += one(U'\uFFFD'); errs.push_back({s.data(), (long)s.size(), g.pos}); }
        auto key = [&] { return mc::sfmt("%s tr(%s) arguments:%d", form, mc::show(s).c_str(), (int)args.size()); };
        TrNote<CS> note; auto fp = strf::pack(cs, note);
        with(k, [&](const auto&... a) {
            pr::Opt o; o.level = 2; pr::check<false>(exp, [&](auto&& kk) { kk(fp, strf::tr(s, a...)); }, o, key); log.clear();
            SynLog l; Creator<C> cr{3, 64, &l}; strf::printing_syntax<Creator<C>> ps{cr};
            S g = ps.with(fp).tr(s, a...); if (g != exp || log != errs) mc::fail(key() + ".tr", key() + " .tr: expected " + mc::show(exp) + " got " + mc::show(g) + mc::sfmt(", %zu errors notified of %zu", log.size(), errs.size()));
            log.clear(); l = {};
            g = ps.with(fp).reserve_calc().trline(s, a...); if (g != exp + S(1, (C)'\n') || log != errs || l.recycles || l.asked < g.size()) mc::fail(key() + ".reserve_calc.trline", key() + " .reserve_calc.trline: got " + mc::show(g) + mc::sfmt(", %zu errors notified of %zu, asked for %zu", log.size(), errs.size(), l.asked));
            mc::step(2);
        });
    }
};
template <class C, class CS> void run(const um::Enc& e, CS cs, const char* form, bool full) { auto* h = new H<C, CS>{cs, e, form}; h->run(full); delete h; }
static um::Enc sbenc(const char* name, const std::uint32_t* dec) {
    auto* inv = new std::vector<std::int16_t>(0x10000, -1);
    for (int b = 255; b >= 0; --b) if (dec[b] != UNDEF) (*inv)[dec[b]] = (std::int16_t)b;
    return um::Enc{um::SB, name, dec, inv->data()};
}
static void body() {
    using namespace strf;
#if PART == 0
    run<char>(E8, utf8<char>, "char", true);
#elif PART == 1
    run<char>(sbenc("windows-1252", dec_windows_1252), windows_1252<char>, "char/1252", false);
    run<char8_t>(E8, utf8<char8_t>, "char8_t", false);
#elif PART == 2
    run<char16_t>(E16, utf16<char16_t>, "char16_t", false);
#else
    run<char32_t>(E32, utf32<char32_t>, "char32_t", false);
    run<wchar_t>(E32, utf<wchar_t>, "wchar_t", false);
#endif
}
MC_MAIN(body)
