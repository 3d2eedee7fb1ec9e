// C26: strings: precision, sanitization / conversion policy, charsets (static and dynamic), alignment, widths, error reports.
// Each PART holds some (source charset -> destination charset) pairs.
#include <string_view>
#include <algorithm>
#include "print.hpp"
#include "utfmodel.hpp"
#include "transcheck.hpp"
#include "widthmodel.hpp"
#include "wcalc.hpp"
#include "data/sbtables.hpp"
using strf::width_t;
static const um::Enc E8{um::U8, "UTF-8"}, E16{um::U16, "UTF-16"}, E32{um::U32, "UTF-32"};
typedef std::vector<std::vector<std::uint32_t>> Toks;
static const Toks T8 = {{'a'}, {0xC3, 0xA9}, {0xE4, 0xB8, 0x80}, {0xF0, 0x9F, 0x98, 0x80}, {0xCC, 0x81}, {0x80}, {0xC3}, {0xE4, 0xB8}, {0xF0, 0x9F, 0x98}, {0xED, 0xA0, 0x80}, {0xFF}, {0xE2, 0x82, 0xAC}};
static const Toks T16 = {{'a'}, {0xE9}, {0x4E00}, {0xD83D, 0xDE00}, {0x301}, {0xD83D}, {0xDE00}, {0x20AC}};
static const Toks T32 = {{'a'}, {0xE9}, {0x4E00}, {0x1F600}, {0x301}, {0xD800}, {0xDFFF}, {0x110000}, {0xFFFFFFFF}, {0x20AC}};
static const Toks TS = {{'a'}, {0x80}, {0x81}, {0xA5}, {0xE9}, {0xFF}};

// ---- reference
struct Cut { std::int64_t w; size_t pos; };
static std::vector<Cl> CLS;
// width (in 1/65536) and length of the part of the string that fits in lim (lim < 0: no limit)
template <class C> Cut measure_str(int mode, const um::Enc& e, const C* b, size_t n, bool limited, std::int64_t lim, bool& valid) {
    std::vector<size_t> at; u32s s; valid = true;
    for (size_t i = 0; i < n;) { um::Item it = um::decode1(e, [&](size_t k) { return (std::uint32_t)uval(b[k]); }, i, n, false); if (!it.ok) valid = false; at.push_back(i); s += it.ok ? (char32_t)it.cp : U'\uFFFD'; i += it.len; }
    at.push_back(n);
    if (limited && lim < 0) lim = 0;
    if (mode == 0) {
        clusters(s, CLS); std::int64_t sum = 0;
        for (auto& c : CLS) { sum += (std::int64_t)c.w << 16; if (limited && sum > lim) return {lim, at[c.pos]}; }
        return {sum, n};
    }
    size_t units = mode == 1 ? n : s.size();
    if (limited && (std::int64_t)units > lim >> 16) units = (size_t)(lim >> 16);
    return {(std::int64_t)units << 16, mode == 1 ? units : at[units]};
}
enum Pol { NONE, TR, SANI, UNSF, TR_CS, SANI_CS, UNSF_CS, NPOL };
static const char* pol_name[] = {"", "transcode()", "sani()", "unsafe_transcode()", "transcode(cs)", "sani(cs)", "unsafe_transcode(cs)"};
struct Cfg { int pol; bool has_p; std::int32_t p; bool has_a; strf::text_alignment al; std::int32_t w; char32_t fill; int wc; int sp; };

template <class SC, class DC, class SCS, class DCS, class FSC> struct Pair {
    const um::Enc& se; const um::Enc& fe; const um::Enc& de;     // explicit source charset; source charset facet; destination
    SCS scs; FSC fsc; DCS dcs; const char* form;
    Guarded<SC> g; Notifier nt;
    static constexpr bool same_type = std::is_same_v<SC, DC>;
    strf::transcoding_error_notifier_ptr np;
    const SC* str; size_t n;

    template <class K> void emit(const K& k, const Cfg& c) {
        std::basic_string_view<SC> sv(str, n);
        auto fin = [&](const auto& f) {
            auto go = [&](const auto& args) {
                if (c.wc < 0) { if constexpr (same_type) k(strf::pack(dcs, np), args); else k(strf::pack(dcs, fsc, np), args); }
                else if constexpr (same_type) k(strf::pack(dcs, WC{c.wc}, np), args);
                else k(strf::pack(dcs, fsc, WC{c.wc}, np), args);
            };
            strf::alignment_format af; af.fill = c.fill; af.width = width_t::from_underlying(c.w); af.alignment = c.al;
            width_t p = width_t::from_underlying(c.p);
            if (c.has_p && c.has_a) {
                if (c.sp == 0) go(f.p(p).set_alignment_format(af));
                else switch (c.al) {
                    case strf::text_alignment::left: go(f.fill(c.fill).p(p) < af.width); break;
                    case strf::text_alignment::center: go(f.p(p).fill(c.fill) ^ af.width); break;
                    default: go((f.p(p) > af.width).fill(c.fill)); break;
                }
            } else if (c.has_p) go(f.p(p));
            else if (c.has_a) {
                if (c.sp == 0) go(f.set_alignment_format(af));
                else switch (c.al) {
                    case strf::text_alignment::left: go(strf::left(f, af.width, c.fill)); break;
                    case strf::text_alignment::center: go(strf::center(f, af.width, c.fill)); break;
                    default: go(strf::right(f, af.width, c.fill)); break;
                }
            } else go(f);
        };
        switch (c.pol) {
        case NONE: if constexpr (same_type) { if (c.sp == 1 && !c.has_p && !c.has_a) { if (c.wc < 0) k(strf::pack(dcs, np), sv); else k(strf::pack(dcs, WC{c.wc}, np), sv); } else fin(strf::fmt(sv)); } break;
        case TR: if (c.sp) fin(strf::transcode(sv)); else fin(strf::fmt(sv).transcode()); break;
        case SANI: if (c.sp) fin(strf::sani(sv)); else fin(strf::fmt(sv).sanitize()); break;
        case UNSF: if (c.sp) fin(strf::unsafe_transcode(sv)); else fin(strf::fmt(sv).unsafe_transcode()); break;
        case TR_CS: if (c.sp) fin(strf::transcode(sv, scs)); else fin(strf::fmt(sv).transcode_from(scs)); break;
        case SANI_CS: if (c.sp) fin(strf::sani(sv, scs)); else fin(strf::fmt(sv).sanitize_from(scs)); break;
        case UNSF_CS: if (c.sp) fin(strf::unsafe_transcode(sv, scs)); else fin(strf::fmt(sv).unsafe_transcode(scs)); break;
        }
    }
    void one(const Cfg& c, int level) {
        const um::Enc& src = c.pol == NONE || c.pol < TR_CS ? (same_type ? de : fe) : se;
        const bool same_cs = &src == &de;
        const bool verbatim = c.pol == NONE || ((c.pol == TR || c.pol == TR_CS) && same_cs);
        const int mode = c.wc < 0 ? 0 : c.wc;
        bool valid, v2; size_t m = n; Cut cut = measure_str(mode, src, str, n, false, 0, valid);
        if ((c.pol == UNSF || c.pol == UNSF_CS || mode == 3) && !valid) return;                // documented precondition
        if (c.has_p) { cut = measure_str(mode, src, str, n, true, c.p, v2); m = cut.pos; measure_str(mode, src, str, m, false, 0, v2); if ((c.pol == UNSF || c.pol == UNSF_CS) && !v2) return; }
        std::basic_string<DC> exp, content, fill;
        std::vector<um::Event> ev;
        if (verbatim) for (size_t i = 0; i < m; ++i) content += (DC)str[i];
        else { std::vector<std::uint32_t> out; um::transcode(src, de, [&](size_t i) { return (std::uint32_t)uval(str[i]); }, m, 1u << 30, 0, out, ev); for (auto u : out) content += (DC)u; }
        std::int64_t w = cut.w, fc = 0;
        if (c.has_a && c.w > w) fc = (c.w - w + 0x7FFF) >> 16;
        um::Seq q = um::encode(de, um::can_encode(de, c.fill) ? c.fill : de.repl());
        for (unsigned i = 0; i < q.n; ++i) fill += (DC)q.u[i];
        std::int64_t lf = c.al == strf::text_alignment::left ? 0 : c.al == strf::text_alignment::center ? fc / 2 : fc;
        for (std::int64_t i = 0; i < lf; ++i) exp += fill;
        exp += content;
        for (std::int64_t i = lf; i < fc; ++i) exp += fill;
        auto key = [&] { return mc::sfmt("%s %s(%s)[facet %s]->%s %s%s%s wcalc=%d sp=%d str=%s", form, se.name, tname<SC>(), fe.name, de.name, pol_name[c.pol],
            c.has_p ? mc::sfmt(" p(%g)", c.p / 65536.0).c_str() : "", c.has_a ? mc::sfmt(" %c %g fill U+%X", "<>^"[c.al == strf::text_alignment::left ? 0 : c.al == strf::text_alignment::center ? 2 : 1], c.w / 65536.0, (unsigned)c.fill).c_str() : "", c.wc, c.sp, hex(str, n).c_str()); };
        auto e = [&](auto&& k) { emit(k, c); };
        pr::Opt o; o.w64 = w + (fc << 16); o.level = level;
        if (!pr::check<true>(exp, e, o, key)) return;
        // error reports
        nt.ev.clear(); nt.bad = false; nt.base = str; nt.unit = sizeof(SC); nt.name = src.name; nt.dname = de.name;
        ChunkDst<DC> d(3000, 64); 
        emit([&](const auto& fp, const auto& a) { strf::to(d).with(fp)(a); }, c); mc::step();
        if (c.pol == UNSF || c.pol == UNSF_CS) ev.clear(), nt.ev.clear();      // whether it reports unsupported characters is not specified
        auto by_kind = [](std::vector<um::Event>& v) { std::stable_partition(v.begin(), v.end(), [](const um::Event& x) { return x.inv; }); };   // each kind in order; how they interleave depends on internal buffering
        by_kind(ev); by_kind(nt.ev);
        bool same = nt.ev == ev;
        if (!same && src.kind != um::U32 && de.kind != um::U32 && (src.kind == um::SB || de.kind == um::SB)) {   // through a pivot buffer: may repeat a report where the buffer ends (see C06)
            size_t i = 0; same = true;
            for (auto& x : nt.ev) if (i < ev.size() && x == ev[i]) ++i; else if (!(i > 0 && x == ev[i - 1])) same = false;
            if (i != ev.size()) same = false;
        }
        if (nt.bad || !same) mc::fail("reports " + key(), key() + mc::sfmt(": error reports differ: got %zu, expected %zu%s", nt.ev.size(), ev.size(), nt.bad ? " (wrong charset name or unit size)" : ""));
    }
    void word(const std::vector<SC>& w, int depth) {
        if (mc::thorough() && depth < 2) ++depth;
        n = w.size(); SC* p = g.end_range(n); std::copy(w.begin(), w.end(), p); str = p;
        static const std::int32_t P[] = {-0x10000, 0, 0x8000, 0x10000, 0x18000, 0x20000, 0x30000, 100 << 16};
        static const std::int32_t W[] = {0, 0x10000, 0x28000, 0x38001, 7 << 16, 70 << 16};
        static const char32_t F[] = {U' ', U'\u00E9', U'\u4E00', U'\U0001F600'};
        static const strf::text_alignment AL[] = {strf::text_alignment::left, strf::text_alignment::right, strf::text_alignment::center};
        for (int pol = same_type ? 0 : 1; pol < NPOL; ++pol) for (int ip = -1; ip < 8; ++ip) for (int wc = -1; wc < 4; ++wc) {
            if (depth == 0 && (ip == 0 || ip == 4 || ip == 7)) continue;
            Cfg c{pol, ip >= 0, ip >= 0 ? P[ip] : 0, false, strf::text_alignment::left, 0, U' ', wc, 0};
            if (wc < 0 && depth < 2) continue;
            int lvl = depth == 2 && (ip < 0 || ip == 3) ? 2 : depth >= 1 ? 1 : 0;
            one(c, lvl); c.sp = 1; one(c, 0);
            c.has_a = true;
            for (int a = 0; a < 3; ++a) for (int iw = 0; iw < 6; ++iw) for (int f = 0; f < 4; ++f) {
                if (depth < 2 && (iw + f + a + ip + 1) % (depth ? 4 : 8)) continue;
                if (depth < 2 && (iw == 0 || iw == 1)) continue;
                c.al = AL[a]; c.w = W[iw]; c.fill = F[f]; c.sp = (a + iw + f) & 1;
                one(c, iw == 4 && a == 2 ? lvl : 0);
            }
        }
    }
    void run(const Toks& t) {
        np = strf::transcoding_error_notifier_ptr{&nt};
        auto build = [&](const std::vector<size_t>& ix) { std::vector<SC> w; for (auto i : ix) for (auto u : t[i]) w.push_back((SC)u); return w; };
        if (mc::take()) word({}, 2);
        for (size_t a = 0; a < t.size(); ++a) if (mc::take()) word(build({a}), 2);
        for (size_t a = 0; a < t.size(); ++a) for (size_t b = 0; b < t.size(); ++b) if (mc::take()) word(build({a, b}), 1);
        for (size_t a = 0; a < t.size(); ++a) for (size_t b = 0; b < t.size(); ++b) for (size_t c = 0; c < t.size(); ++c) if (mc::take()) word(build({a, b, c}), 0);
        // longer than any internal buffer, one special token at each place
        for (size_t len : {15u, 16u, 17u, 31u, 33u, 63u, 64u, 65u, 130u}) for (size_t tk = 1; tk < t.size(); ++tk)
            for (size_t at = 0; at < len; at += len > 20 && at > 2 && at + 4 < len ? 3 : 1) {
                if (!mc::take()) continue;
                std::vector<size_t> ix(len, 0); ix[at] = tk;
                auto w = build(ix);
                n = w.size(); SC* p = g.end_range(n); std::copy(w.begin(), w.end(), p); str = p;
                for (int pol = same_type ? 0 : 1; pol < NPOL; ++pol) for (std::int32_t pr : {-1, (int)at, (int)at + 1, 64}) for (int wc = 0; wc < 4; ++wc) {
                    Cfg c{pol, pr >= 0, pr << 16, false, strf::text_alignment::left, 0, U' ', wc, 0};
                    one(c, at % 5 == 0 && wc == 0 ? 2 : 1);
                    c.has_a = true; c.al = strf::text_alignment::center; c.w = (std::int32_t)(len + 70) << 16; c.fill = U'\u00E9'; one(c, 1);
                    c.w = (std::int32_t)(len - 1) << 16; one(c, 0);
                }
            }
    }
};
template <class SC, class DC, class SCS, class DCS, class FSC>
void pair(const um::Enc& se, const um::Enc& fe, const um::Enc& de, SCS scs, FSC fsc, DCS dcs, const Toks& t, const char* form = "static") {
    auto* p = new Pair<SC, DC, SCS, DCS, FSC>{se, fe, de, scs, fsc, dcs, form};
    p->run(t);
    delete p;
}
static um::Enc sbenc(const char* name, const std::uint32_t* dec) {
    auto* inv = new std::vector<std::int16_t>(0x10000, -1);
    for (int b = 255; b >= 0; --b) if (dec[b] != UNDEF) (*inv)[dec[b]] = (std::int16_t)b;
    return um::Enc{um::SB, name, dec, inv->data()};
}
static void body() {
    init_cls();
    using namespace strf;
    static const um::Enc W1252 = sbenc("windows-1252", dec_windows_1252), I1 = sbenc("ISO-8859-1", dec_iso_8859_1), I3 = sbenc("ISO-8859-3", dec_iso_8859_3);
    auto u8 = utf8<char>; auto u8b = utf8<char8_t>; auto u16 = utf16<char16_t>; auto u32 = utf32<char32_t>; auto uw = utf<wchar_t>;
    auto w = windows_1252<char>; auto i1 = iso_8859_1<char>; auto i3 = iso_8859_3<char>; auto i1b = iso_8859_1<char8_t>;
#if PART == 0
    pair<char, char>(E8, E8, E8, u8, u8, u8, T8);
    pair<char, char>(W1252, E8, E8, w, u8, u8, TS);
#elif PART == 1
    pair<char, char>(E8, W1252, W1252, u8, w, w, T8);
    pair<char, char>(I3, I1, I1, i3, i1, i1, TS);
#elif PART == 2
    pair<char, char16_t>(E8, E8, E16, u8, u8, u16, T8);
    pair<char16_t, char>(E16, E16, E8, u16, u16, u8, T16);
#elif PART == 3
    pair<char16_t, char16_t>(E16, E16, E16, u16, u16, u16, T16);
    pair<char32_t, char>(E32, E32, E8, u32, u32, u8, T32);
#elif PART == 4
    pair<char32_t, char32_t>(E32, E32, E32, u32, u32, u32, T32);
    pair<char32_t, char16_t>(E32, E32, E16, u32, u32, u16, T32);
#elif PART == 5
    pair<wchar_t, char16_t>(E32, E32, E16, uw, uw, u16, T32);
    pair<char32_t, wchar_t>(E32, E32, E32, u32, u32, uw, T32);
    pair<wchar_t, wchar_t>(E32, E32, E32, uw, uw, uw, T32);
#elif PART == 6
    pair<char8_t, char>(E8, I1, E8, u8b, i1b, u8, T8);      // the facet names another source charset
    pair<char, char8_t>(E8, W1252, E8, u8, w, u8b, T8);
#elif PART == 7
    pair<char16_t, char>(E16, E16, W1252, u16, u16, w, T16);
    pair<char, char32_t>(I3, E8, E32, i3, u8, u32, TS);
#elif PART == 8   // dynamic charsets
    pair<char, char>(E8, E8, E8, u8.to_dynamic(), u8, u8, T8, "dynamic->static");
    pair<char, char>(W1252, E8, E8, w.to_dynamic(), u8.to_dynamic(), u8.to_dynamic(), TS, "dynamic->dynamic");
#elif PART == 9
    pair<char, char16_t>(E8, W1252, E16, u8.to_dynamic(), w, u16.to_dynamic(), T8, "dynamic->dynamic");
    pair<char16_t, char16_t>(E16, E16, E16, u16.to_dynamic(), u16, u16, T16, "dynamic->static");
#elif PART == 10
    pair<char8_t, char>(E8, I1, E8, u8b.to_dynamic(), i1b.to_dynamic(), u8, T8, "dynamic->static");
    pair<char32_t, wchar_t>(E32, E32, E32, u32.to_dynamic(), u32, uw, T32, "dynamic->static");
#endif
}
MC_MAIN(body)
