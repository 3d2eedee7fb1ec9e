// C13: printed integers.  Every value of a boundary set (all values of the 8- and 16-bit types)
// x every combination of format options, against im::print.
#include <algorithm>
#include "print.hpp"
#include "intmodel.hpp"
#include <limits>
using std::size_t; using im::Spec;

static std::string specname(const Spec& s) {
    static const char* A[] = {"none", "left", "right", "center"};
    return mc::sfmt("base=%d showbase=%d sign=%d precision=%d pad0=%d punct=%d align=%s width=%d fill=U+%lX", s.base, s.showbase, s.sign, s.prec, s.pad0, s.punct, A[s.align + 1], s.width, (unsigned long)s.fill);
}
template <int B, class T> auto based(T v) { if constexpr (B == 2) return strf::bin(v); else if constexpr (B == 8) return strf::oct(v); else if constexpr (B == 16) return strf::hex(v); else return strf::fmt(v); }
static strf::alignment_format af(const Spec& s) {
    strf::alignment_format a; a.fill = s.fill; a.width = (std::int16_t)s.width;
    a.alignment = s.align == 0 ? strf::text_alignment::left : s.align == 1 ? strf::text_alignment::right : strf::text_alignment::center; return a;
}
// ---- the ways the same format can be spelled
enum Form { Plain, NoPad, Static, Dynamic, NForms };
template <class C, class T, int B, bool Aligned, class F, class K> void aligned(F f, const Spec& s, K&& k) {
    if constexpr (Aligned) k(f.set_alignment_format(af(s))); else k(f);
}
static bool deep = false;
template <class C, class T> struct Ints {
    template <int B, int FormV, bool Al, class FP> static void one(T v, Spec s, const FP& fp, const Spec& m) {
        using U = std::make_unsigned_t<T>;
        bool neg = std::is_signed<T>::value && v < 0;
        auto exp32 = im::print(std::is_signed<T>::value, neg, neg ? (std::uint64_t)0 - (std::uint64_t)(std::int64_t)v : (std::uint64_t)v, (std::uint64_t)(U)v, m);
        auto exp = pr::enc<C>(exp32);
        pr::Opt o; o.width = (long)exp32.size(); if (deep && (exp32.size() <= 24 || (exp32.size() > 60 && exp32.size() < 74))) o.level = 2;
        auto key = [&] { return mc::sfmt("%s%zu %s form=%d ", std::is_signed<T>::value ? "int" : "uint", sizeof(T) * 8, std::to_string(v).c_str(), FormV) + specname(s); };
        auto ck = [&](const auto& f) { pr::check(exp, [&](auto&& k) { k(fp, f); }, o, key); };
        auto al = [&](const auto& f) { if constexpr (Al) ck(f.set_alignment_format(af(s))); else ck(f); };
        if constexpr (FormV == Plain) { if constexpr (Al) al(strf::fmt(v)); else ck(v); }
        else if constexpr (FormV == NoPad) {
            if constexpr (B == 10) { if (s.sign == 0) al(strf::fmt(v).dec()); else if (s.sign == 1) al(+strf::dec(v)); else al(~strf::dec(v)); }
            else { auto f = based<B>(v); if (s.showbase) al(*based<B>(v)); else al(f); }
        } else if constexpr (FormV == Static) {
            auto f = based<B>(v).p(s.prec).pad0((int)s.pad0);
            if constexpr (B == 10) { if (s.sign == 1) f = +std::move(f); else if (s.sign == 2) f = std::move(f).fill_sign(); }
            else if (s.showbase) f = *std::move(f);
            if (s.punct) al(!f); else al(f);
        } else {
            strf::int_format i; i.base = s.base; i.precision = s.prec; i.pad0width = s.pad0; i.showbase = s.showbase; i.punctuate = s.punct;
            i.sign = s.sign == 0 ? strf::showsign::negative_only : s.sign == 1 ? strf::showsign::positive_also : strf::showsign::fill_instead_of_positive;
            al(strf::fmt(v).set_int_format(i));
        }
    }
    // the same value in every form that can express the spec
    template <int B, bool Al> static void forms(T v, Spec s, int lc) {
        s.base = B;
        Spec m = s; m.upper_digits = lc == 2; m.upper_base = lc == 2;
        auto L = lc == 0 ? strf::lowercase : lc == 1 ? strf::mixedcase : strf::uppercase;
        if (lc == 1) m.upper_digits = true;
        m.groups = {3}; m.sep = U',';
        auto fp = strf::pack(strf::numpunct<B>(3), L);
        if (B == 10 && !s.showbase && s.sign == 0 && s.prec == 0 && s.pad0 == 0 && !s.punct) one<B, Plain, Al>(v, s, fp, m);
        if (s.prec == 0 && s.pad0 == 0 && !s.punct) one<B, NoPad, Al>(v, s, fp, m);
        one<B, Static, Al>(v, s, fp, m);
        one<B, Dynamic, Al>(v, s, fp, m);
    }
    static void bases(T v, Spec s, int lc) {
        auto go = [&](auto A) { constexpr bool al = decltype(A)::value;
            if (s.base == 10) forms<10, al>(v, s, lc); else if (s.base == 16) forms<16, al>(v, s, lc);
            else if (s.base == 8) forms<8, al>(v, s, lc); else forms<2, al>(v, s, lc); };
        if (s.align < 0) go(std::false_type()); else go(std::true_type());
    }
    static std::vector<T> values(bool all) {
        using L = std::numeric_limits<T>; std::vector<T> r; using U = std::make_unsigned_t<T>;
        auto add = [&](U u) { for (int d = -1; d <= 1; ++d) { r.push_back((T)(U)(u + (U)d)); r.push_back((T)(U)((U)0 - u + (U)d)); } };
        U p = 1; for (;;) { for (int d = 1; d < 10 && p <= std::numeric_limits<U>::max() / 10; ++d) add((U)(p * (U)d)); if (all) for (int q = 1; q < 100 && p <= std::numeric_limits<U>::max() / 100; ++q) { r.push_back((T)(p * (U)q)); r.push_back((T)(U)(std::numeric_limits<U>::max() / 2 - p * (U)q)); } add(p); if (p > std::numeric_limits<U>::max() / 10) break; p = (U)(p * 10); }
        for (size_t b = 0; b < sizeof(T) * 8; b += all ? 1 : 3) add((U)((U)1 << b));
        r.push_back(L::max()); r.push_back(L::min()); r.push_back(0); r.push_back((T)0x5A6B7C8D9EAFB1C2ull); r.push_back((T)1234567890123456789ull);
        r.push_back((T)12); r.push_back((T)123); r.push_back((T)1234); r.push_back((T)98765);
        std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }
    // a: every value, few formats
    static void sweep_values(bool exhaustive) {
        deep = false;
        std::vector<Spec> specs;
        for (int b : {10, 16, 8, 2}) { Spec s; s.base = b; specs.push_back(s); s.showbase = b != 10; s.sign = b == 10; specs.push_back(s);
            s.punct = true; specs.push_back(s); s.punct = false; s.align = 1; s.width = 9; s.fill = U'*'; specs.push_back(s); s.pad0 = 7; specs.push_back(s); }
        auto go = [&](T v) { if (!mc::take()) return; for (auto& s : specs) bases(v, s, 0); };
        if (exhaustive) { long lo = (long)std::numeric_limits<T>::min(), hi = (long)std::numeric_limits<T>::max(); for (long v = lo; v <= hi; ++v) go((T)v); }
        else for (T v : values(true)) go(v);
    }
    // b: every option combination, few values
    static void sweep_options(bool big) {
        deep = true;
        std::vector<T> vs = {(T)0, (T)1, (T)8, (T)77, (T)-1, (T)-42, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), (T)123456789, (T)1000};
        std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
        std::vector<int> precs = {0, 1, 2, 3, 9, 21, 65, 140}, pads = {0, 1, 2, 3, 5, 12, 30, 66, 150}, widths = {0, 1, 2, 3, 4, 11, 31, 67, 160};
        if (!big) { precs = {0, 2, 70}; pads = {0, 1, 5, 70}; widths = {0, 3, 12, 80}; }
        if (mc::thorough()) { for (int x : {4, 5, 10, 16, 20, 64}) { precs.push_back(x); pads.push_back(x); widths.push_back(x); } }
        std::vector<char32_t> fills = {U' ', U'*', U'\u00E9', U'\u20AC', U'\U0001F600'};
        for (int base : {10, 16, 8, 2}) for (int opt = 0; opt < (base == 10 ? 3 : 2); ++opt) for (int punct = 0; punct < 2; ++punct) for (int pr : precs) for (int pd : pads) {
            for (int al = -1; al < 3; ++al) for (int w : widths) { if (al < 0 && w != 0) continue; for (char32_t f : fills) {
                if (al < 0 && f != U' ') continue;
                if (w == 0 && f != U' ' && opt != 2) continue;
                if (w > 100 && f != U' ' && f != U'\u20AC') continue;
                if (!mc::take()) continue;
                for (T v : vs) { Spec s; s.base = base; s.showbase = base != 10 && opt == 1; s.sign = base == 10 ? opt : 0; s.punct = punct; s.prec = pr; s.pad0 = pd; s.align = al; s.width = w; s.fill = f;
                    bases(v, s, base == 16 || base == 2 ? (pr + pd + w) % 3 : 0); }
            } }
        }
    }
};
// every 32-bit value
template <class C> static void all32() {
    C buf[40]; C* end = buf + 40;
    for (unsigned hi = 0; hi < 0x10000; ++hi) {
        if (!mc::take()) continue;
        for (unsigned lo = 0; lo < 0x10000; ++lo) {
            unsigned u = hi << 16 | lo; int v = (int)u;
            for (int form = 0; form < 4; ++form) {
                C ex[40]; int n = 0; unsigned m = form == 0 ? (v < 0 ? 0u - u : u) : u, b = form < 2 ? 10 : form == 2 ? 16 : 8; C t[20]; int k = 0;
                do t[k++] = (C)"0123456789abcdef"[m % b]; while (m /= b);
                if (form == 0 && v < 0) ex[n++] = (C)'-'; while (k) ex[n++] = t[--k];
                auto f = form == 0 ? strf::to_range(buf, end)(v) : form == 1 ? strf::to_range(buf, end)(u) : form == 2 ? strf::to_range(buf, end)(strf::hex(v)) : strf::to_range(buf, end)(strf::oct(u));
                mc::step();
                if (f.ptr - buf != n || f.truncated || std::char_traits<C>::compare(buf, ex, (size_t)n) != 0) mc::fail(mc::sfmt("all32 form=%d %08x", form, u), mc::sfmt("form %d (dec int, dec unsigned, hex int, oct unsigned) of %08x gives ", form, u) + mc::show(std::basic_string<C>(buf, f.ptr)) + " expected " + mc::show(std::basic_string<C>(ex, (size_t)n)));
            }
        }
        mc::state(hi); mc::alive();
    }
}
static void body() {
    if (mc::thorough() && PART == 2) all32<char>();
    if (mc::thorough() && PART == 3) all32<char16_t>();
#if PART == 0
    Ints<char, long long>::sweep_values(false); Ints<char, long long>::sweep_options(true);
#elif PART == 1
    Ints<char, unsigned long long>::sweep_values(false); Ints<char, unsigned long long>::sweep_options(mc::thorough());
    Ints<char, int>::sweep_values(false); Ints<char, int>::sweep_options(mc::thorough());
#elif PART == 2
    Ints<char, signed char>::sweep_values(true); Ints<char, unsigned char>::sweep_values(true);
    Ints<char, short>::sweep_values(true); Ints<char, unsigned short>::sweep_values(true);
#elif PART == 3
    Ints<char16_t, int>::sweep_values(false); Ints<char16_t, int>::sweep_options(mc::thorough());
    Ints<wchar_t, long>::sweep_values(false); Ints<wchar_t, long>::sweep_options(mc::thorough());
#elif PART == 4
    Ints<char8_t, long long>::sweep_values(false); Ints<char8_t, long long>::sweep_options(mc::thorough());
    Ints<char32_t, unsigned>::sweep_values(false); Ints<char32_t, unsigned>::sweep_options(mc::thorough());
#elif PART == 5
    Ints<char, unsigned>::sweep_values(false); Ints<char, unsigned long>::sweep_values(false); Ints<char, long>::sweep_values(false);
    Ints<char, short>::sweep_options(mc::thorough()); Ints<char, signed char>::sweep_options(mc::thorough()); Ints<char, unsigned char>::sweep_options(mc::thorough());
#endif
}
MC_MAIN(body)
