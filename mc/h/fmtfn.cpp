// C29: format functions compose. The states are the value_and_format objects that can be reached from fmt(x) (their type and their
// formatting options), the transitions the format functions. The whole graph is explored; after every transition, for every way to
// call the function (on an rvalue, an lvalue, a const lvalue), the observers and the printed text must be those of the model record.
#include <string_view>
#include <cmath>
#include <string>
#include <deque>
#include <memory>
#include <set>
#include <tuple>
#include <vector>
#include <array>
#include <list>
#include "mc.hpp"
#include <strf/to_string.hpp>
#include "intmodel.hpp"
#include "floatmodel.hpp"
using std::size_t;
using S32 = std::u32string;
struct Rec {
    char32_t fill = U' '; int w = 0, al = 1;                                        // alignment
    int base = 10, prec = 0, pad0 = 0, sign = 0; bool sb = false, punct = false;      // integers (floats: sb is showpoint)
    int nota = 0;                                                                   // 0 general 1 fixed 2 scientific 3 hex
    long count = 1;
    int sp = -1, mode = 0, cs = 0;                                                  // strings: precision; 0 none 1 unsafe 2 transcode 3 sani; 0 none 1 utf8 2 latin1 (3 dynamic)
    auto tie() const { return std::tie(fill, w, al, base, prec, pad0, sign, sb, punct, nota, count, sp, mode, cs); }
    bool operator==(const Rec& o) const { return tie() == o.tie(); }
    bool operator<(const Rec& o) const { return tie() < o.tie(); }
};
static std::string show(const Rec& r) { return mc::sfmt("{fill U+%04X width %d align %d | base %d precision %d pad0 %d sign %d showbase/point %d punct %d notation %d | count %ld | string precision %d, transcoding %d charset %d}", (unsigned)r.fill, r.w, r.al, r.base, r.prec, r.pad0, r.sign, (int)r.sb, (int)r.punct, r.nota, r.count, r.sp, r.mode, r.cs); }
static S32 u8dec(const std::string& s) { S32 r; for (size_t i = 0; i < s.size();) { unsigned char c = (unsigned char)s[i]; if (c < 0x80) { r += c; ++i; } else if ((c & 0xE0) == 0xC0 && i + 1 < s.size()) { r += (char32_t)((c & 31) << 6 | (s[i + 1] & 63)); i += 2; } else if ((c & 0xF0) == 0xE0 && i + 2 < s.size()) { r += (char32_t)((c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63)); i += 3; } else { r += 0x110000 + c; ++i; } } return r; }

// ---- what the observers say
template <class V> constexpr bool has_int = requires(const V& v) { v.get_int_format(); };
template <class V> constexpr bool has_float = requires(const V& v) { v.get_float_format(); };
template <class V> constexpr bool has_align = requires(const V& v) { v.get_alignment_format(); };
template <class V> constexpr bool has_count = requires(const V& v) { v.count(); };
static int al_of(strf::text_alignment a) { return a == strf::text_alignment::left ? 0 : a == strf::text_alignment::right ? 1 : 2; }
static int sign_of(strf::showsign s) { return s == strf::showsign::negative_only ? 0 : s == strf::showsign::positive_also ? 1 : 2; }
template <class V> Rec observe(const V& v, const Rec& expected, std::string& err) {
    Rec r = expected;                                       // what has no documented observer is judged by the printed text
    if constexpr (has_align<V>) { strf::alignment_format a = v.get_alignment_format(); r.fill = a.fill; r.w = a.width.floor(); r.al = al_of(a.alignment); if (v.width() != a.width) err += " width() differs from get_alignment_format().width;"; }
    if constexpr (has_int<V>) { auto g = v.get_int_format(); strf::int_format f = g; r.base = f.base; r.prec = f.precision; r.pad0 = f.pad0width; r.sign = sign_of(f.sign); r.sb = f.showbase; r.punct = f.punctuate;
        if (g.base != f.base || g.precision != f.precision || g.pad0width != f.pad0width || g.sign != f.sign || g.showbase != f.showbase || g.punctuate != f.punctuate) err += " get_int_format() converts to another int_format;"; }
    if constexpr (has_float<V>) { auto g = v.get_float_format(); strf::float_format f = g; r.prec = (int)f.precision; r.pad0 = (int)f.pad0width; r.sign = sign_of(f.sign); r.sb = f.showpoint; r.punct = f.punctuate; r.nota = f.notation == strf::float_notation::general ? 0 : f.notation == strf::float_notation::fixed ? 1 : f.notation == strf::float_notation::scientific ? 2 : 3;
        if (g.precision != f.precision || g.pad0width != f.pad0width || g.sign != f.sign || g.showpoint != f.showpoint || g.punctuate != f.punctuate || g.notation != f.notation) err += " get_float_format() converts to another float_format;"; }
    if constexpr (has_align<V>) { if (v.fill() != v.get_alignment_format().fill || v.alignment() != v.get_alignment_format().alignment) err += " fill() or alignment() differs from get_alignment_format();"; }
    if constexpr (requires { v.pad0width(); v.get_float_format(); }) { if (v.float_notation() != v.get_float_format().notation || v.pad0width() != v.get_float_format().pad0width) err += " float_notation() or pad0width() differs from get_float_format();"; }
    if constexpr (requires { v.get_int_format(); v.base(); }) { if (v.base() != v.get_int_format().base) err += " base() differs from get_int_format().base;"; }
    if constexpr (has_count<V>) { r.count = (long)v.count(); if (v.scount() != (std::ptrdiff_t)v.count()) err += " scount() differs from count();"; }
    return r;
}

// ---- transitions
template <class F> concept static_base = requires { typename std::integral_constant<int, F::base>; };
template <class V> constexpr int base_of() { if constexpr (has_int<V>) { using F = std::decay_t<decltype(std::declval<const V&>().get_int_format())>; if constexpr (static_base<F>) return F::base; else return 0; } else return 0; }
#define X static_cast<T&&>(t)
#define OP(N, COND, PRE, MODEL, ...) OP_(N, false, #__VA_ARGS__, COND, PRE, MODEL, __VA_ARGS__)
#define GOP(N, COND, PRE, MODEL, ...) OP_(N, true, #__VA_ARGS__, COND, PRE, MODEL, __VA_ARGS__)      // a function of namespace strf: for rvalues only
#define OP_(N, G, STR, COND, PRE, MODEL, ...) struct N { static constexpr const char* str = STR; static constexpr bool global = G; template <class V> static constexpr bool ok() { return COND; } static bool pre(const Rec& r) { (void)r; return PRE; } template <class T> static auto f(T&& t) -> decltype(__VA_ARGS__) { return __VA_ARGS__; } static void m(Rec& r) { (void)r; MODEL; } };
OP(Fmt, true, true, , strf::fmt(X))
OP(A1, true, true, (r.al = 0, r.w = 9), X < 9)
OP(A2, true, true, (r.al = 1, r.w = 9), X > 9)
OP(A3, true, true, (r.al = 2, r.w = 9), X ^ 9)
OP(A4, true, true, (r.al = 0, r.w = 0), X < 0)
OP(A5, true, true, (r.fill = U'*'), X.fill('*'))
OP(A6, true, true, (r.fill = U'\u20AC'), X.fill(U'\u20AC'))
OP(A7, true, true, (r.fill = U'~', r.w = 20, r.al = 2), X.set_alignment_format(strf::alignment_format{U'~', 20, strf::text_alignment::center}))
OP(A8, true, true, (r.fill = U' ', r.w = 0, r.al = 1), X.set_alignment_format(strf::default_alignment_format{}))
OP(A9, true, true, (r.fill = U' ', r.w = 0, r.al = 1), X.clear_alignment_format())
GOP(B1, true, true, (r.al = 0, r.w = 20), strf::left(X, 20))
GOP(B2, true, true, (r.al = 1, r.w = 20), strf::right(X, 20))
GOP(B3, true, true, (r.al = 2, r.w = 20), strf::center(X, 20))
GOP(B4, true, true, (r.al = 0, r.w = 9, r.fill = U'*'), strf::left(X, 9, '*'))
GOP(B5, true, true, (r.al = 1, r.w = 9, r.fill = U'\u20AC'), strf::right(X, 9, U'\u20AC'))
GOP(B6, true, true, (r.al = 2, r.w = 9, r.fill = U' '), strf::center(X, 9, ' '))
#define ALIGN_OPS Fmt, A1, A2, A3, A4, A5, A6, A7, A8, A9, B1, B2, B3, B4, B5, B6
OP(I1, true, true, r.base = 2, X.bin())
OP(I2, true, true, r.base = 8, X.oct())
OP(I3, true, true, r.base = 10, X.dec())
OP(I4, true, true, r.base = 16, X.hex())
OP(I5, base_of<V>() != 10, true, r.sb = true, *X)
OP(I6, base_of<V>() == 10 || base_of<V>() == 0, true, r.sign = 1, +X)
OP(I7, base_of<V>() == 10 || base_of<V>() == 0, true, r.sign = 2, ~X)
OP(I8, base_of<V>() == 10 || base_of<V>() == 0, true, r.sign = 2, X.fill_sign())
OP(I9, true, true, r.punct = true, X.punct())
OP(I10, true, true, r.punct = true, !X)
OP(I11, true, true, r.pad0 = 12, X.pad0(12))
OP(I12, true, true, r.prec = 9, X.p(9))
OP(I13, true, true, r.pad0 = 0, X.pad0(0))
OP(I14, true, true, r.prec = 0, X.p(0))
OP(I15, true, true, (r.base = 10, r.prec = 0, r.pad0 = 0, r.sign = 0, r.sb = r.punct = false), X.set_int_format(strf::default_int_format{}))
OP(I16, true, true, (r.base = 8, r.prec = 9, r.pad0 = 12, r.sign = 1, r.sb = true, r.punct = true), X.set_int_format(strf::int_format{8, 9, 12, strf::showsign::positive_also, true, true}))
OP(I17, true, true, (r.base = 10, r.prec = 0, r.pad0 = 0, r.sign = 0, r.sb = r.punct = false), X.set_int_format(strf::int_format{}))
GOP(J1, true, true, r.base = 2, strf::bin(X))
GOP(J2, true, true, r.base = 8, strf::oct(X))
GOP(J3, true, true, r.base = 10, strf::dec(X))
GOP(J4, true, true, r.base = 16, strf::hex(X))
GOP(J5, true, true, r.pad0 = 12, strf::pad0(X, 12))
GOP(J6, true, true, r.punct = true, strf::punct(X))
#define INT_OPS I1, I2, I3, I4, I5, I6, I7, I8, I9, I10, I11, I12, I13, I14, I15, I16, I17, J1, J2, J3, J4, J5, J6
OP(F1, true, true, r.nota = 0, X.gen())
OP(F2, true, true, r.nota = 1, X.fixed())
OP(F3, true, true, r.nota = 2, X.sci())
OP(F4, true, true, r.nota = 3, X.hex())
OP(F5, true, true, r.sb = true, *X)
OP(F6, true, true, r.sign = 1, +X)
OP(F7, true, true, r.sign = 2, ~X)
OP(F8, true, true, r.sign = 2, X.fill_sign())
OP(F9, true, true, r.punct = true, X.punct())
OP(F10, true, true, r.punct = true, !X)
OP(F11, true, true, r.pad0 = 12, X.pad0(12))
OP(F12, true, true, r.prec = 3, X.p(3))
OP(F13, true, true, r.nota = 1, X.set_float_notation(strf::float_notation::fixed))
OP(F14, true, true, r.nota = 0, X.set_float_notation(strf::float_notation::general))
OP(F15, true, true, (r.nota = 0, r.prec = -1, r.pad0 = 0, r.sign = 0, r.sb = r.punct = false), X.set_float_format(strf::default_float_format{}))
OP(F16, true, true, (r.nota = 2, r.prec = 3, r.pad0 = 12, r.sign = 1, r.sb = true, r.punct = true), X.set_float_format(strf::float_format{3, 12, strf::float_notation::scientific, strf::showsign::positive_also, true, true}))
OP(F17, true, true, (r.nota = 0, r.prec = -1, r.pad0 = 0, r.sign = 0, r.sb = r.punct = false), X.set_float_format(strf::float_format{}))
OP(F18, true, true, r.pad0 = 0, X.pad0(0))
GOP(G1, true, true, r.nota = 0, strf::gen(X))
GOP(G2, true, true, r.nota = 1, strf::fixed(X))
GOP(G3, true, true, r.nota = 2, strf::sci(X))
GOP(G4, true, true, r.nota = 3, strf::hex(X))
GOP(G5, true, true, (r.nota = 0, r.prec = 3), strf::gen(X, 3))
GOP(G6, true, true, (r.nota = 1, r.prec = 0), strf::fixed(X, 0))
GOP(G7, true, true, (r.nota = 2, r.prec = 3), strf::sci(X, 3))
GOP(G8, true, true, r.pad0 = 12, strf::pad0(X, 12))
GOP(G9, true, true, r.punct = true, strf::punct(X))
#define FLOAT_OPS F1, F2, F3, F4, F5, F6, F7, F8, F9, F10, F11, F12, F13, F14, F15, F16, F17, F18, G1, G2, G3, G4, G5, G6, G7, G8, G9
OP(Q1, true, true, r.count = 0, X.multi(0))
OP(Q2, true, true, r.count = 3, X.multi((unsigned char)3))
OP(Q3, true, true, r.count = 1, X.multi(1LL))
GOP(Q4, true, true, r.count = 7, strf::multi(X, (size_t)7))
#define MULTI_OPS Q1, Q2, Q3, Q4
static const auto dyn_latin1 = strf::iso_8859_1<char>.to_dynamic();
OP(S1, true, true, r.sp = 2, X.p(2))
OP(S2, true, true, r.sp = 0, X.p(0))
OP(S3, true, true, r.sp = 70, X.p(70))
// (the documentation and the code disagree on what transcode() does after transcode(cs): not explored)
OP(S4, true, r.cs == 0, r.mode = 1, X.unsafe_transcode())
OP(S5, true, r.cs == 0, r.mode = 2, X.transcode())
OP(S6, true, r.cs == 0, r.mode = 3, X.sani())
OP(S7, true, true, (r.mode = 1, r.cs = 1), X.unsafe_transcode(strf::utf8<char>))
OP(S8, true, true, (r.mode = 2, r.cs = 1), X.transcode(strf::utf8<char>))
OP(S9, true, true, (r.mode = 3, r.cs = 1), X.sani(strf::utf8<char>))
OP(S10, true, true, (r.mode = 1, r.cs = 2), X.unsafe_transcode(strf::iso_8859_1<char>))
OP(S11, true, true, (r.mode = 2, r.cs = 2), X.transcode(strf::iso_8859_1<char>))
OP(S12, true, true, (r.mode = 3, r.cs = 2), X.sani(strf::iso_8859_1<char>))
OP(S13, true, true, (r.mode = 2, r.cs = 3), X.transcode(dyn_latin1))
OP(S14, true, true, (r.mode = 3, r.cs = 3), X.sani(dyn_latin1))
GOP(U1, true, r.cs == 0, r.mode = 1, strf::unsafe_transcode(X))
GOP(U2, true, r.cs == 0, r.mode = 2, strf::transcode(X))
GOP(U3, true, r.cs == 0, r.mode = 3, strf::sani(X))
GOP(U4, true, true, (r.mode = 1, r.cs = 2), strf::unsafe_transcode(X, strf::iso_8859_1<char>))
GOP(U5, true, true, (r.mode = 2, r.cs = 2), strf::transcode(X, strf::iso_8859_1<char>))
GOP(U6, true, true, (r.mode = 3, r.cs = 1), strf::sani(X, strf::utf8<char>))
#define STR_OPS S1, S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, S12, S13, S14, U1, U2, U3, U4, U5, U6

template <class... O> struct Ops {};
// ---- domains: what is printed. text(v, rec) is the expected text of the object given
static S32 aligned(const S32& s, const Rec& r) { return im::aligned(s, r.al, r.w, r.fill); }
static im::Spec ispec(const Rec& r) { im::Spec s; s.base = r.base; s.prec = r.prec; s.pad0 = r.pad0; s.sign = r.sign; s.showbase = r.sb; s.punct = r.punct; s.align = r.al; s.width = r.w; s.fill = r.fill; s.groups = {r.base == 10 ? 3 : r.base == 16 ? 2 : r.base == 8 ? 1 : 4}; s.sep = r.base == 10 ? U'.' : U','; return s; }
template <class I> S32 itext(I x, const Rec& r) { using Un = std::make_unsigned_t<I>; bool neg = x < 0; Un raw = (Un)x; return im::print(std::is_signed<I>::value, neg, neg ? (Un)(0 - raw) : raw, raw, ispec(r)); }
static S32 ftext(double x, const Rec& r) { fm::Spec s; s.notation = r.nota == 0 ? fm::Gen : r.nota == 1 ? fm::Fixed : r.nota == 2 ? fm::Sci : fm::Hex; s.prec = r.prec; s.showpoint = r.sb; s.sign = r.sign; s.pad0 = r.pad0; s.punct = r.punct; s.align = r.al; s.width = r.w; s.fill = r.fill; s.groups = {3}; s.sep = U'.'; s.point = U','; return fm::print(fm::decompose(x), s); }
template <class V> std::string print(const V& v) { return strf::to_string.with(strf::numpunct<10>(3).thousands_sep('.').decimal_point(','), strf::numpunct<16>(2), strf::numpunct<8>(1), strf::numpunct<2>(4))(v); }

template <class I> struct DInt {
    static auto root() { return strf::fmt((I)1234567); } static constexpr bool fl = false; static const char* name() { return "integer"; }
    using ops = Ops<ALIGN_OPS, INT_OPS>;
    template <class V, class K> static void texts(const V& v, const Rec& r, K k) { k(v, itext<I>(1234567, r)); for (I x : {(I)0, (I)-57, (I)((std::make_unsigned_t<I>)1 << (sizeof(I) * 8 - 1))}) k(V(x, v), itext<I>(x, r)); }
};
struct DFloat {
    static auto root() { return strf::fmt(1234567.25); } static constexpr bool fl = true; static const char* name() { return "floating-point"; }
    using ops = Ops<ALIGN_OPS, FLOAT_OPS>;
    template <class V, class K> static void texts(const V& v, const Rec& r, K k) { if (!(r.nota == 0 && r.sb && r.prec >= 0)) k(v, ftext(1234567.25, r)); for (double x : {0.0, -0.5, 1e20, -(double)INFINITY}) k(V(x, v), ftext(x, r)); }
};
template <class R, class E> struct DRangeOf {                 // the elements, each with the formats
    static const R& data() { static const R r{(E)7, (E)-1200, (E)0}; return r; }
    static constexpr bool fl = std::is_floating_point<E>::value; static const char* name() { return "range"; }
    template <class V, class K> static void cat(const V& v, const Rec& r, const S32& sep, K k) { S32 s; bool first = true; for (E x : data()) { if (!first) s += sep; first = false; if constexpr (fl) s += ftext(x, r); else s += itext<E>(x, r); } k(v, s); }
};
struct DRange : DRangeOf<std::vector<short>, short> { using ops = Ops<ALIGN_OPS, INT_OPS>; static auto root() { return strf::fmt_range(data()); } template <class V, class K> static void texts(const V& v, const Rec& r, K k) { cat(v, r, U"", k); } };
struct DSepRange : DRangeOf<std::list<long>, long> { using ops = Ops<ALIGN_OPS, INT_OPS>; static auto root() { return strf::fmt_separated_range(data(), " ; "); } template <class V, class K> static void texts(const V& v, const Rec& r, K k) { cat(v, r, U" ; ", k); } };
struct DFloatRange : DRangeOf<std::array<float, 3>, float> { using ops = Ops<ALIGN_OPS, FLOAT_OPS>; static auto root() { return strf::fmt_range(data()); } template <class V, class K> static void texts(const V& v, const Rec& r, K k) { if (!(r.nota == 0 && r.sb && r.prec >= 0)) cat(v, r, U"", k); } };
struct DStr {
    static auto root() { return strf::fmt(std::string_view("ab\xC3\xA9z")); } static constexpr bool fl = false; static const char* name() { return "string"; }
    using ops = Ops<ALIGN_OPS, STR_OPS>;
    static S32 text(const std::string& s, const Rec& r) {
        S32 c; if (r.cs >= 2) for (unsigned char b : s) c += b; else { c = u8dec(s); if (r.mode == 3) for (auto& x : c) if (x > 0x10FFFF) x = 0xFFFD; }
        if (r.sp >= 0 && (int)c.size() > r.sp) c.resize((size_t)r.sp);
        return aligned(c, r);
    }
    template <class V, class K> static void texts(const V& v, const Rec& r, K k) {
        k(v, text("ab\xC3\xA9z", r));
        static const std::string other[] = {"", "\xFFx\xFFyz", "0123456789abcdefghijklmnopqrstuvwxyz"};
        for (auto& o : other) { if (r.mode == 1 && r.cs < 2 && o[0] == '\xFF') continue; k(V(typename V::value_type(o.data(), o.size()), v), text(o, r)); }
    }
};
template <class CH> struct DChar {
    static auto root() { return strf::fmt((CH)'x'); } static constexpr bool fl = false; static const char* name() { return "character"; }
    using ops = Ops<ALIGN_OPS, MULTI_OPS>;
    template <class V, class K> static void texts(const V& v, const Rec& r, K k) { k(v, aligned(S32((size_t)r.count, U'x'), r)); if constexpr (sizeof(CH) == 4) k(V(typename V::value_type((CH)0xE9), v), aligned(S32((size_t)r.count, (char32_t)0xE9), r)); else k(V(typename V::value_type((CH)'*'), v), aligned(S32((size_t)r.count, U'*'), r)); }
};
struct DBool { static auto root() { return strf::fmt(true); } static constexpr bool fl = false; static const char* name() { return "bool"; } using ops = Ops<ALIGN_OPS>; template <class V, class K> static void texts(const V& v, const Rec& r, K k) { k(v, aligned(U"true", r)); k(V(false, v), aligned(U"false", r)); } };
struct DPtr { static auto root() { return strf::fmt((const void*)0xABC); } static constexpr bool fl = false; static const char* name() { return "pointer"; } using ops = Ops<ALIGN_OPS>; template <class V, class K> static void texts(const V& v, const Rec& r, K k) { k(v, aligned(U"0xabc", r)); k(V((const void*)0x10, v), aligned(U"0x10", r)); } };
struct DJoin { static auto root() { return strf::fmt(strf::join("ab", 12)); } static constexpr bool fl = false; static const char* name() { return "join"; } using ops = Ops<ALIGN_OPS>; template <class V, class K> static void texts(const V& v, const Rec& r, K k) { k(v, aligned(U"ab12", r)); } };
// a printable of the user, with several format specifiers
template <int O> struct Usr { int x; };
template <int O> struct specs; template <> struct specs<0> { using t = strf::tag<strf::quantity_format_specifier, strf::alignment_format_specifier, strf::int_format_specifier>; };
template <> struct specs<1> { using t = strf::tag<strf::int_format_specifier, strf::quantity_format_specifier, strf::alignment_format_specifier>; };
template <> struct specs<2> { using t = strf::tag<strf::alignment_format_specifier, strf::float_format_specifier, strf::quantity_format_specifier>; };
template <int O> struct UsrDef {
    using representative = Usr<O>; using forwarded_type = Usr<O>; using format_specifiers = typename specs<O>::t; using is_overridable = std::false_type;
    template <class CharT, class Pre, class FP, class D, class... F> static auto make_printer(strf::tag<CharT>, Pre* pre, const FP& fp, const strf::value_and_format<D, F...>& a) {
        if constexpr (O == 2) return strf::make_printer<CharT>(pre, fp, strf::join(strf::multi((CharT)'<', a.count()), strf::fmt((double)a.value().x).set_float_format(static_cast<strf::float_format>(a.get_float_format())).set_alignment_format(static_cast<strf::alignment_format>(a.get_alignment_format()))));
        else return strf::make_printer<CharT>(pre, fp, strf::join(strf::multi((CharT)'<', a.count()), strf::fmt(a.value().x).set_int_format(static_cast<strf::int_format>(a.get_int_format())).set_alignment_format(static_cast<strf::alignment_format>(a.get_alignment_format()))));
    }
};
namespace strf { template <int O> struct printable_def<Usr<O>> : UsrDef<O> {}; }
template <int O> struct DUser {
    static auto root() { return strf::fmt(Usr<O>{44444}); } static constexpr bool fl = O == 2; static const char* name() { return "user-defined"; }
    template <int Q> struct opsq { using t = Ops<ALIGN_OPS, INT_OPS, MULTI_OPS>; };
    using ops = std::conditional_t<O == 2, Ops<ALIGN_OPS, FLOAT_OPS, MULTI_OPS>, Ops<ALIGN_OPS, INT_OPS, MULTI_OPS>>;
    static S32 text(int x, const Rec& r) { return S32((size_t)r.count, U'<') + (O == 2 ? ftext(x, r) : itext<int>(x, r)); }
    template <class V, class K> static void texts(const V& v, const Rec& r, K k) { if (O == 2 && r.nota == 0 && r.sb && r.prec >= 0) return; k(v, text(44444, r)); k(V(Usr<O>{-3}, v), text(-3, r)); }
};

// ---- the exploration
template <class D> struct Explore {
    struct Node { Rec rec; std::string path; virtual ~Node() = default; virtual void expand() = 0; };
    static inline std::deque<std::unique_ptr<Node>> queue; static inline std::set<std::pair<const void*, Rec>> seen;
    template <class V> struct TypeId { static inline char c; };
    template <class V> static void judge(const V& v, const Rec& rec, const std::string& path) {
        std::string err; Rec o = observe(v, rec, err);
        if (!(o == rec)) err += " the observers say " + show(o) + ";";
        D::texts(v, rec, [&](const auto& w, const S32& exp) { std::string t = print(w); mc::step(); mc::state(mc::mix(mc::hash(t), mc::mix((std::uint64_t)rec.w << 40 | (std::uint64_t)rec.fill << 8 | (unsigned)rec.base, (std::uint64_t)(rec.prec + 1) << 40 | (std::uint64_t)rec.pad0 << 32 | (unsigned)(rec.al << 16 | rec.sign << 12 | rec.sb << 10 | rec.punct << 9 | rec.nota << 6 | rec.mode << 3 | rec.cs) ^ (std::uint64_t)rec.count << 20))); if (u8dec(t) != exp) err += " printed " + mc::show(t) + " instead of " + mc::show(exp) + ";"; });
        if (!err.empty()) mc::failf(mc::sfmt("compose %s", D::name()), "%s, x = %s: must have the formats %s:%s", path.c_str(), D::name(), show(rec).c_str(), err.c_str());
    }
    template <class V> static void arrive(const V& v, const Rec& rec, const std::string& path) {
        if (!seen.insert({&TypeId<V>::c, rec}).second) return;
        queue.emplace_back(new NodeT<V>(v, rec, path));
    }
    template <class V> struct NodeT : Node {
        V v; NodeT(const V& x, const Rec& r, const std::string& p) : v(x) { this->rec = r; this->path = p; }
        void expand() override { all(typename D::ops{}); }
        template <class... O> void all(Ops<O...>) { (one<O>(), ...); }
        template <class O> void one() {
            if constexpr (O::template ok<V>()) {
                if (!O::pre(this->rec)) return;
                Rec n = this->rec; O::m(n);
                std::string path; for (const char* c = O::str; *c; ++c) { if (*c == 'X' && (c == O::str || !isalnum((unsigned char)c[-1]))) path += this->path; else path += *c; }
                path = "(" + path + ")";
                bool mine = mc::take(); if (mine) mc::note("%s", path.c_str());
                {   // on an rvalue: must be possible
                    V a(v); using R = std::decay_t<decltype(O::template f<V>(std::move(a)))>;
                    R b(O::template f<V>(std::move(a)));
                    if (mine) { judge(b, n, path); if (mc::want_sample()) mc::sample(path + " -> " + show(n) + " prints " + mc::show(print(b))); }
                    arrive(b, n, path);
                }
                if (!mine) return;
                if constexpr (!O::global) {
                if constexpr (requires(V& a) { O::template f<V&>(a); }) {       // on an lvalue: either it returns another object, or it changes the one given
                    V a(v); decltype(auto) b = O::template f<V&>(a); judge(b, n, path + " on an lvalue");
                    if constexpr (std::is_same<decltype(b), V&>::value) { if ((const void*)&b != (const void*)&a) mc::failf("compose lvalue", "%s on an lvalue returns a reference to another object", path.c_str()); }
                    else judge(a, this->rec, path + " on an lvalue: the object it was called on");
                    mc::count("calls on lvalues");
                }
                if constexpr (requires(const V& a) { O::template f<const V&>(a); }) {
                    const V a(v); decltype(auto) b = O::template f<const V&>(a); judge(b, n, path + " on a const lvalue"); judge(a, this->rec, path + " on a const lvalue: the object it was called on");
                    mc::count("calls on const lvalues");
                }
                }
            }
        }
    };
    static void run() {
        Rec r; if (D::fl) r.prec = -1;
        auto v = D::root(); judge(v, r, "fmt(x)"); arrive(v, r, "fmt(x)");
        size_t nodes = 0;
        while (!queue.empty()) { auto n = std::move(queue.front()); queue.pop_front(); ++nodes; n->expand(); }
        if (mc::g().shard == 0) { mc::count("states (types and formats) reached: the whole graph", nodes); std::set<const void*> t; for (auto& s : seen) t.insert(s.first); mc::count("types of value_and_format reached", t.size()); }
    }
};
static void body() {
#if PART == 0
    Explore<DInt<int>>::run();
#elif PART == 1
    Explore<DInt<unsigned long long>>::run();
#elif PART == 2
    Explore<DFloat>::run();
#elif PART == 3
    Explore<DStr>::run();
#elif PART == 4
    Explore<DChar<char>>::run(); Explore<DChar<char32_t>>::run(); Explore<DBool>::run(); Explore<DPtr>::run(); Explore<DJoin>::run();
#elif PART == 5
    Explore<DRange>::run();
#elif PART == 6
    Explore<DSepRange>::run();
#elif PART == 7
    Explore<DFloatRange>::run();
#elif PART == 8
    Explore<DUser<0>>::run();
#elif PART == 9
    Explore<DUser<1>>::run();
#else
    Explore<DUser<2>>::run();
#endif
}
MC_MAIN(body)
