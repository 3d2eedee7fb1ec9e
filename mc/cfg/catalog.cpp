// C24: one catalogue of everything observable, compiled in many configurations (compiler, language version, optimization,
// header-only or separately compiled, freestanding, signedness of char, size of wchar_t, sanitizers) into shared
// libraries whose records mc/h/cfg.cpp compares. C++14; uses the C++ library only where every configuration has it.
#ifndef CFG_FREE
#  include <string>
#endif
#ifdef CFG_NOBUILTIN     // what strf sees in a compiler without __has_builtin; the library is included first because it needs it
#  include <type_traits>
#  include <limits>
#  include <new>
#  include <utility>
#  include <cstdint>
#  include <cstddef>
#  include <cstring>
#  include <cstdio>
#  include <string>
#  include <iterator>
#  include <algorithm>
#  include <functional>
#  include <memory>
#  undef __has_builtin
#endif
#include <strf.hpp>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <limits>
typedef void (*Cb)(void*, const char* key, const std::uint32_t* units, long n, long size, long width, long extra);
static Cb g_cb; static void* g_ctx;
static char g_key[400];
#define KEY(...) std::snprintf(g_key, sizeof g_key, __VA_ARGS__)
static const int MAXU = 6000;
static std::uint32_t g_u[MAXU + 10];

template <class C> static long widen(const C* b, long n) {          // code units as numbers; wchar_t as code points whatever its size
    long k = 0;
    for (long i = 0; i < n; ++i) {
        std::uint32_t u = sizeof(C) == 1 ? (std::uint32_t)(unsigned char)b[i] : sizeof(C) == 2 ? (std::uint32_t)(std::uint16_t)b[i] : (std::uint32_t)b[i];
        if (std::is_same<C, wchar_t>::value && sizeof(C) == 2 && u >= 0xD800 && u < 0xDC00 && i + 1 < n) { std::uint32_t v = (std::uint16_t)b[i + 1]; if (v >= 0xDC00 && v < 0xE000) { u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00); ++i; } }
        g_u[k++] = u;
    }
    return k;
}
template <class C> class Small final : public strf::destination<C> {
    C buf_[64]; C* o_;
public:
    long n = 0, recycles = 0;
    explicit Small(C* out) : strf::destination<C>(buf_ + 61, buf_ + 64), o_(out) {}
    void flush() { const C* b = recycles ? buf_ : buf_ + 61; for (; b != this->buffer_ptr(); ++b) if (n < MAXU) o_[n++] = *b; }
    void recycle() override { flush(); ++recycles; this->set_buffer_ptr(buf_); this->set_buffer_end(buf_ + 64); }
};
static void record(const std::uint32_t* u, long n, long size = 0, long width = 0, long extra = 0) { g_cb(g_ctx, g_key, u, n, size, width, extra); }
static void rec(long a, long b = 0, long c = 0) { record(nullptr, 0, a, b, c); }
template <class C, class FP, class... A> static void outw(const FP& fp, const A&... a) {
    static C buf[MAXU + 10], buf2[MAXU + 10];
    strf::array_destination<C> d(buf, MAXU); strf::to(d).with(fp)(a...); auto f = d.finish();
    long n = (long)(f.ptr - buf), n2;
    { Small<C> s(buf2); strf::to((strf::destination<C>&)s).with(fp)(a...); s.flush(); n2 = s.n; }
    long extra = f.truncated ? 1 : 0;
    if (n != n2 || std::memcmp(buf, buf2, (std::size_t)n * sizeof(C)) != 0) extra |= 2;
    strf::premeasurements<strf::size_presence::yes, strf::width_presence::yes> p; strf::measure<C>(&p, fp, a...);
    long size = (long)p.accumulated_size(), width = (long)p.accumulated_width().underlying_value();
    if (std::is_same<C, wchar_t>::value) { extra |= size < n ? 4 : 0; size = 0; }
    record(g_u, widen(buf, n), size, width, extra);
}
template <class C, class... A> static void out(const A&... a) { outw<C>(strf::pack(), a...); }
#define LEN(a) ((int)(sizeof(a) / sizeof(a[0])))

#if SEC == 0
// ---- integers
template <class C, class T> static void ints(const char* tn) {
    typedef std::numeric_limits<T> L;
    const T vals[] = {(T)0, (T)1, (T)9, (T)10, (T)99, (T)100, (T)127, L::max(), (T)(L::max() - 1), L::min(), (T)(L::min() + 1), (T)(L::max() / 10), (T)(L::max() / 7 * 3), (T)-1, (T)-100};
    const auto np10 = strf::numpunct<10>(3).thousands_sep(U'\u00B7'); const auto np16 = strf::numpunct<16>(4, 2, -1).thousands_sep('\''); const auto np8 = strf::numpunct<8>(1, 2, 3); const auto np2 = strf::numpunct<2>(8).thousands_sep(0x1F600);
    const strf::lettercase lcs[] = {strf::lettercase::lower, strf::lettercase::mixed, strf::lettercase::upper};
    for (T v : vals) for (int l = 0; l < 3; ++l) {
        const auto fp = strf::pack(np10, np16, np8, np2, lcs[l]);
        auto go = [&](const char* f, const auto& x) { KEY("%d %s %lld lc=%d %s", (int)std::is_same<C, char>::value, tn, (long long)v, l, f); out<C>(strf::with(fp)(x)); };
        go("plain", v); go("punct", strf::dec(v).punct()); go("hex", strf::hex(v)); go("*hex", *strf::hex(v)); go("*bin", *strf::bin(v)); go("*oct", *strf::oct(v)); go("!hex", !strf::hex(v)); go("!*bin", *!strf::bin(v)); go("!oct", !strf::oct(v));
        if (l) continue;
        go("+", +strf::dec(v)); go("~", ~strf::dec(v)); go("p", strf::dec(v).p(25)); go("pad0", strf::dec(v).pad0(12)); go("!pad0", (!strf::dec(v)).pad0(30));
        for (int w : {0, 5, 30}) for (int k = 0; k < 4; ++k) {
            const char32_t fill[] = {U' ', U'\u00B7', U'\u20AC', U'\U0001F600'}; const auto sw = (std::int16_t)w;
            go("<", strf::left(v, sw, fill[k])); go(">+", +strf::right(v, sw, fill[k])); go("^*hex", *strf::hex(v).fill(fill[k]) ^ sw); go(">!p", (!strf::dec(v)).fill(fill[k]).p(22) > sw); go("~>pad0", (~strf::dec(v)).fill(fill[k]).pad0(7) > sw);
        }
    }
}
template <class C> static void num() {
    ints<C, signed char>("schar"); ints<C, unsigned char>("uchar"); ints<C, short>("short"); ints<C, unsigned short>("ushort"); ints<C, int>("int"); ints<C, unsigned>("unsigned"); ints<C, long>("long"); ints<C, unsigned long>("ulong"); ints<C, long long>("llong"); ints<C, unsigned long long>("ullong");
}
static void body() {
    num<char>(); num<char16_t>(); ints<char32_t, int>("int32"); ints<char32_t, unsigned long long>("ullong32"); ints<wchar_t, int>("intw"); ints<wchar_t, unsigned long long>("ullongw"); ints<wchar_t, long>("longw");
    // around every power of the bases
    auto pow = [](int base, int digit, unsigned long long v) {
        KEY("power %d %d %llu", base, digit, v); const auto l = (unsigned long)v; const auto ll = (long long)v;
        out<char>(v, ' ', l, ' ', ll, ' ', strf::hex(v), ' ', *strf::oct(v), ' ', strf::bin(l), ' ', !strf::dec(v), ' ', strf::dec(v).p(3), ' ', *strf::hex(v) > 20, ' ', (unsigned)v, ' ', (unsigned short)v);
        out<wchar_t>(v, L' ', strf::hex(v), L' ', strf::oct(v), L' ', strf::bin(v));
    };
    for (int base : {2, 8, 10, 16}) { unsigned long long v = 1; for (int d = 0; ; ++d) { for (int k = -2; k < 3; ++k) pow(base, d, v + (unsigned long long)k); for (int m = 3; m < base; m += 2) pow(base, d, v * (unsigned)m); if (v > ~0ULL / (unsigned)base) break; v *= (unsigned)base; } }
    // groupings
    for (int a = 1; a <= 31; a += a < 5 ? 1 : 13) for (int b = 1; b <= 31; b += b < 4 ? 1 : 14) for (int s = 0; s < 2; ++s) {
        char str[4] = {(char)a, (char)b, s ? (char)-1 : (char)0, 0};
        const strf::digits_grouping g[3] = {s ? strf::digits_grouping(a, b, -1) : strf::digits_grouping(a, b), strf::digits_grouping(str), s ? strf::digits_grouping_creator{}.finish() : [&] { strf::digits_grouping_creator c; c.push_high(a); c.push_high(b); return c.finish(); }()};
        for (int k = 0; k < 3; ++k) for (int dc = 1; dc < 80; dc += dc < 12 ? 1 : 11) { KEY("grouping %d %d %d form %d digits %d", a, b, s, k, dc); auto d = g[k].distribute(dc); rec(g[k].separators_count(dc), d.highest_group, d.middle_groups_count * 2 + g[k].any_separator(dc)); }
        KEY("grouping %d %d %d ==", a, b, s); rec(g[0] == g[1], g[0] == g[2]);
        const auto np = strf::numpunct<10>(g[1]); KEY("grouping %d %d %d print", a, b, s); out<char>(strf::with(np)(!strf::dec(18446744073709551615u), ' ', !strf::fixed(1234567890123.5)));
    }
    const auto dn = strf::default_numpunct<10>(); KEY("default numpunct"); rec(dn.thousands_sep(), dn.decimal_point(), dn.thousands_sep_count(10));
}
#elif SEC == 1
// ---- floating point
template <class C, class T> static void floats(const char* tn) {
    typedef std::numeric_limits<T> L;
    const T vals[] = {(T)0, (T)-0.0, (T)1, (T)0.1, (T)0.5, (T)-1.5, (T)2.5, (T)9.5, (T)99.95, (T)123456, (T)1234567, (T)1e15, (T)123456789012345678.0, (T)1e22, (T)1e-5, (T)0.0001, (T)1.0 / 3, (T)2.0 / 3, (T)4.35, (T)5e-7, L::max(), L::min(), L::denorm_min(), L::epsilon(), L::infinity(), -L::infinity(), L::quiet_NaN(), (T)9007199254740993.0, (T)3.4028234e38, (T)16777216};
    const auto np = strf::numpunct<10>(3, 2).thousands_sep(U'\u2019').decimal_point(U'\u066B'); const auto np16 = strf::numpunct<16>(-1).decimal_point(U',');
    const strf::lettercase lcs[] = {strf::lettercase::lower, strf::lettercase::mixed, strf::lettercase::upper};
    for (int vi = 0; vi < LEN(vals); ++vi) for (int l = 0; l < 3; ++l) {
        const T v = vals[vi];
        const auto fp = strf::pack(np, np16, lcs[l]);
        auto go = [&](const char* f, int p, const auto& x) { KEY("%d %s #%d lc=%d %s %d", (int)(std::is_same<C, wchar_t>::value ? 9 : sizeof(C)), tn, vi, l, f, p); out<C>(strf::with(fp)(x)); };
        go("plain", 0, v); go("!", 0, !strf::fmt(v)); go("sci", 0, strf::sci(v)); go("hex", 0, strf::hex(v)); go("gen", 0, strf::gen(v));
        if (l == 1) continue;
        go("!fixed", 0, !strf::fixed(v)); go("!hex", 0, !strf::hex(v));
        for (int p : {0, 1, 2, 5, 6, 16, 17, 18, 30}) {
            go("fixed.p", p, strf::fixed(v).p(p)); go("sci.p", p, +strf::sci(v).p(p)); go("gen.p", p, strf::gen(v).p(p)); go("*gen.p", p, *strf::gen(v).p(p)); go("hex.p", p, strf::hex(v).p(p));
            if (l == 0) { go("!fixed.p", p, (!strf::fixed(v)).p(p)); go("!*sci.p", p, *(!strf::sci(v)).p(p)); go("fixed>", p, strf::fixed(v).p(p).fill(U'\u20AC') > (std::int16_t)(20 + p)); go("pad0", p, (~strf::fixed(v)).pad0(12 + p)); go("^", p, (!strf::gen(v)).p(p) ^ 25); }
        }
    }
}
static void body() {
    floats<char, double>("double"); floats<char, float>("float"); floats<char16_t, double>("double"); floats<wchar_t, float>("floatw");
    // every power of ten and two, and neighbours
    for (int e = -1074; e < 1024; ++e) for (int k = 0; k < 3; ++k) {
        if (e % 3 && k) continue;
        std::uint64_t bits; double d = 1; int q = e; if (e < -1022) { bits = 1ull << (e + 1074); } else bits = (std::uint64_t)(e + 1023) << 52; bits += (std::uint64_t)k - (k == 2 ? 3 : 0); (void)q;
        std::memcpy(&d, &bits, 8); if (!(d > 0)) continue;
        KEY("2^%d %d", e, k); out<char>(d, ' ', strf::sci(d).p(16), ' ', strf::gen(d).p(8), ' ', strf::hex(d));
        std::uint32_t fb = (std::uint32_t)((e + 1074) & 0x7FFF) << 16 | (std::uint32_t)k; float f; std::memcpy(&f, &fb, 4);
        if (f == f) { KEY("float bits %x", (unsigned)fb); out<char>(f, ' ', strf::sci(f).p(7), ' ', strf::fixed(f).p(2)); }
    }
}
#elif SEC == 2
// ---- characters, strings, charsets
template <class C> static int put(C* o, char32_t c) {
    if (sizeof(C) == 1) { if (c < 0x80) { o[0] = (C)c; return 1; } if (c < 0x800) { o[0] = (C)(0xC0 | c >> 6); o[1] = (C)(0x80 | (c & 63)); return 2; } if (c < 0x10000) { o[0] = (C)(0xE0 | c >> 12); o[1] = (C)(0x80 | ((c >> 6) & 63)); o[2] = (C)(0x80 | (c & 63)); return 3; }
        o[0] = (C)(0xF0 | c >> 18); o[1] = (C)(0x80 | ((c >> 12) & 63)); o[2] = (C)(0x80 | ((c >> 6) & 63)); o[3] = (C)(0x80 | (c & 63)); return 4; }
    if (sizeof(C) == 2 && c > 0xFFFF) { o[0] = (C)(0xD800 + ((c - 0x10000) >> 10)); o[1] = (C)(0xDC00 + ((c - 0x10000) & 0x3FF)); return 2; }
    o[0] = (C)c; return 1;
}
struct Notes { long invalid = 0, unsupported = 0, sum = 0; };
struct Notifier : strf::transcoding_error_notifier {
    Notes* n; explicit Notifier(Notes* x) : n(x) {}
    void invalid_sequence(int size, const char*, const void*, std::ptrdiff_t count) override { ++n->invalid; n->sum = n->sum * 31 + (long)size * 7 + (long)count; }
    void unsupported_codepoint(const char*, unsigned c) override { ++n->unsupported; n->sum = n->sum * 31 + (long)c; }
};
// words: each token is a character (>= 0) or a raw ill-formed unit (< 0)
static const long T[] = {'a', 0xE9, 0x20AC, 0x1F600, 0x301, 0xFF01, -1, -2, -3};
template <class S> static int word(const int* w, int n, S* o) {
    S* b = o;
    for (int i = 0; i < n; ++i) {
        long t = T[w[i]];
        if (t >= 0) o += put(o, (char32_t)t);
        else if (sizeof(S) == 1) { if (t == -1) *o++ = (S)0xFF; else if (t == -2) { *o++ = (S)0xE2; *o++ = (S)0x82; } else *o++ = (S)0x80; }
        else if (sizeof(S) == 2 || (std::is_same<S, wchar_t>::value)) *o++ = (S)(t == -1 ? 0xD800 : t == -2 ? 0xDFFF : 0xDBFF);
        else *o++ = (S)(t == -1 ? 0xD800 : t == -2 ? 0x110000 : 0xFFFFFFFF);
    }
    *o = 0;
    return (int)(o - b);
}
template <class C, class S> static void str_one(const char* what, const S* b, int n, const int* w, int wn) {
    Notes nt; Notifier no(&nt); (void)w; (void)wn;
    const strf::transcoding_error_notifier_ptr np{&no};
    auto go = [&](const char* f, const auto& x) { static char k2[200]; std::snprintf(k2, sizeof k2, "%s", g_key); char save[400]; std::memcpy(save, g_key, sizeof save); std::snprintf(g_key, sizeof g_key, "%.150s %s", save, f); outw<C>(strf::pack(np), x); std::snprintf(g_key, sizeof g_key, "%.150s %s notes", save, f); if (std::is_same<C, wchar_t>::value) rec(nt.invalid + nt.unsupported > 0); else rec(nt.invalid, nt.unsupported, nt.sum); nt = Notes(); std::memcpy(g_key, save, sizeof save); };
    const S* const sv = b; (void)n; (void)what;
    go("transcode", strf::transcode(sv)); go("sani", strf::sani(sv)); go(".p2", strf::sani(sv).p(2)); go(">", strf::right(strf::sani(sv), 7, U'\u00B7')); go("^p", strf::sani(sv).p(3) ^ 8);
    const auto f = strf::pack(strf::fast_width); const auto u = strf::pack(strf::width_as_u32len); const auto fu = strf::pack(strf::width_as_fast_u32len);
    go("fast", strf::with(f)(strf::sani(sv).p(2) > 6)); go("u32", strf::with(u)(strf::sani(sv).p(2) > 6)); 
    bool ok = true; for (int i = 0; i < wn; ++i) ok = ok && T[w[i]] >= 0;
    if (ok) { go("fu32", strf::with(fu)(strf::sani(sv).p(2) > 6)); go("unsafe", strf::unsafe_transcode(sv).p(3) > 6); }
}
template <class C, class S> static void strs(const char* nm) {
    int w[3]; S buf[40];
    for (int n = 0; n <= 3; ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= LEN(T);
        for (int x = 0; x < tot; ++x) { int y = x; for (int i = 0; i < n; ++i) { w[i] = y % LEN(T); y /= LEN(T); } if (n == 3 && x % 3) continue; int k = word(w, n, buf); KEY("str %s word %d/%d", nm, n, x); str_one<C, S>(nm, buf, k, w, n); } }
}
// the encoding API of a charset
template <class CS> static void charset(const char* nm, const CS& cs) {
    typedef typename CS::code_unit U;
    KEY("%s char32s", nm);
    std::uint64_t h = 1469598103934665603ull; auto mix = [&](std::uint64_t x) { h = (h ^ x) * 1099511628211ull; };
    for (char32_t c = 0; c < 0x110100; c += (c < 0x3000 || (c & 0xFFF) > 0xFF0) ? 1 : 37) {
        U b[8] = {0}; mix(cs.validate(c)); mix(cs.encoded_char_size(c)); U* e = cs.encode_char(b, c); mix((std::uint64_t)(e - b)); for (U* p = b; p != e; ++p) mix(sizeof(U) == 1 ? (std::uint64_t)(unsigned char)*p : sizeof(U) == 2 ? (std::uint64_t)(std::uint16_t)*p : (std::uint64_t)*p);
        if ((c & 0x3FFFF) == 0x3FFFF) { rec((long)h); }
    }
    rec((long)h, (long)cs.replacement_char_size(), (long)cs.id());
    KEY("%s units", nm); for (unsigned u = 0; u < (sizeof(U) == 1 ? 256u : 0x11000u); ++u) mix(cs.decode_unit((U)u)); rec((long)h);
    { U b[8]; U* e = b; { strf::array_destination<U> d(b, 8); cs.write_replacement_char(d); e = d.finish().ptr; } record(g_u, widen(b, (long)(e - b))); }
    for (char32_t c : {U'a', U'\u00E9', U'\u20AC', U'\U0001F600'}) for (int n : {0, 1, 63, 64, 65, 130}) { static U big[700]; strf::array_destination<U> d(big, 600); cs.encode_fill(d, (std::size_t)n, c); auto f = d.finish(); KEY("%s fill U+%X x %d", nm, (unsigned)c, n); record(g_u, widen(big, (long)(f.ptr - big))); }
    // all words of three units
    const U B[] = {(U)'a', (U)0x80, (U)0xA0, (U)0xC3, (U)0xE2, (U)0xED, (U)0xF0, (U)0x9F, (U)0xFF, sizeof(U) == 1 ? (U)0xBF : (U)0xD83D, sizeof(U) == 1 ? (U)0xF4 : (U)0xDE00, sizeof(U) == 1 ? (U)0x82 : (U)0xFFFF};
    const int nb = LEN(B);
    for (int x = 0; x < nb * nb * nb; ++x) {
        U w[3] = {B[x % nb], B[x / nb % nb], B[x / nb / nb]}; KEY("%s word %d", nm, x);
        char32_t o[8]; auto to32 = cs.to_u32(); auto r = to32.transcode(w, w + 3, o, o + 8, nullptr, strf::transcode_flags::none); auto s = to32.transcode_size(w, w + 3, 100, strf::transcode_flags::stop_on_invalid_sequence);
        record(reinterpret_cast<const std::uint32_t*>(o), (long)(r.dst_ptr - o), (long)(r.src_ptr - w) * 10 + (long)r.stop_reason, (long)s.ssize * 10 + (long)s.stop_reason, (long)(s.src_ptr - w));
        U sb[16]; auto san = cs.sanitizer(); auto r2 = san.transcode(w, w + 3, sb, sb + 16, nullptr, strf::transcode_flags::lax_surrogate_policy); record(g_u, widen(sb, (long)(r2.dst_ptr - sb)), (long)(r2.src_ptr - w));
        auto cc = cs.count_codepoints(w, w + 3, 2); rec((long)cc.count, (long)(cc.ptr - w));
        auto w1 = strf::std_width_calc.str_width_and_pos(cs, strf::width_t(3), w, w + 3); rec((long)w1.width.underlying_value(), (long)(w1.ptr - w), (long)strf::std_width_calc.char_width(cs, w[0]).underlying_value());
    }
    // from UTF-32
    auto from = cs.from_u32(); char32_t in[2]; h = 7;
    for (char32_t c = 0; c < 0x11000; ++c) { in[0] = c; in[1] = 'z'; U o[10]; auto r = from.transcode(in, in + 2, o, o + 10, nullptr, strf::transcode_flags::none); for (U* p = o; p != r.dst_ptr; ++p) mix(sizeof(U) == 1 ? (std::uint64_t)(unsigned char)*p : sizeof(U) == 2 ? (std::uint64_t)(std::uint16_t)*p : (std::uint64_t)*p); mix((std::uint64_t)from.transcode_size(in, in + 2, 50, strf::transcode_flags::stop_on_unsupported_codepoint).ssize); }
    KEY("%s from", nm); rec((long)h);
}
template <class C> static void chars(const char* nm) {
    for (char32_t c : {U'a', U'\u00E9', U'\u20AC', U'\U0001F600', (char32_t)0xD800, (char32_t)0x110000, U'\0'}) { if (std::is_same<C, wchar_t>::value && c > 0x10FFFF) continue; KEY("%s char U+%X", nm, (unsigned)c); out<C>(c, strf::multi(c, 3), strf::right(c, 5, U'\u20AC'), strf::multi(c, 70) ^ 200); }
    for (unsigned u = 0; u < 128; ++u) { KEY("%s own char %u", nm, u); out<C>((C)u, strf::multi((C)u, 5) > 8); }
    const strf::lettercase lcs[] = {strf::lettercase::lower, strf::lettercase::mixed, strf::lettercase::upper};
    for (int l = 0; l < 3; ++l) { KEY("%s bool, pointer %d", nm, l); out<C>(strf::with(lcs[l])(true, false, strf::right(true, 9, U'\u00B7'), strf::left(false, 3), (const void*)0x12345abcdefull, strf::right((const void*)nullptr, 10), strf::center((const void*)(sizeof(void*)), 11, U'-'))); }
}
static void body() {
    strs<char, char>("char char"); strs<char16_t, char>("char16 char"); strs<char, char16_t>("char char16"); strs<char32_t, char>("char32 char"); strs<char, char32_t>("char char32"); strs<wchar_t, char>("wchar char"); strs<char16_t, char16_t>("char16 char16");
    chars<char>("char"); chars<char16_t>("char16"); chars<char32_t>("char32"); chars<wchar_t>("wchar");
    charset("UTF-8", strf::utf8_t<char>{}); charset("UTF-16", strf::utf16_t<char16_t>{}); charset("UTF-32", strf::utf32_t<char32_t>{}); charset("UTF-8 dyn", strf::utf8_t<char>{}.to_dynamic());
#define SBC(x) charset(#x, strf::x##_t<char>{}); { KEY(#x " print"); const char in[] = "a\x80\x9F\xA4\xBF\xE9\xFF"; const auto c = strf::x##_t<char>{}; out<char>(strf::transcode(in, c), strf::sani(in, c).p(4) > 9); out<char16_t>(strf::transcode(in, c)); outw<char>(strf::pack(c), "z", U'\u20AC', U'\u0436', strf::transcode(u"\u20AC\u00E9\u0436\U0001F600"), strf::right(1, 4, U'\u20AC')); }
    SBC(ascii) SBC(iso_8859_1) SBC(iso_8859_2) SBC(iso_8859_3) SBC(iso_8859_5) SBC(iso_8859_7) SBC(iso_8859_15) SBC(windows_1250) SBC(windows_1251) SBC(windows_1252) SBC(windows_1255) SBC(windows_1258)
}
#elif SEC == 3
// ---- compositions, facets, destinations, width_t
template <class T> struct only_int : std::is_integral<T> {};
template <class T> struct only_float : std::is_floating_point<T> {};
struct Pt { int x, y; };
namespace strf {
template <> struct printable_def<Pt> {
    using representative = Pt; using forwarded_type = Pt; using is_overridable = std::true_type; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class C, class Pre, class FP> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, Pt p) { return strf::make_printer<C>(pre, fp, strf::join((C)'(', p.x, (C)',', p.y, (C)')')); }
    template <class C, class Pre, class FP, class... T> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<T...>& a) { auto p = a.value(); return strf::make_printer<C>(pre, fp, strf::join((C)'(', p.x, (C)',', p.y, (C)')').set_alignment_format(a.get_alignment_format())); }
};
}
struct Recase { using category = strf::printable_overrider_c<int>;
    template <class C, class Pre, class FP, class... T> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, const strf::value_and_format<T...>& a) { return strf::make_printer<C>(pre, fp, strf::join((C)'[', +strf::dec((long long)a.value()), (C)']')); }
    template <class C, class Pre, class FP, class T> static auto make_printer(strf::tag<C>, Pre* pre, const FP& fp, T a) { return strf::make_printer<C>(pre, fp, strf::join((C)'[', +strf::dec((long long)a), (C)']')); }
};
struct TrNote { long n = 0, sum = 0; };
struct TrN { using category = strf::tr_error_notifier_c; TrNote* t; template <class CS> void handle(const typename CS::code_unit* b, std::size_t len, CS, std::size_t pos) const noexcept { (void)b; ++t->n; t->sum = t->sum * 31 + (long)(len * 100 + pos); } };
template <class C> struct Lit { C b[128]; int n; explicit Lit(const char* s) : n((int)std::strlen(s)) { for (int i = 0; i <= n; ++i) b[i] = (C)s[i]; } };
template <class C> static void nest(const char* nm) {
    const Lit<C> sep(", "), abc("abc"), lng("a longer text that does not fit in a buffer of sixty-four characters, not at all");
    const int arr[] = {1, -20, 300, 4000}; const double da[] = {1.5, 1e10}; const C* sa[] = {abc.b, sep.b, lng.b};
    for (int n = 0; n <= 4; ++n) for (int a = 0; a < 4; ++a) for (int w : {0, 9, 100}) {
        auto af = strf::alignment_format{a == 1 ? U'\u20AC' : U'*', (std::int16_t)w, a == 0 ? strf::text_alignment::left : a == 2 ? strf::text_alignment::center : strf::text_alignment::right};
        auto go = [&](const char* f, const auto& x) { KEY("%s %s n=%d a=%d w=%d", nm, f, n, a, w); if (a == 3) out<C>(x); else out<C>(strf::join(x, (C)'|').set_alignment_format(af)); };
        go("range", strf::range(arr, arr + n)); go("sep", strf::separated_range(arr, arr + n, sep.b)); go("fmt", *strf::fmt_range(arr, arr + n).hex() > 6); go("fmtsep", +strf::fmt_separated_range(arr, arr + n, sep.b).p(3));
        go("op", strf::range(arr, arr + n, [](int x) { return strf::join(x, (C)';'); })); go("dbl", strf::fmt_separated_range(da, da + (n > 2 ? 2 : n), sep.b).fixed().p(2)); go("strs", strf::separated_range(sa, sa + (n > 3 ? 3 : n), sep.b));
        std::initializer_list<int> il = {7, n, -300}; auto br = [](int x) { return strf::join(x, (C)';'); };
        go("il", strf::range(il)); go("il op", strf::range(il, br)); go("il sep", strf::separated_range(il, sep.b)); go("il sep op", strf::separated_range(il, sep.b, br)); go("il fmt", strf::fmt_range(il).oct().fill(U'~') > 7); go("il fmtsep", +strf::fmt_separated_range(il, sep.b).p(2));
        go("arr", strf::range(arr)); go("arr op", strf::range(arr, br)); go("arr sep", strf::separated_range(arr, sep.b)); go("arr sep op", strf::separated_range(arr, sep.b, br)); go("arr fmt", *strf::fmt_range(arr).hex() < 6); go("arr fmtsep", +strf::fmt_separated_range(arr, sep.b).p(3));
        go("join", strf::join(strf::join_right(12)(1, abc.b, strf::join_center(5, U'~')((C)'x')), strf::join_left((std::int16_t)w, U'.')(strf::range(arr, arr + n), 2.5), lng.b));
        go("user", strf::join(Pt{n, a}, strf::right(Pt{n, w}, (std::int16_t)w))); go("over", strf::with(strf::constrain<only_int>(Recase{}))(n, 1.5, abc.b, strf::right(n, 5)));
        const auto np = strf::numpunct<10>(3); const auto np2 = strf::numpunct<10>(2).thousands_sep('\'');
        go("facets", strf::with(np, strf::constrain<only_float>(np2), strf::lettercase::upper)(!strf::dec(1234567), (C)' ', !strf::fixed(1234567.5), *strf::hex(n + 0xABCDEF), strf::with(np2)(!strf::dec(1234567), strf::with(strf::constrain<only_int>(np), strf::lettercase::lower)(!strf::dec(98765432), !strf::fixed(98765432.0), strf::hex(0xabc)))));
    }
    static const char* trs[] = {"", "{}", "{}{}", "{1}{0}", "a{b", "{{}", "{2}x{}", "{-}{}", "{99}{}", "{}{}{}", "x{ }y", "{12345678901234567890}", "}{", "{0}{0}{0}{0}", "text {} and {} text"};
    for (auto t : trs) { const Lit<C> l(t); TrNote tn; KEY("%s tr '%s'", nm, t); outw<C>(strf::pack(TrN{&tn}), strf::tr(l.b, 10, strf::right(abc.b, 6))); KEY("%s tr '%s' notes", nm, t); rec(tn.n, tn.sum);
        C buf[200]; { auto r = strf::to(buf, 150).with(TrN{&tn}).tr(l.b, 10, abc.b); long n = (long)(r.ptr - buf); KEY("%s .tr '%s'", nm, t); record(g_u, widen(buf, n), r.truncated, buf[n] == 0); } { auto r = strf::to(buf, 20).trline(l.b, 10, lng.b); KEY("%s .trline '%s'", nm, t); long n = (long)(r.ptr - buf); rec(std::is_same<C, wchar_t>::value ? 0 : n, r.truncated, buf[n] == 0); } }
    { C buf[12]; for (std::size_t room = 1; room <= 12; ++room) { auto r = strf::to(buf, room)(abc.b, -5, 1.5, U'\u20AC', (C)'z'); KEY("%s to(buf, %d)", nm, (int)room); record(g_u, std::is_same<C, wchar_t>::value && room < 12 ? 0 : widen(buf, (long)(r.ptr - buf)), r.truncated, *r.ptr == 0); } }
    { strf::discarder<C> d; strf::to(d)(1, abc.b); KEY("%s discarder", nm); rec((long)d.good()); }
}
static void body() {
    nest<char>("char"); nest<char16_t>("char16"); nest<char32_t>("char32"); nest<wchar_t>("wchar");
    // width_t
    const int W[] = {0, 1, -1, 0x8000, 0x7FFF, 0x8001, 0x10000, -0x10000, 0x18000, 0x7FFFFFFF, -0x7FFFFFFF - 1, 0x7FFF0000, 0x12345678, -0x12345678, 0x20000, 98304};
    for (int x : W) { auto a = strf::width_t::from_underlying(x); KEY("width_t %d", x); rec(a.floor(), a.ceil(), a.round());
        for (int y : W) { auto b = strf::width_t::from_underlying(y); KEY("width_t %d %d", x, y); rec((long)strf::sat_add(a, b).underlying_value(), (long)strf::sat_sub(a, b).underlying_value(), (long)strf::sat_mul(a, b).underlying_value()); rec(a < b, a == b, a >= b);
            long long s = (long long)x + y; if (s == (int)s) rec((a + b).underlying_value()); } }
    using namespace strf::width_literal; KEY("width literals"); rec((1.5_w).underlying_value(), (0.00001_w).underlying_value(), (32767_w).underlying_value());
}
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
extern "C" __attribute__((visibility("default"))) void CAT(cfg_sec, SEC)(Cb cb, void* ctx) { g_cb = cb; g_ctx = ctx; body(); }
