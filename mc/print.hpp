// Checks one print operation against its expected output, in every observable way:
//  * a destination with exactly enough room keeps everything and is not truncated;
//    one unit less gives a prefix and "truncated"; nothing is written outside (guard pages)
//  * any buffer geometry gives the same content; a destination that fails keeps a prefix
//  * the premeasured size is enough (and the printing then never recycles), the width is exact
//  * to_string with and without premeasuring gives the same
// The operation is a callable e(k) that calls k(facets_pack, args...).
#ifndef PRINT_HPP
#define PRINT_HPP
#include <strf.hpp>
#include <strf/to_string.hpp>
#include <strf/destination.hpp>
#include <strf/measure.hpp>
#include "mc.hpp"
#include "guard.hpp"
#include "chunkdst.hpp"
#include "syntax.hpp"
namespace pr {
using std::size_t;
template <class C> const char* cname() { return sizeof(C) == 1 ? (std::is_same<C, char>::value ? "char" : "char8_t") : sizeof(C) == 2 ? "char16_t" : std::is_same<C, wchar_t>::value ? "wchar_t" : "char32_t"; }

// ---- reference encoder
template <class C> inline void put_cp(std::basic_string<C>& s, char32_t c) {
    if constexpr (sizeof(C) == 1) {
        if (c < 0x80) s += (C)c;
        else if (c < 0x800) { s += (C)(0xC0 | c >> 6); s += (C)(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += (C)(0xE0 | c >> 12); s += (C)(0x80 | ((c >> 6) & 63)); s += (C)(0x80 | (c & 63)); }
        else { s += (C)(0xF0 | c >> 18); s += (C)(0x80 | ((c >> 12) & 63)); s += (C)(0x80 | ((c >> 6) & 63)); s += (C)(0x80 | (c & 63)); }
    } else if constexpr (sizeof(C) == 2) {
        if (c < 0x10000) s += (C)c;
        else { c -= 0x10000; s += (C)(0xD800 + (c >> 10)); s += (C)(0xDC00 + (c & 0x3FF)); }
    } else s += (C)c;
}
template <class C> inline std::basic_string<C> enc(const std::u32string& s) { std::basic_string<C> r; for (auto c : s) put_cp(r, c > 0x10FFFF ? U'\uFFFD' : c); return r; }
template <class C> inline std::basic_string<C> asc(const char* s) { std::basic_string<C> r; for (; *s; ++s) r += (C)(unsigned char)*s; return r; }
inline std::u32string asc32(const std::string& s) { std::u32string r; for (unsigned char c : s) r += (char32_t)c; return r; }

template <class C> inline std::string sh(const std::basic_string<C>& s) { return s.size() <= 300 ? mc::show(s) : mc::show(s.substr(0, 200)) + mc::sfmt("...(%zu units)...", s.size()) + mc::show(s.substr(s.size() - 60)); }
struct Opt {
    bool measure = true;         // check premeasured size
    long width = -1;             // expected width in whole columns (-1: do not check)
    std::int64_t w64 = -1;       // or in 1/65536 of a column
    int level = 1;               // 0: exact capacities only, 1: some geometries, 2: all
    bool prefix = true;          // what is kept on overflow is a prefix of the expected output
};

template <class F> struct FnRef;
template <class R, class... A> struct FnRef<R(A...)> {
    void* o; R (*f)(void*, A...);
    template <class L> FnRef(L& l) : o((void*)&l), f([](void* p, A... a) -> R { return (*(L*)p)(a...); }) {}
    R operator()(A... a) const { return f(o, a...); }
};
template <class C>
bool check_core(const std::basic_string<C>& exp, FnRef<void(strf::destination<C>&)> print, FnRef<void(size_t&, std::int64_t&, std::int64_t)> measure,
                FnRef<std::basic_string<C>(int)>* str, const Opt& o, FnRef<std::string()> key) {
    static Guarded<C> mem;
    std::string why;
    const size_t n = exp.size(), page = Guarded<C>::page * Guarded<C>::pages;
    if (n * sizeof(C) > page - 64) { std::fprintf(stderr, "case too long\n"); std::abort(); }
    auto bad = [&](std::string w) { why += w; };
    {   // exactly enough room
        C* b = mem.end_range(n);
        strf::array_destination<C> d(b, mem.last());
        print(d);
        auto f = d.finish(); mc::step();
        size_t k = (size_t)(f.ptr - b);
        if (f.truncated || k != n || std::char_traits<C>::compare(b, exp.data(), n) != 0) {
            std::basic_string<C> got(b, k < n ? k : n);
            ChunkDst<C> c(page / sizeof(C), 64);
            print(c);                         // show what a roomy destination gets
            bad(" capacity equal to the expected size: got " + sh(got) + (f.truncated ? " truncated" : "") + ", a roomy destination gets " + sh(c.finish()) + ";");
        }
    }
    if (n > 0 && why.empty()) {
        size_t room = n - 1; C* b = mem.end_range(room);
        strf::array_destination<C> d(b, mem.last());
        print(d);
        auto f = d.finish(); mc::step();
        size_t k = (size_t)(f.ptr - b);
        if (!f.truncated || k > room || (o.prefix && std::char_traits<C>::compare(b, exp.data(), k) != 0))
            bad(mc::sfmt(" capacity %zu: truncated=%d, kept %zu: ", room, (int)f.truncated, k) + sh(std::basic_string<C>(b, k)) + ";");
    }
    auto chunk = [&](size_t first, size_t ch, long fault) {
        ChunkDst<C> c(first, ch, fault);
        print(c);
        auto& got = c.finish(); mc::step();
        if (fault < 0 ? got != exp : (got.size() > n || (o.prefix && std::char_traits<C>::compare(got.data(), exp.data(), got.size()) != 0)))
            bad(mc::sfmt(" buffer with %zu units, then %zu%s: ", first, ch, fault < 0 ? "" : mc::sfmt(", failing at recycle %ld", fault).c_str()) + sh(got) + ";");
        return c.recycles;
    };
    if (o.level >= 1 && why.empty()) {
        if (o.level == 1) { chunk(0, 64, -1); if (n > 1) chunk(n / 2, 65, -1); if (n > 70) { chunk(n - 1, 64, -1); chunk(3, 64, 1); } }
        else {
            for (size_t first = 0; first <= n + 1 && why.empty(); ++first) { if (first > 140 && first + 70 < n) continue; chunk(first, 64, -1); chunk(first, 67, -1); if (n > 64) chunk(first, 64, 1); }
            chunk(0, 64, 0); if (n > 3) chunk(2, 64, 0);
        }
    }
    const std::int64_t ww = o.w64 >= 0 ? o.w64 : o.width >= 0 ? (std::int64_t)o.width * 65536 : -1;
    if (why.empty() && (o.measure || ww >= 0)) {
        size_t size = 0; std::int64_t w = 0;
        measure(size, w, (std::int64_t)32000 << 16); mc::step();
        if (o.measure && size < n) bad(mc::sfmt(" premeasured size is %zu, printed %zu;", size, n));
        if (ww >= 0 && w != ww) bad(mc::sfmt(" premeasured width is %g, expected %g;", (double)w / 65536.0, (double)ww / 65536.0));
        if (ww >= 0 && o.level >= 1 && why.empty())       // a limited width measures min(limit, width)
            for (std::int64_t lim : {(std::int64_t)0, (std::int64_t)0x8000, (std::int64_t)0x10000, ww / 2, ww - 1, ww, ww + 0x8000, (std::int64_t)0x7FFFFFFF}) {
                if (lim < 0) continue;
                size_t s2; std::int64_t w2; measure(s2, w2, lim); mc::step();
                if (w2 != (ww < lim ? ww : lim) || s2 != size) { bad(mc::sfmt(" premeasured with width limit %g: size %zu, width %g (without: %zu, %g);", (double)lim / 65536, s2, (double)w2 / 65536, size, (double)w / 65536)); break; }
            }
        if (o.measure && o.level >= 1 && why.empty() && size * sizeof(C) < page) if (chunk(size, 64, -1) != 0) bad(mc::sfmt(" the destination had room for the premeasured size (%zu), yet was recycled;", size));
    }
    if (str && o.level >= 2 && why.empty())
        for (int i = 0; i < 3; ++i) if ((*str)(i) != exp) bad(i == 0 ? " to_string;" : i == 1 ? " to_string.reserve_calc;" : " to_string.reserve(3);");
    mc::state(mc::hash(exp));
    if (why.empty()) { if (mc::want_sample()) mc::sample(std::string(cname<C>()) + " " + key() + " -> " + sh(exp)); return true; }
    mc::fail(std::string(cname<C>()) + " " + key(), std::string(cname<C>()) + " " + key() + ": expected " + sh(exp) + ":" + why);
    return false;
}
// what is asked of a sized destination, and what is printed, under every reserve policy; premeasurements of one kind only
template <class C, class E, class K> void policies(const std::basic_string<C>& exp, const E& e, const Opt& o, const K& key) {
    std::string why; const C nl = (C)'\n'; const std::basic_string<C> line = exp + nl;
    size_t s = 0; std::int64_t w = 0;
    e([&](const auto& fp, const auto&... a) {
        strf::premeasurements<strf::size_presence::yes, strf::width_presence::yes> b; strf::measure<C>(&b, fp, a...);
        s = b.accumulated_size(); w = b.accumulated_width().underlying_value();
        strf::premeasurements<strf::size_presence::yes, strf::width_presence::no> z; strf::measure<C>(&z, fp, a...);
        if (z.accumulated_size() != s) why += mc::sfmt(" the size premeasured alone is %zu, with the width %zu;", z.accumulated_size(), s);
        for (std::int64_t lim : {(std::int64_t)0x7FFFFFFF, w, w / 2, (std::int64_t)0x8000}) {
            strf::premeasurements<strf::size_presence::no, strf::width_presence::yes> x{strf::width_t::from_underlying((std::int32_t)lim)}; strf::measure<C>(&x, fp, a...);
            std::int64_t m = w < lim ? w : lim;
            if (x.accumulated_width().underlying_value() != m || x.remaining_width().underlying_value() != lim - m) why += mc::sfmt(" the width premeasured alone with limit %g is %g, expected %g;", (double)lim / 65536, (double)x.accumulated_width().underlying_value() / 65536, (double)m / 65536);
        }
        mc::step(6);
    });
    std::int64_t ww = o.w64 >= 0 ? o.w64 : o.width >= 0 ? (std::int64_t)o.width * 65536 : -1;
    if (ww >= 0 && ww <= 0x7FFFFFFF && ww != w) why += mc::sfmt(" premeasured width is %g, expected %g;", (double)w / 65536, (double)ww / 65536);
    if (s < exp.size()) why += mc::sfmt(" premeasured size is %zu, printed %zu;", s, exp.size());
    auto chk = [&](const char* what, const std::basic_string<C>& got, const std::basic_string<C>& x, const SynLog& l, size_t asked, bool sized) {
        mc::step();
        if (got != x) why += std::string(" ") + what + ": got " + sh(got) + ";";
        if (l.creations != 1 || l.sized != sized || (sized && l.asked != asked)) why += mc::sfmt(" %s: created %ld times, asked for %zu, expected %zu;", what, l.creations, l.asked, asked);
        if (sized && asked >= x.size() && l.recycles) why += mc::sfmt(" %s: recycled although the %zu units asked for are enough for %zu;", what, asked, x.size());
    };
    e([&](const auto& fp, const auto&... a) {
        for (size_t first : {(size_t)0, exp.size() / 2, exp.size()}) {
            SynLog l; strf::printing_syntax<Creator<C>> ps{Creator<C>{first, 64, &l}};
            chk("no_reserve()", ps.with(fp)(a...), exp, l, 0, false);
            if (o.level >= 2) { l = {}; chk("no_reserve().line", ps.with(fp).line(a...), line, l, 0, false); }
        }
        SynLog l; strf::printing_syntax<Creator<C>> ps{Creator<C>{0, 66, &l}};
        chk("reserve_calc()", ps.with(fp).reserve_calc()(a...), exp, l, s, true); l = {};
        chk("reserve_calc().line", ps.reserve_calc().with(fp).line(a...), line, l, s + 1, true); l = {};
        if (o.level >= 2) { chk("reserve(n)", ps.reserve(exp.size()).with(fp)(a...), exp, l, exp.size(), true); l = {};
            size_t half = exp.size() / 2 + 1; chk("reserve(n/2).line", ps.with(fp).reserve(half).line(a...), line, l, half, true); l = {}; }
    });
    if (!why.empty()) mc::fail(std::string(cname<C>()) + " " + key() + " [policies]", std::string(cname<C>()) + " " + key() + ": expected " + sh(exp) + ":" + why);
}
// Flags: 1 to_string, 2 every kind of premeasurement and every reserve policy
template <int Flags = 0, class C, class E, class K>
bool check(const std::basic_string<C>& exp, const E& e, const Opt& o, const K& key) {
    auto print = [&](strf::destination<C>& d) { e([&](const auto& fp, const auto&... a) { strf::to(d).with(fp)(a...); }); };
    auto measure = [&](size_t& s, std::int64_t& w, std::int64_t limit) {
        using P = strf::premeasurements<strf::size_presence::yes, strf::width_presence::yes>;
        P pre = limit == 0x7FFFFFFF ? P() : P(strf::width_t::from_underlying((std::int32_t)limit));
        e([&](const auto& fp, const auto&... a) { strf::measure<C>(&pre, fp, a...); });
        s = pre.accumulated_size(); w = limit - pre.remaining_width().underlying_value();
        if (pre.accumulated_width().underlying_value() != w || pre.has_remaining_width() != (w < limit)) w = -1;
    };
    auto k = [&]() -> std::string { return key(); };
    if constexpr (Flags & 2) if (o.level >= 1) policies<C>(exp, e, o, k);
    if constexpr (Flags & 1) {
        auto str = [&](int i) {
            std::basic_string<C> r;
            e([&](const auto& fp, const auto&... a) {
                if (i == 0) r = strf::to_basic_string<C>.with(fp)(a...);
                else if (i == 1) r = strf::to_basic_string<C>.with(fp).reserve_calc()(a...);
                else r = strf::to_basic_string<C>.with(fp).reserve(3)(a...);
            });
            return r;
        };
        FnRef<std::basic_string<C>(int)> sr(str);
        return check_core<C>(exp, print, measure, &sr, o, k);
    } else return check_core<C>(exp, print, measure, nullptr, o, k);
}
} // namespace pr
#endif
