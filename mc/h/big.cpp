// C12: magnitudes. Everything that has a count, a width, a precision or a length is printed and measured
// at and around every power of two where a narrower type could wrap, up to 2^31 and beyond.
// The expectation is a run-length encoded text.
#if PART == 5
#  define MC_AS_GB 32     // mappings of the same few megabytes
#endif
#include <string_view>
#include <strf.hpp>
#include <strf/to_string.hpp>
#include <strf/measure.hpp>
#if PART == 5
#  include <strf/to_streambuf.hpp>
#  include <strf/to_cfile.hpp>
#  include <streambuf>
#  include <sys/mman.h>
#  include <unistd.h>
#  include <cerrno>
#endif
#include <deque>
#include <memory>
#include <limits>
#include "mc.hpp"
#include "guard.hpp"
#include "print.hpp"
using std::size_t;
typedef std::int64_t i64;
template <class C> using Str = std::basic_string<C>;

// ---- expectation
struct Run { std::u32string s; i64 n; i64 cols; };     // s repeated n times, each cols columns wide
struct Doc {
    std::vector<Run> r;
    Doc& add(const std::u32string& s, i64 n = 1, i64 cols = -1) { if (n > 0 && !s.empty()) r.push_back({s, n, cols < 0 ? (i64)s.size() : cols}); return *this; }
    Doc& add(const std::string& s, i64 n = 1) { return add(pr::asc32(s), n); }
    Doc& add(const char* s, i64 n = 1) { return add(std::string(s), n); }
    Doc& add(const Doc& d) { for (auto& x : d.r) r.push_back(x); return *this; }
    i64 cols() const { i64 w = 0; for (auto& x : r) w += x.n * x.cols; return w; }
};
static Doc aligned(const Doc& d, int align, i64 W, char32_t fill) {
    i64 n = W - d.cols(); if (align < 0 || n <= 0) return d;
    i64 l = align == 0 ? 0 : align == 1 ? n : n / 2; std::u32string f(1, fill); Doc r; r.add(f, l, 1).add(d).add(f, n - l, 1); return r;
}
template <class C> struct Enc { Str<C> u; i64 n; };
template <class C> static std::vector<Enc<C>> encd(const Doc& d) { std::vector<Enc<C>> r; for (auto& x : d.r) if (!x.s.empty()) r.push_back({pr::enc<C>(x.s), x.n}); return r; }
template <class C> static Str<C> prefix(const std::vector<Enc<C>>& v, size_t max) { Str<C> s; for (auto& x : v) for (i64 i = 0; i < x.n && s.size() < max; ++i) s += x.u; if (s.size() > max) s.resize(max); return s; }

// ---- a destination that compares what it gets, in chunks that end at an inaccessible page
template <class C> class Match final : public strf::destination<C> {
    static Guarded<C>& mem() { static Guarded<C>* g = new Guarded<C>; return *g; }
    const std::vector<Enc<C>>& e_; C* b_; size_t chunk_; size_t i_ = 0; i64 rep_ = 0; size_t off_ = 0;
public:
    bool ok = true; i64 count = 0, recycles = 0;
    Match(const std::vector<Enc<C>>& e, size_t first, size_t chunk) : strf::destination<C>(mem().end_range(first), mem().last()), e_(e), b_(mem().end_range(first)), chunk_(chunk) {}
    void eat(const C* p, const C* q) {
        count += q - p;
        while (p != q && ok) {
            if (i_ == e_.size()) { ok = false; return; }
            auto& u = e_[i_].u;
            if (u.size() == 1) { i64 n = e_[i_].n - rep_; if (q - p < n) n = q - p; C c = u[0]; const C* t = p; for (const C* z = p + n; t != z; ++t) if (*t != c) { ok = false; return; } p += n; rep_ += n; }
            else { if (*p != u[off_]) { ok = false; return; } ++p; if (++off_ == u.size()) { off_ = 0; ++rep_; } }
            if (rep_ == e_[i_].n) { ++i_; rep_ = 0; }
        }
    }
    void recycle() override { eat(b_, this->buffer_ptr()); ++recycles; if ((recycles & 0xFFFF) == 0) mc::alive(); b_ = mem().end_range(chunk_); this->set_buffer_ptr(b_); this->set_buffer_end(mem().last()); }
    bool finish() { eat(b_, this->buffer_ptr()); b_ = this->buffer_ptr(); return ok && i_ == e_.size(); }
};
static const i64 WMAX = 0x7FFFFFFF;
enum { GIANT_STREAM = 1 };
// how: 0 everything; 1 too big to print in the quick tier
template <class C, class E, class K> static void check(const Doc& d, const E& e, const K& key, bool exact_size = false) {
    auto v = encd<C>(d); i64 size = 0; for (auto& x : v) size += (i64)x.u.size() * x.n;
    i64 w = d.cols(); w = w > 32767 ? WMAX : w << 16;
    std::string why; bool slow = false; for (auto& x : v) if (x.u.size() > 1 && x.n > 3000000) slow = true;   // such fills are only measured
    e([&](const auto&... a) {
        using SY = strf::size_presence; using WY = strf::width_presence;
        i64 s = -1;
        { strf::premeasurements<SY::yes, WY::yes> p; strf::measure<C>(&p, strf::pack(), a...); s = (i64)p.accumulated_size();
          if (s < size || (exact_size && s != size)) why += mc::sfmt(" premeasured size is %lld, printed %lld;", (long long)s, (long long)size);
          if (p.accumulated_width().underlying_value() != w) why += mc::sfmt(" premeasured width is %g, expected %g;", p.accumulated_width().underlying_value() / 65536.0, (double)w / 65536.0); }
        { strf::premeasurements<SY::yes, WY::no> p; strf::measure<C>(&p, strf::pack(), a...); if ((i64)p.accumulated_size() != s) why += mc::sfmt(" the size premeasured alone is %lld, with the width %lld;", (long long)p.accumulated_size(), (long long)s); }
        for (i64 lim : {WMAX, (i64)32767 << 16, (i64)32766 << 16, (i64)256 << 16, w - 1, w / 2, (i64)1}) {
            if (lim < 0) continue;
            strf::premeasurements<SY::no, WY::yes> p(strf::width_t::from_underlying((std::int32_t)lim)); strf::measure<C>(&p, strf::pack(), a...);
            i64 m = w < lim ? w : lim;
            if (p.accumulated_width().underlying_value() != m || p.remaining_width().underlying_value() != lim - m) why += mc::sfmt(" width with limit %g is %g, expected %g;", lim / 65536.0, p.accumulated_width().underlying_value() / 65536.0, m / 65536.0);
            mc::step();
        }
        if (slow) return;
        // truncated
        for (size_t room : {(size_t)0, (size_t)1, (size_t)70, (size_t)300}) {
            if (size > 300000000 && (room != 70 || (!mc::thorough() && mc::hash(std::string(key())) % 16))) continue;      // (slow: a truncated destination is filled to the end)
            static C buf[310]; for (auto& c : buf) c = (C)0x3F;
            strf::array_destination<C> ad(buf, room); strf::to(ad)(a...); auto f = ad.finish(); mc::step();
            size_t k = (size_t)(f.ptr - buf); auto exp = prefix<C>(v, room);
            // no incomplete character at the end unless all of it fits
            if (f.truncated != ((i64)room < size) || k > room || std::char_traits<C>::compare(buf, exp.data(), k) != 0 || buf[room] != (C)0x3F) { why += mc::sfmt(" in %zu units: kept %zu, truncated=%d: ", room, k, (int)f.truncated) + pr::sh(Str<C>(buf, k)) + ";"; break; }
        }
        mc::alive();
        if (size < 40000000 || (mc::thorough() && size < 5000000000)) {
            const size_t big = Guarded<C>::page * Guarded<C>::pages / sizeof(C);
            for (auto g : {std::pair<size_t, size_t>{0, 64}, {100, 257}, {big, big}}) {
                if (size > 3000000 && g.second < 100) continue;
                Match<C> m(v, g.first, g.second); strf::to((strf::destination<C>&)m)(a...); mc::step();
                if (!m.finish()) { why += mc::sfmt(" buffers of %zu, then %zu units: %lld units, which are not the %lld expected;", g.first, g.second, (long long)m.count, (long long)size); break; }
            }
            if (s >= size && s < 3000000) {
                std::unique_ptr<C[]> mem(new C[(size_t)s + 1]);
                strf::array_destination<C> ad(mem.get(), (size_t)s); strf::to(ad)(a...); auto f = ad.finish();
                if (f.truncated || f.ptr - mem.get() != size) why += mc::sfmt(" room for the premeasured %lld units: truncated=%d, %lld units;", (long long)s, (int)f.truncated, (long long)(f.ptr - mem.get()));
                auto all = prefix<C>(v, (size_t)size);
                auto s1 = strf::to_basic_string<C>.reserve_calc()(a...); auto s2 = strf::to_basic_string<C>.no_reserve()(a...); auto s3 = strf::to_basic_string<C>.reserve((size_t)(size / 3))(a...);
                if (s1 != all || s2 != all || s3 != all) why += mc::sfmt(" to_string: reserve_calc %zu units%s, no_reserve %zu%s, reserve(n/3) %zu%s, expected %lld;", s1.size(), s1 == all ? "" : " (wrong)", s2.size(), s2 == all ? "" : " (wrong)", s3.size(), s3 == all ? "" : " (wrong)", (long long)size);
                mc::step(4);
            }
        }
    });
    mc::state(mc::hash(std::string(key()) + pr::cname<C>()));
    if (!why.empty()) mc::fail(std::string(pr::cname<C>()) + " " + key(), std::string(pr::cname<C>()) + " " + key() + ":" + why);
    else if (mc::want_sample()) mc::sample(std::string(pr::cname<C>()) + " " + key() + mc::sfmt(" -> %lld units, width %g", (long long)size, w / 65536.0));
}
static const i64 G1 = (i64)1 << 30, G2 = 2147483247, G3 = ((i64)1 << 32) + 5, G4 = ((i64)1 << 31) + 5;
static std::vector<i64> NS() { return {0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 511, 513, 1023, 1025, 4094, 4095, 4096, 4097, 8191, 8193, 16383, 16384, 16385, 32765, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 98304, 131071, 131073, 200001, 262147}; }
static std::vector<i64> NSI() { auto r = NS(); r.push_back(1 << 24); r.push_back((1 << 24) + 3); r.push_back(G1); r.push_back(G2); return r; }
static const short WS[] = {0, 1, 255, 256, 4097, 16384, 32766, 32767};
static const char32_t FILLS[] = {U' ', U'\u00B7', U'\u20AC', U'\U0001F600'};
struct Al { int a; short w; char32_t f; };
static std::vector<Al> ALS(bool few = false) { std::vector<Al> r{{-1, 0, ' '}}; for (int a = 0; a < 3; ++a) for (short w : WS) if (!few || w == 32767 || w == 300) r.push_back({a, w, FILLS[(a + w) % 4]}); return r; }
static strf::alignment_format af(const Al& a) { return strf::alignment_format{a.f, a.w, a.a == 0 ? strf::text_alignment::left : a.a == 2 ? strf::text_alignment::center : strf::text_alignment::right}; }
static std::string als(const Al& a) { return a.a < 0 ? "" : mc::sfmt(" %s %d fill U+%X", a.a == 0 ? "left" : a.a == 1 ? "right" : "center", a.w, (unsigned)a.f); }

// ---- integers: precision and pad0
template <class C, class T> static void ints() {
    struct V { T v; bool neg; const char* dec; const char* hex; const char* grp; };
    std::vector<V> vs{{(T)0, false, "0", "0", "0"}, {(T)7, false, "7", "7", "7"}, {(T)99, false, "99", "63", "99"}, {(T)123, false, "123", "7b", "123"}};
    if (sizeof(T) > 1) vs.push_back({(T)12345, false, "12345", "3039", "12,345"});
    if (std::is_signed<T>::value) vs.push_back({(T)-12345, true, "12345", nullptr, "12,345"});
    for (auto& x : vs) for (i64 N : NSI()) for (int mode = 0; mode < 7; ++mode) for (auto& a : ALS(N > 300 && N != 32767 && N != 65536)) {
        if (!mc::take()) continue;
        const bool hex = mode >= 5, punct = mode == 3 || mode == 4, pad = mode == 1 || mode == 4 || mode == 6;
        if (hex && !x.hex) continue;
        const bool plus = mode == 2;
        std::string pre = hex ? "0x" : x.neg ? "-" : plus && std::is_signed<T>::value ? "+" : "", body = hex ? x.hex : punct ? x.grp : x.dec;
        size_t digits = hex ? body.size() : std::string(x.dec).size();
        i64 z = pad ? N - (i64)(pre.size() + body.size()) : N - (i64)digits;
        Doc d; d.add(pre).add("0", z).add(body); d = aligned(d, a.a, a.w, a.f);
        auto key = [&] { return mc::sfmt("%s%s %s.%s(%lld)", x.neg ? "-" : "", x.dec, mode == 0 || mode == 1 ? "dec" : plus ? "+dec" : punct ? "!dec" : "*hex", pad ? "pad0" : "p", (long long)N) + als(a); };
        const int n = (int)N;
        // one case per kind of specifier: alignment present or not, precision present or not
        auto go = [&](auto f) { if (a.a < 0) check<C>(d, [&](auto k) { k(f); }, key, !punct); else check<C>(d, [&](auto k) { k(std::move(f).set_alignment_format(af(a))); }, key, !punct); };
        switch (mode) {
        case 0: go(strf::dec(x.v).p(n)); break;
        case 1: go(strf::dec(x.v).pad0(n)); break;
        case 2: go(+strf::dec(x.v).p(n)); break;
        case 3: case 4: { auto f = strf::dec(x.v).punct(); auto np = strf::numpunct<10>(3);
            auto run = [&](auto g) { check<C>(d, [&](auto k) { k(strf::join(strf::with(np)(g))); }, key); };
            auto al = [&](auto g) { if (a.a < 0) run(g); else run(std::move(g).set_alignment_format(af(a))); };
            if (mode == 3) al(std::move(f).p(n)); else al(std::move(f).pad0(n)); break; }
        case 5: go((*strf::hex(x.v)).p(n)); break;
        default: go((*strf::hex(x.v)).pad0(n)); break;
        }
    }
}
// ---- floating point: precision and pad0
template <class C> static void floats() {
    struct V { double v; const char *fix, *frac, *sci_i, *sci_f, *sci_e, *hexf; };      // digits of each notation
    const V vs[] = {{0.0, "0", "", "0", "", "e+00", "0x0"}, {1.5, "1", "5", "1", "5", "e+00", "0x1"}, {-1234.25, "1234", "25", "1", "23425", "e+03", nullptr}, {1e22, "10000000000000000000000", "", "1", "", "e+22", nullptr}};
    for (auto& x : vs) for (i64 N : NSI()) for (int mode = 0; mode < 9; ++mode) for (auto& a : ALS(true)) {
        if (!mc::take()) continue;
        if (N < 20) continue;
        const bool neg = x.v < 0; const char* sg = neg ? "-" : ""; Doc d; const int n = (int)N;
        auto L = [](const char* s) { return (i64)std::strlen(s); };
        std::string fr = *x.frac ? std::string(".") + x.frac : "", sf = *x.sci_f ? std::string(".") + x.sci_f : "";
        switch (mode) {
        case 0: d.add(sg).add(x.fix).add(".").add(x.frac).add("0", N - L(x.frac)); break;                                           // fixed.p
        case 1: d.add(sg).add(x.sci_i).add(".").add(x.sci_f).add("0", N - L(x.sci_f)).add(x.sci_e); break;                             // sci.p
        case 2: { d.add(sg).add(x.fix).add(".").add(x.frac).add("0", N - L(x.fix) - L(x.frac)); if (N == L(x.fix)) continue; break; }                              // *gen.p
        case 3: if (!x.hexf) continue; d.add(sg).add(x.hexf).add(".").add(x.v ? "8" : "").add("0", N - (x.v ? 1 : 0)).add("p+0"); break;      // hex.p
        case 4: d.add(sg).add("0", N - (neg + L(x.fix) + (i64)fr.size())).add(x.fix).add(fr); break;                             // fixed.pad0
        case 5: d.add(sg).add("0", N - (neg + L(x.sci_i) + (i64)sf.size() + 4)).add(x.sci_i).add(sf).add(x.sci_e); break;               // sci.pad0
        case 6: d.add(sg).add("0", 9 - neg).add(x.fix).add(".").add(x.frac).add("0", N - L(x.frac)); break;                          // fixed.p.pad0
        case 7: { std::string g; size_t l = std::strlen(x.fix); for (size_t i = 0; i < l; ++i) { if (i && (l - i) % 3 == 0) g += ','; g += x.fix[i]; } d.add(sg).add(g).add(".").add(x.frac).add("0", N - L(x.frac)); break; }  // !fixed.p
        default: d.add(sg).add("0", N - (neg + L(x.fix) + (i64)fr.size())).add(x.fix).add(fr); break;                            // +fixed.pad0 of a negative number, or not
        }
        if (mode == 8 && !neg) { d = Doc{}; d.add("+").add("0", N - (1 + L(x.fix) + (i64)fr.size())).add(x.fix).add(fr); }
        d = aligned(d, a.a, a.w, a.f);
        auto key = [&] { static const char* m[] = {"fixed.p", "sci.p", "*gen.p", "hex.p", "fixed.pad0", "sci.pad0", "fixed.p.pad0", "!fixed.p", "+fixed.pad0"}; return mc::sfmt("%g %s(%lld)", x.v, m[mode], (long long)N) + als(a); };
        auto go = [&](auto f) { if (a.a < 0) check<C>(d, [&](auto k) { k(f); }, key); else check<C>(d, [&](auto k) { k(std::move(f).set_alignment_format(af(a))); }, key); };
        switch (mode) {
        case 0: go(strf::fixed(x.v).p(n)); break;
        case 1: go(strf::sci(x.v).p(n)); break;
        case 2: go((*strf::gen(x.v)).p(n)); break;
        case 3: go(strf::hex(x.v).p(n)); break;
        case 4: go(strf::fixed(x.v).pad0(n)); break;
        case 5: go(strf::sci(x.v).pad0(n)); break;
        case 6: { int pad = (int)(9 + L(x.fix) + 1 + N); go(strf::fixed(x.v).p(n).pad0(pad)); break; }
        case 7: { auto np = strf::numpunct<10>(3); auto f = (!strf::fixed(x.v)).p(n); auto run = [&](auto g) { check<C>(d, [&](auto k) { k(strf::with(np)(g)); }, key); }; if (a.a < 0) run(f); else run(std::move(f).set_alignment_format(af(a))); break; }
        default: go((+strf::fixed(x.v)).pad0(n)); break;
        }
    }
}
// ---- characters, strings
template <class C> static void chars() {
    auto ns = NSI(); ns.push_back(G3); ns.push_back(G4); ns.push_back(3 * G1);
    for (i64 N : ns) for (auto& a : ALS(N > 300 && N != 32767 && N != 65536)) for (char32_t ch : {U'a', U'\u00E9', U'\uFF01', U'\U0001F600', U'\u0000'}) {
        if (!mc::take()) continue;
        Doc d; i64 cw = ch == U'\uFF01' || ch == U'\U0001F600' ? 2 : 1; d.add(std::u32string(1, ch), N, cw); d = aligned(d, a.a, a.w, a.f);
        auto key = [&] { return mc::sfmt("multi(U+%X, %lld)", (unsigned)ch, (long long)N) + als(a); };
        if (a.a < 0) check<C>(d, [&](auto k) { k(strf::multi(ch, (size_t)N)); }, key, true);
        else check<C>(d, [&](auto k) { k(strf::multi(ch, (size_t)N).set_alignment_format(af(a))); }, key, true);
        if (ch == 'a') { if (a.a < 0) check<C>(d, [&](auto k) { k(strf::multi((C)'a', (size_t)N)); }, [&] { return key() + " same type"; }, true); else check<C>(d, [&](auto k) { k(strf::multi((C)'a', (size_t)N).set_alignment_format(af(a))); }, [&] { return key() + " same type"; }, true); }
    }
}
template <class C, class S> static void strings() {
    for (i64 N : NS()) for (char32_t ch : {U'a', U'\u00E9', U'\uFF01', U'\U0001F600'}) {
        std::vector<std::pair<Doc, Str<S>>> docs; i64 cw = ch == U'\uFF01' || ch == U'\U0001F600' ? 2 : 1;
        std::u32string one(1, ch); { Doc d; d.add(one, N, cw); Str<S> s; auto u = pr::enc<S>(one); for (i64 i = 0; i < N; ++i) s += u; docs.push_back({d, s}); }
        if (N > 2) { Doc d; d.add("x").add(one, N - 2, cw).add("z"); Str<S> s(1, (S)'x'); auto u = pr::enc<S>(one); for (i64 i = 0; i < N - 2; ++i) s += u; s += (S)'z'; docs.push_back({d, s}); }
        for (auto& p : docs) for (auto& a : ALS(true)) for (int prec : {-1, 0, 1, 255, 256, 16384, 32766, 32767}) for (int cv = 0; cv < 2; ++cv) {
            if (!mc::take()) continue;
            Doc d; i64 left = prec < 0 ? (i64)1 << 40 : prec;
            for (auto& r : p.first.r) { i64 n = r.n; if (n * r.cols > left) n = left / r.cols; d.add(r.s, n, r.cols); left -= n * r.cols; if (n < r.n) { d.r.push_back({U"", 1, left}); break; } }     // (as documented, a cut string has the width of the limit)
            d = aligned(d, a.a, a.w, a.f);
            auto& s = p.second;
            auto key = [&] { return mc::sfmt("string<%s> of %lld x U+%X%s%s%s", pr::cname<S>(), (long long)N, (unsigned)ch, p.first.r.size() > 1 ? " in x, z" : "", prec < 0 ? "" : mc::sfmt(" p(%d)", prec).c_str(), cv ? " sani" : "") + als(a); };
            auto go = [&](auto f) {
                auto g2 = [&](auto g) { check<C>(d, [&](auto k) { k(g); }, key); };
                auto pp = [&](auto g) { if (prec < 0) g2(g); else g2(std::move(g).p((short)prec)); };
                if (a.a < 0) pp(f); else pp(std::move(f).set_alignment_format(af(a)));
            };
            if (cv) go(strf::sani(s)); else if constexpr (std::is_same<C, S>::value) { if (a.a < 0 && prec < 0) check<C>(d, [&](auto k) { k(s); }, key, true); else go(strf::fmt(s)); } else go(strf::transcode(s));
        }
    }
}
// ---- ranges, joins, tr-strings
template <class C> static void nests() {
    const Str<C> sep = pr::asc<C>(", "), e1 = pr::asc<C>("[{}]{}{0}");
    for (i64 N : NS()) for (auto& a : ALS(true)) for (int mode = 0; mode < 8; ++mode) {
        if (!mc::take()) continue;
        const std::vector<int> v((size_t)N, 7); const std::deque<int> q((size_t)N, 42); const Str<C> s((size_t)N, (C)'s'); Doc d, one; one.add("s", N);
        auto key = [&] { static const char* m[] = {"range", "separated_range", "fmt_range", "join", "tr", "join of aligned joins", "3 tr", "fmt_separated_range"}; return mc::sfmt("%s of %lld", m[mode], (long long)N) + als(a); };
        auto J = [&](const auto&... x) { d = aligned(d, a.a, a.w, a.f); if (a.a < 0) check<C>(d, [&](auto k) { k(strf::join(x...)); }, key); else check<C>(d, [&](auto k) { k(strf::join(x...).set_alignment_format(af(a))); }, key); };
        switch (mode) {
        case 0: d.add("7", N); J(strf::range(v)); break;
        case 1: d.add(std::u32string(U"42, "), N - 1); if (N) d.add("42"); J(strf::separated_range(q, sep.c_str())); break;
        case 2: d.add("..7", N); J(strf::right(strf::range(v), 3, U'.')); break;
        case 3: d.add(one).add("+").add(one).add("7"); J(s, (C)'+', s, 7); break;
        case 4: d.add("[").add(one).add("]").add("7", N).add(one); J(strf::tr(e1, s, strf::range(v))); break;
        case 5: { Doc i; i.add(one).add("7"); Doc x = aligned(i, 2, 32767, U'-'), y = aligned(x, 0, 300, U'\u20AC'), z = aligned(i, 1, (short)20000, U'.'); d.add(y).add(z); J(strf::join_left(300, U'\u20AC')(strf::join_center((short)32767, U'-')(s, 7)), strf::join_right((short)20000, U'.')(s, 7)); break; }
        case 6: { Doc t = aligned(one, 1, 20000, U'~'); d.add(t).add(t).add(t); auto f = strf::right(s, (short)20000, U'~'); J(strf::tr(pr::asc<C>("{0}{}{0}"), f)); break; }
        default: { if (N > 70000) continue; Doc t = aligned(Doc{}.add("7"), 1, 300, U'~'); for (i64 i = 0; i < 1; ++i) {} std::u32string el(299, U'~'); el += U"7"; d.add(el + U", ", N - 1); if (N) d.add(el); J(strf::fmt_separated_range(v, sep.c_str()).fill(U'~') > 300); break; }
        }
    }
    // sums beyond 2^31 and 2^32
    for (i64 A : {G1, G2, G4, G3}) for (i64 B : {(i64)1, G1, G2, G3}) for (auto& a : ALS(true)) for (int mode = 0; mode < 2; ++mode) {
        if (!mc::take()) continue;
        if (mc::thorough() && (A + B > 2 * G1 || a.w == 300)) { if (a.a >= 0) continue; }
        auto x = strf::multi((C)'a', (size_t)A); auto y = strf::dec(5).p((int)(B > G2 ? G2 : B)); auto z = strf::multi(U'\u20AC', (size_t)B);
        Doc d, dx, dy, dz; dx.add("a", A); dy.add("0", (B > G2 ? G2 : B) - 1).add("5"); dz.add(std::u32string(U"\u20AC"), B, 1);
        auto key = [&] { return mc::sfmt("%s of multi(a, %lld), dec.p, multi(U+20AC, %lld)", mode ? "tr" : "join", (long long)A, (long long)B) + als(a); };
        auto J = [&](const auto&... o) { d = aligned(d, a.a, a.w, a.f); if (a.a < 0) check<C>(d, [&](auto k) { k(strf::join(o...)); }, key, true); else check<C>(d, [&](auto k) { k(strf::join(o...).set_alignment_format(af(a))); }, key, true); };
        if (mode == 0) { d.add(dx).add(dy).add(dz); J(x, y, z); } else { d.add(dz).add(dy).add(dx).add(dx); J(strf::tr(pr::asc<C>("{2}{1}{0}{0}"), x, y, z)); }
    }
}
template <class C> static void misc() {
    for (auto& a : ALS()) {
        if (!mc::take()) continue;
        if (a.a < 0) continue;
        auto key = [&](const char* w) { return [&a, w] { return std::string(w) + als(a); }; };
        auto T = [&](const char* s) { Doc d; d.add(s); return aligned(d, a.a, a.w, a.f); };
        check<C>(T("true"), [&](auto k) { k(strf::fmt(true).set_alignment_format(af(a))); }, key("true"), true);
        check<C>(T("0x10"), [&](auto k) { k(strf::fmt((void*)16).set_alignment_format(af(a))); }, key("pointer"), true);
        check<C>(T("-5"), [&](auto k) { k(strf::fmt(-5).set_alignment_format(af(a))); }, key("-5"), true);
        check<C>(T("1.5"), [&](auto k) { k(strf::fmt(1.5).set_alignment_format(af(a))); }, key("1.5"), true);
        check<C>(T("nan"), [&](auto k) { k(strf::fmt(std::numeric_limits<float>::quiet_NaN()).set_alignment_format(af(a))); }, key("nan"), true);
        check<C>(T("c"), [&](auto k) { k(strf::fmt((C)'c').set_alignment_format(af(a))); }, key("c"), true);
        check<C>(T(""), [&](auto k) { k(strf::fmt(Str<C>()).set_alignment_format(af(a))); }, key("empty"), true);
        check<C>(T(""), [&](auto k) { k(strf::join().set_alignment_format(af(a))); }, key("join()"), true);
    }
    // many arguments, many times
    for (i64 N : {1, 200, 4000}) {
        if (!mc::take()) continue;
        std::vector<Str<C>> v; Doc d; for (i64 i = 0; i < N; ++i) { v.push_back(Str<C>((size_t)(i % 97), (C)'q')); d.add("q", i % 97); }
        check<C>(d, [&](auto k) { k(strf::range(v)); }, [&] { return mc::sfmt("range of %lld strings", (long long)N); }, true);
        std::vector<int> w((size_t)N, -1); Doc e; for (i64 i = 0; i < N; ++i) e.add("_", 32765).add("-1");
        if (N <= 200 || mc::thorough()) check<C>(e, [&](auto k) { k(strf::fmt_range(w).fill(U'_') > (short)32767); }, [&] { return mc::sfmt("fmt_range of %lld > 32767", (long long)N); }, true);
    }
}

#if PART == 5
// ---- the real destinations, at magnitudes where a narrower counter would wrap
struct Sink {              // "a" A times, then tail; accepts limit_ units
    i64 A; std::string tail; i64 limit, got = 0; bool bad = false;
    template <class C> i64 take(const C* s, i64 n) {
        if (n > limit - got) n = limit - got;
        if (n > 0) {
            i64 k = n, p = got; const C* q = s;
            if (p < A) { i64 m = std::min(k, A - p); if (!in_many(q, m)) for (i64 i = 0; i < m;) { i64 c = std::min<i64>(m - i, 4096); if (std::memcmp(q + i, as<C>(), (size_t)c * sizeof(C))) { bad = true; break; } i += c; } q += m; p += m; k -= m; }
            for (; k > 0; --k, ++p, ++q) if (p - A >= (i64)tail.size() || *q != (C)tail[(size_t)(p - A)]) bad = true;
        }
        got += n; return n;
    }
    template <class C> static const C* as() { static C* b = [] { auto* x = new C[4096]; for (int i = 0; i < 4096; ++i) x[i] = (C)'a'; return x; }(); return b; }
    // a huge range of 'a's: the same 16 megabytes of a memory file, mapped again and again
    static constexpr size_t UNIT = (size_t)1 << 24;
    template <class C> static size_t bytes() { return ((size_t)1 << 32) * sizeof(C) + UNIT; }
    template <class C> static const C* many() {
        static C* b = [] {
            int fd = memfd_create("a", 0); if (fd < 0 || ftruncate(fd, (off_t)UNIT)) std::abort();
            C* z = (C*)mmap(nullptr, UNIT, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (z == MAP_FAILED) std::abort(); for (size_t i = 0; i < UNIT / sizeof(C); ++i) z[i] = (C)'a';
            char* m = (char*)mmap(nullptr, bytes<C>(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) std::abort();
            for (size_t o = 0; o < bytes<C>(); o += UNIT) if (mmap(m + o, UNIT, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) std::abort();
            munmap(z, UNIT); close(fd); return (C*)m; }();
        return b; }
    template <class C> static bool in_many(const C* p, i64 n) { const C* z = many<C>(); return p >= z && p + n <= z + bytes<C>() / sizeof(C); }
};
template <class C> struct SB : std::basic_streambuf<C> { Sink* s; std::streamsize xsputn(const C* p, std::streamsize n) override { return (std::streamsize)s->take(p, (i64)n); } typename std::basic_streambuf<C>::int_type overflow(typename std::basic_streambuf<C>::int_type c) override { C x = (C)c; return s->take(&x, 1) == 1 ? c : std::char_traits<C>::eof(); } };
static ssize_t ck_write(void* c, const char* p, size_t n) { i64 k = ((Sink*)c)->take(p, (i64)n); if (k < (i64)n) errno = ENOSPC; return k; }
static const i64 MAGS[] = {255, 256, 65535, 65537, ((i64)1 << 31) - 1, (i64)1 << 31, ((i64)1 << 31) + 5, ((i64)1 << 32) - 1, (i64)1 << 32, ((i64)1 << 32) + 70};
template <class R> static void verdict(const std::string& key, Sink& s, const R& r) {
    const i64 full = s.A + (i64)s.tail.size(), exp = std::min(full, s.limit); const bool ok = s.limit >= full; mc::step();
    if (s.bad) mc::fail(key, key + ": wrong units were delivered");
    if (s.got != exp) mc::fail(key, key + mc::sfmt(": %lld units delivered, expected %lld", (long long)s.got, (long long)exp));
    if ((i64)r.count != exp) mc::fail(key, key + mc::sfmt(": count %lld, expected %lld", (long long)r.count, (long long)exp));
    if (r.success != ok) mc::fail(key, key + mc::sfmt(": success %d", (int)r.success));
    mc::state(mc::hash(key)); mc::alive();
}
template <class C> static void sbufs(const char* nm) {
    for (i64 A : MAGS) for (int way = 0; way < 3; ++way) for (i64 lim : {(i64)1 << 40, ((i64)1 << 31) + 1, ((i64)1 << 32) + 1}) {
        if (!mc::take()) continue;
        if (lim <= A + 3 || lim == (i64)1 << 40) {
            Sink s{A, way == 1 ? std::string("z") : std::string("tail-1"), lim}; SB<C> b; b.s = &s; std::string key = mc::sfmt("%s streambuf, %lld units, way %d, limit %lld", nm, (long long)A, way, (long long)lim);
            if (way == 0) { auto r = strf::to(b)(strf::multi((C)'a', (size_t)A), pr::asc<C>("tail").c_str(), -1); verdict(key, s, r); }
            else if (way == 1) { strf::basic_streambuf_writer<C> w(b); w.write(Sink::many<C>(), (size_t)A); strf::put(w, (C)'z'); auto r = w.finish(); verdict(key, s, r); }
            else { strf::basic_streambuf_writer<C> w(b); i64 n = A; while (n > 0) { i64 m = std::min<i64>(n, ((i64)1 << 30) + 7); w.write(Sink::many<C>(), (size_t)m); n -= m; } strf::to(w)(pr::asc<C>("tail-1").c_str()); auto r = w.finish(); verdict(key, s, r); }
        }
    }
}
static void files() {
    for (i64 A : MAGS) for (int way = 0; way < 3; ++way) for (i64 lim : {(i64)1 << 40, ((i64)1 << 31) + 1, ((i64)1 << 32) + 1}) for (int buf = 0; buf < 2; ++buf) {
        if (!mc::take()) continue;
        if (lim != (i64)1 << 40 && (lim > A + 3 || buf)) continue;      // with stdio's own buffer, what is refused shows later
        Sink s{A, way == 1 ? std::string("z") : std::string("tail-1"), lim}; std::string key = mc::sfmt("%s FILE, %lld units, way %d, limit %lld", buf ? "buffered" : "unbuffered", (long long)A, way, (long long)lim);
        FILE* f = fopencookie(&s, "w", cookie_io_functions_t{nullptr, ck_write, nullptr, nullptr}); if (!buf) setvbuf(f, nullptr, _IONBF, 0);
        if (way == 0) { auto r = strf::to(f)(strf::multi('a', (size_t)A), "tail", -1); fflush(f); verdict(key, s, r); }
        else { strf::narrow_cfile_writer<char, 512> w(f); if (way == 1) { w.write(Sink::many<char>(), (size_t)A); strf::put(w, 'z'); } else { i64 n = A; while (n > 0) { i64 m = std::min<i64>(n, ((i64)1 << 30) + 7); w.write(Sink::many<char>(), (size_t)m); n -= m; } strf::to(w)("tail-1"); } auto r = w.finish(); fflush(f); verdict(key, s, r); }
        fclose(f);
    }
    for (i64 A : {(i64)255, (i64)65536, (i64)1 << 24}) {
        if (!mc::take()) continue;
        FILE* f = fopen("/dev/null", "w"); auto r = strf::wto(f)(strf::multi(L'a', (size_t)A), L"tail"); mc::step();
        if ((i64)r.count != A + 4 || !r.success) mc::fail("wide FILE", mc::sfmt("wide FILE, %lld units: count %lld, success %d", (long long)A + 4, (long long)r.count, (int)r.success));
        fclose(f);
    }
}
template <class C> static void fixed(const char* nm) {       // overlong output into small destinations; a huge one for a small output
    for (i64 A : MAGS) for (int way = 0; way < 5; ++way) {
        if (!mc::take()) continue;
        std::string key = mc::sfmt("%s fixed destination, %lld units, way %d", nm, (long long)A, way); mc::step();
        C b[200]; for (auto& x : b) x = (C)'#'; const size_t cap = 100; const i64 keep = std::min<i64>(A + 1, way == 0 ? 99 : 100); bool tr = false; i64 n = 0;
        auto m = strf::multi((C)'a', (size_t)A);
        if (way == 0) { auto r = strf::to(b, cap)(m, (C)'z'); n = r.ptr - b; tr = r.truncated; if (*r.ptr != 0) mc::fail(key, key + ": not null-terminated"); }
        else if (way == 1) { auto r = strf::to_range(b, cap)(m, (C)'z'); n = r.ptr - b; tr = r.truncated; }
        else if (way == 2) { auto r = strf::to_range(b, b + cap)(m, (C)'z'); n = r.ptr - b; tr = r.truncated; }
        else { strf::array_destination<C> w(b, b + cap); if (way == 3) w.write(Sink::many<C>(), (size_t)A); else for (i64 k = A; k > 0;) { i64 q = std::min<i64>(k, 4096); w.write(Sink::as<C>(), (size_t)q); k -= q; } strf::put(w, (C)'z'); auto r = w.finish(); n = r.ptr - b; tr = r.truncated; }
        if (n != keep) mc::fail(key, key + mc::sfmt(": %lld units kept, expected %lld", (long long)n, (long long)keep));
        if (!tr) mc::fail(key, key + ": truncated is false");
        for (i64 i = 0; i < n; ++i) if (b[i] != (C)'a') { mc::fail(key, key + ": wrong content"); break; }
        for (int i = 101; i < 200; ++i) if (b[i] != (C)'#') { mc::fail(key, key + ": wrote past the end"); break; }
        mc::state(mc::hash(key)); mc::alive();
    }
}
template <class C> static void strs(const char* nm, i64 A) {
    for (int way = 0; way < 3; ++way) {
        if (!mc::take()) continue;
        std::string key = mc::sfmt("%s string, %lld units, way %d", nm, (long long)A, way); mc::step();
        auto m = strf::multi((C)'a', (size_t)A); std::basic_string<C> s;
        if (way == 0) s = strf::to_basic_string<C>.reserve_calc()(m, (C)'z');
        else if (way == 1) s = strf::to_basic_string<C>.reserve((size_t)A + 1)(m, (C)'z');
        else { s.assign(1, (C)'a'); strf::append(s).reserve_calc()(strf::multi((C)'a', (size_t)A - 1), (C)'z'); }
        if ((i64)s.size() != A + 1 || s.back() != (C)'z') mc::fail(key, key + mc::sfmt(": %zu units", s.size()));
        else for (i64 i = 0; i < A; i += 4096) { i64 c = std::min<i64>(4096, A - i); if (std::memcmp(s.data() + i, Sink::as<C>(), (size_t)c * sizeof(C))) { mc::fail(key, key + ": wrong content"); break; } }
        mc::alive();
    }
}
#endif
static void body() {
#if PART == 0
    ints<char, int>(); ints<char16_t, unsigned char>(); misc<char>(); misc<char16_t>(); misc<wchar_t>();
#elif PART == 1
    ints<char32_t, long long>(); ints<char, unsigned long>(); chars<char>(); chars<char16_t>(); chars<char32_t>();
#elif PART == 2
    floats<char>(); floats<char16_t>(); floats<char32_t>();
#elif PART == 3
    strings<char, char>(); strings<char16_t, char16_t>(); strings<char32_t, char>();
#elif PART == 5
    sbufs<char>("narrow"); sbufs<wchar_t>("wide"); files(); fixed<char>("char"); fixed<char16_t>("char16_t"); for (i64 A : {(i64)65536, (i64)1 << 24, ((i64)1 << 31) + 5}) strs<char>("char", A); strs<char16_t>("char16_t", 65536);
#elif PART == 4
    strings<char, char16_t>(); strings<char16_t, char32_t>(); nests<char>(); nests<char16_t>(); nests<char32_t>();
#endif
}
MC_MAIN(body)
