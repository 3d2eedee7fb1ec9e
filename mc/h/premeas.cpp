// C30: premeasurements.  PART 0: breadth-first exploration of the accumulators (every sequence of operations up to a depth)
// against the documented equations in 64-bit arithmetic; also in constant expressions.  PART 1..4: strf::measure() on every
// sequence of up to three arguments, for every kind of premeasurements, limit and starting point.
#include <string_view>
#include <strf.hpp>
#include <strf/to_string.hpp>
#include <limits>
#include <set>
#include <tuple>
#include "mc.hpp"
using strf::width_t;
using I = std::int64_t;
static width_t W(I v) { return width_t::from_underlying((std::int32_t)v); }
static I V(width_t w) { return w.underlying_value(); }
constexpr I wmax = INT32_MAX, one = 65536;
static I clampw(I v) { return v > wmax ? wmax : v < INT32_MIN ? INT32_MIN : v; }
static bool bad(const std::string& k, const std::string& what) { mc::fail(k, k + ": " + what); return true; }

#if PART == 0
using SP = strf::size_presence; using WP = strf::width_presence;
struct Mod { bool sz, wd; I limit = wmax, width = 0; unsigned long long size = 0;
    bool operator<(const Mod& o) const { return std::tie(limit, width, size) < std::tie(o.limit, o.width, o.size); } };
// one operation: kind 0 add_width, 1 checked_add_width, 2 saturate_width, 3.. add_size with a type
struct Op { int kind; I v; };
static std::vector<Op> ops() {
    std::vector<Op> r;
    for (I v : {I(0), I(1), one / 2, one, one + 1, 2 * one, 13 * one / 4, 10 * one, wmax - one, wmax - 1, wmax}) { r.push_back({0, v}); r.push_back({1, v}); }
    for (I v : {I(-1), -one, I(INT32_MIN)}) r.push_back({1, v});
    r.push_back({2, 0});
    for (I v : {I(0), I(1), I(3), I(255), (I)1 << 31, ((I)1 << 40) + 5}) r.push_back({3, v});
    return r;
}
static std::string show(const Op& o) { return mc::sfmt("%s(%lld)", o.kind == 0 ? "add_width" : o.kind == 1 ? "checked_add_width" : o.kind == 2 ? "saturate_width" : "add_size", (long long)o.v); }
static void model(Mod& m, const Op& o) {
    if (o.kind == 3) { if (m.sz) m.size += (unsigned long long)o.v; return; }
    if (!m.wd) return;
    if (o.kind == 0) m.width = clampw(m.width + o.v);
    else if (o.kind == 1) { if (o.v > 0 && m.width < m.limit) m.width = m.width + o.v >= m.limit ? m.limit : m.width + o.v; }
    else m.width = m.limit;
}
template <class P> void apply(P& p, const Op& o) {
    if (o.kind == 0) p.add_width(W(o.v));
    else if (o.kind == 1) p.checked_add_width(W(o.v));
    else if (o.kind == 2) p.saturate_width();
    else if (o.v <= 255) { switch (o.v & 3) { case 0: p.add_size((short)o.v); break; case 1: p.add_size((unsigned char)o.v); break; default: p.add_size((int)o.v); } }
    else if (o.v >> 32) p.add_size((std::size_t)o.v);
    else p.add_size((std::ptrdiff_t)o.v);
}
template <class P> void judge(P& p, const Mod& m, const std::string& path) {
    mc::step(5);
    I rem = m.wd && m.width < m.limit ? m.limit - m.width : 0, acc = !m.wd ? 0 : m.width <= m.limit ? m.width : m.limit;
    const P& c = p;
    if (V(c.accumulated_width()) != acc) bad(path, mc::sfmt("accumulated_width() is %lld/65536, not %lld", (long long)V(c.accumulated_width()), (long long)acc));
    if (V(c.remaining_width()) != rem) bad(path, mc::sfmt("remaining_width() is %lld/65536, not %lld", (long long)V(c.remaining_width()), (long long)rem));
    if (p.has_remaining_width() != (m.wd && m.width < m.limit)) bad(path, mc::sfmt("has_remaining_width() is %d", (int)p.has_remaining_width()));
    if (c.accumulated_size() != (m.sz ? m.size : 0) || c.accumulated_ssize() != (std::ptrdiff_t)(m.sz ? m.size : 0)) bad(path, mc::sfmt("accumulated size is %zu, not %llu", c.accumulated_size(), m.size));
    for (I v : {I(0), I(1), one / 2, one, 3 * one, 10 * one, wmax - 1, wmax, -one, rem - 1, rem, rem + 1}) {
        if (v > wmax) continue;
        bool want = m.wd && m.width + v < m.limit;
        if (c.remaining_width_greater_than(W(v)) != want) bad(path, mc::sfmt("remaining_width_greater_than(%lld/65536) is %d", (long long)v, (int)!want));
    }
}
template <class P> void bfs(const char* name, P root, Mod m0, int depth) {
    auto O = ops();
    struct Node { P p; Mod m; std::string path; };
    std::vector<Node> cur{{root, m0, std::string(name) + mc::sfmt(" limit %lld/65536", (long long)m0.limit)}};
    std::set<Mod> seen{m0};
    if (mc::take()) judge(root, m0, cur[0].path);
    for (int d = 0; d < depth && !cur.empty(); ++d) {
        std::vector<Node> nxt;
        for (auto& n : cur) for (auto& o : O) {
            P p = n.p; Mod m = n.m; apply(p, o); model(m, o);
            auto path = n.path + " " + show(o);
            if (mc::take()) { judge(p, m, path); P q; q = p; P r(q); judge(r, m, path + " (copied)"); mc::state(mc::mix(mc::mix(mc::mix((unsigned long long)m.limit, (unsigned long long)m.width), m.size), (m.sz ? 1u : 0u) + (m.wd ? 2u : 0u))); if (mc::want_sample()) mc::sample(path); }
            if (seen.insert(m).second) nxt.push_back({p, m, path});
        }
        cur.swap(nxt);
    }
}
template <SP S, WP Wd> void kinds(const char* name) {
    using P = strf::premeasurements<S, Wd>;
    constexpr bool sz = S == SP::yes, wd = Wd == WP::yes;
    static_assert(P::size_demanded == sz && P::width_demanded == wd && P::no_demands == (!sz && !wd) && P::something_demanded == (sz || wd) && P::size_and_width_demanded == (sz && wd), "");
    static_assert(std::is_constructible<P, width_t>::value == wd, "");
    int depth = mc::thorough() ? 5 : 3;
    bfs(name, P(), Mod{sz, wd}, depth);
    if constexpr (wd) for (I l : {I(0), I(1), one / 2, one, 5 * one / 2, 3 * one, 10 * one, 0x7FFF * one, wmax - 1, wmax, I(-1), -one, -wmax}) bfs(name, P(W(l)), Mod{sz, wd, l}, depth);
}
constexpr int in_constant_expression() {
    strf::full_premeasurements p{strf::width_t(5)};
    p.add_size(7); p.add_size(2u); p.checked_add_width(2); p.add_width(1);
    if (p.accumulated_ssize() != 9 || !(p.accumulated_width() == 3) || !(p.remaining_width() == 2) || !p.remaining_width_greater_than(1) || p.remaining_width_greater_than(2)) return 1;
    p.checked_add_width(100);
    if (!(p.accumulated_width() == 5) || p.has_remaining_width()) return 2;
    return 0;
}
static_assert(in_constant_expression() == 0, "");
static_assert(std::is_same<strf::no_premeasurements, strf::premeasurements<SP::no, WP::no>>::value && std::is_same<strf::full_premeasurements, strf::premeasurements<SP::yes, WP::yes>>::value, "");
static void body() {
    kinds<SP::no, WP::no>("no_premeasurements"); kinds<SP::yes, WP::no>("size only"); kinds<SP::no, WP::yes>("width only"); kinds<SP::yes, WP::yes>("full");
    for (long long v : {-5ll, -1ll, 0ll, 1ll, 77ll, 1ll << 33}) { if (!mc::take()) continue; strf::size_accumulator<true> a(v); if (a.accumulated_ssize() != (v < 0 ? 0 : v)) bad(mc::sfmt("size_accumulator(%lld)", v), "wrong initial size"); mc::step(); }
}
#else
#if PART == 1
using C = char;
#define T(s) s
#elif PART == 2
using C = char16_t;
#define T(s) u##s
#elif PART == 3
using C = char32_t;
#define T(s) U##s
#else
using C = wchar_t;
#define T(s) L##s
#endif
using Sv = std::basic_string_view<C>;
// a printable of its own: width 2.5, size 3, counts how often a printer was asked for
static int asked;
struct Own {};
namespace strf { template <> struct printable_def<Own> {
    using representative = Own; using forwarded_type = const Own&; using format_specifiers = strf::tag<>; using is_overridable = std::false_type;
    template <class CT, class Pre, class FP> static auto make_printer(strf::tag<CT>, Pre* pre, const FP&, const Own&) {
        ++asked; pre->add_size(3); pre->checked_add_width(width_t::from_underlying(5 * 32768));
        return [](strf::destination<CT>& d) { CT s[3] = {'o', 'w', 'n'}; d.write(s, 3); };
    } };
}
template <int K> auto arg() {
    if constexpr (K == 0) return -42;
    else if constexpr (K == 1) return Sv(T("abc"));
    else if constexpr (K == 2) return Sv();
    else if constexpr (K == 3) return strf::right(7, 4);
    else if constexpr (K == 4) return strf::join(C('x'), strf::hex(255), C('y'));
    else if constexpr (K == 5) return Own{};
    else return strf::transcode(std::u16string_view(u"e\u0301\u00e8\u4e00")) > 6;       // width 1 + 1 + 2, two fills
}
constexpr int nk = 7;
static const I width_of[nk] = {3 * one, 3 * one, 0, 4 * one, 4 * one, 5 * one / 2, 6 * one};
static const char* const name_of[nk] = {"-42", "\"abc\"", "\"\"", "right(7,4)", "join('x',hex(255),'y')", "Own", "transcode(u\"..\") > 6"};
template <class P, class... A> void run(const std::string& nm, std::initializer_list<int> ks, I limit, const A&... a) {
    constexpr bool sz = P::size_demanded, wd = P::width_demanded;
    C buf[128];
    const std::size_t printed = (std::size_t)(strf::to(buf)(a...).ptr - buf);
    for (I w0 : {I(0), one}) for (int s0 : {0, 5}) {
        if (!mc::take()) continue;
        P p; if constexpr (wd) p = P(W(limit));
        p.add_width(W(w0)); p.add_size(s0);
        asked = 0;
        strf::measure<C>(&p, strf::pack(), a...);
        I acc = w0; int want = 0;
        for (int k : ks) { bool use = sz || (wd && acc < limit); if (use && k == 5) ++want; if (use) acc += width_of[k]; }
        if (acc > limit) acc = limit;
        if (!wd) acc = 0;
        auto key = nm + mc::sfmt(" limit %lld/65536 start %lld,%d %s%s", (long long)limit, (long long)w0, s0, sz ? "size " : "", wd ? "width" : "");
        if (V(p.accumulated_width()) != acc) bad(key, mc::sfmt("width %lld/65536, expected %lld", (long long)V(p.accumulated_width()), (long long)acc));
        if (sz ? p.accumulated_size() < s0 + printed : p.accumulated_size() != 0) bad(key, mc::sfmt("size %zu for %zu characters", p.accumulated_size(), printed));
        if (asked != want) bad(key, mc::sfmt("%d printers were made for the user-defined type, expected %d", asked, want));
        mc::step(3); mc::state(mc::hash(key.data(), key.size()));
        if (mc::want_sample()) mc::sample(key);
    }
}
template <int... K> void seq() {
    std::string nm = "measure("; ((nm += std::string(nm.back() == '(' ? "" : ", ") + name_of[K]), ...); nm += ")";
    using namespace strf;
    run<premeasurements<size_presence::no, width_presence::no>>(nm, {K...}, wmax, arg<K>()...);
    run<premeasurements<size_presence::yes, width_presence::no>>(nm, {K...}, wmax, arg<K>()...);
    for (I l : {wmax, I(0), -one, I(1), one / 2, one, one * 2, one * 5 / 2, one * 3, one * 4, one * 9 / 2, one * 6, one * 13 / 2, one * 7, one * 10, one * 17}) {
        run<premeasurements<size_presence::no, width_presence::yes>>(nm, {K...}, l, arg<K>()...);
        run<premeasurements<size_presence::yes, width_presence::yes>>(nm, {K...}, l, arg<K>()...);
    }
}
template <int A, int B, int... Cs> void third(std::integer_sequence<int, Cs...>) { (seq<A, B, Cs>(), ...); }
template <int A, int... Bs> void second(std::integer_sequence<int, Bs...>) { ((seq<A, Bs>(), third<A, Bs>(std::make_integer_sequence<int, nk>())), ...); }
template <int... As> void first(std::integer_sequence<int, As...>) { seq<>(); ((seq<As>(), second<As>(std::make_integer_sequence<int, nk>())), ...); }
static void body() { first(std::make_integer_sequence<int, nk>()); }
#endif
MC_MAIN(body)
