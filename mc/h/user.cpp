// C28: printable types added by users: they are asked to print the value given, with the formats and facets that apply to them,
// wherever they stand; values forwarded by reference are never copied and never dead; printers are used while alive and all destroyed.
// WHAT selects the character type, PART the kind (and, for char, the form) of the first printable.
#include <string_view>
#include <array>
#include <list>
#include <tuple>
#include "print.hpp"
using std::size_t;
#if WHAT == 0 || WHAT == 4
using C = char;
#elif WHAT == 1 || WHAT == 5
using C = char16_t;
#elif WHAT == 2
using C = wchar_t;
#else
using C = char32_t;
#endif
using S = std::basic_string<C>;
static S A(const char* s) { return pr::asc<C>(s); }
namespace us {
constexpr unsigned ALIVE = 0x5AFE5AFE;
static long live = 0; static std::string err;
static void bad(const std::string& e) { if (err.find(e) == std::string::npos) err += " " + e + ";"; }
static const int LEN[] = {0, 1, 9, 70};
// ---- values. id selects the length of the text
struct ByVal { int id; unsigned magic = ALIVE; explicit ByVal(int i) : id(i) {} ByVal(const ByVal& o) : id(o.id), magic(o.magic) { if (o.magic != ALIVE) bad("a dead value was copied"); } ByVal& operator=(const ByVal&) = delete; ~ByVal() { magic = 0; } };
struct NoCopy { int id; unsigned magic = ALIVE; const NoCopy* self = this; explicit NoCopy(int i) : id(i) {} NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; ~NoCopy() { magic = 0; } };
struct Counted { int id; unsigned magic = ALIVE; const Counted* self = this; explicit Counted(int i) : id(i) {} Counted(const Counted& o) : id(o.id), magic(o.magic), self(o.self) { bad("a value that is forwarded by reference was copied"); } ~Counted() { magic = 0; } };
template <class T> void see(const T& v) { if (v.magic != ALIVE) bad("make_printer() or print() got a dead value"); if constexpr (!std::is_base_of<ByVal, T>::value) if (v.self != &v) bad("make_printer() got another object than the one given"); }
}
using us::ByVal; using us::NoCopy; using us::Counted;
struct K0 : ByVal { using ByVal::ByVal; static constexpr char name = 'V'; };          // by value, no formats
struct K1 : NoCopy { using NoCopy::NoCopy; static constexpr char name = 'R'; };       // by reference, aligned
struct K2 : ByVal { using ByVal::ByVal; static constexpr char name = 'P'; };          // print() and make_printer()
struct K3 : Counted { using Counted::Counted; static constexpr char name = 'F'; };    // by reference, with a format of its own
struct K4 : ByVal { using ByVal::ByVal; static constexpr char name = 'D'; };          // printed as other printables
namespace third { struct K5 : NoCopy { using NoCopy::NoCopy; static constexpr char name = 'A'; }; }    // found through get_printable_def
using third::K5;
struct K6 : ByVal { using ByVal::ByVal; static constexpr char name = 'O'; };          // overridden
struct K7 : ByVal { using ByVal::ByVal; static constexpr char name = 'W'; };          // print() only, by value, no formats
struct K8 : NoCopy { using NoCopy::NoCopy; static constexpr char name = 'X'; };       // print() only, by reference, formats
struct K9 : ByVal { using ByVal::ByVal; static constexpr char name = 'Y'; };          // overridden by a facet with print() only
template <int N> struct kind_t; template <> struct kind_t<7> { using t = K7; }; template <> struct kind_t<8> { using t = K8; }; template <> struct kind_t<9> { using t = K9; }; template <> struct kind_t<0> { using t = K0; }; template <> struct kind_t<1> { using t = K1; }; template <> struct kind_t<2> { using t = K2; }; template <> struct kind_t<3> { using t = K3; };
template <> struct kind_t<4> { using t = K4; }; template <> struct kind_t<5> { using t = K5; }; template <> struct kind_t<6> { using t = K6; };
template <int N> using Kind = typename kind_t<N>::t;
constexpr int NK = 7;
struct Rep5 {};                                      // the representative of K5
template <class T> struct is_13 : std::bool_constant<std::is_same<T, K1>::value || std::is_same<T, K3>::value || std::is_same<T, K8>::value || std::is_same<T, Rep5>::value> {};
// ---- the text of one value
static std::string body(char name, int id, char facet, int mark, char how) { std::string s(1, '<'); s += name; s += how; s += facet; s += (char)('0' + mark); for (int i = 0; i < us::LEN[id]; ++i) s += (char)('a' + i % 26); return s + '>'; }
static char facet_char(strf::lettercase l) { return l == strf::lettercase::upper ? 'U' : l == strf::lettercase::lower ? 'l' : l == strf::lettercase::mixed ? 'm' : '?'; }
template <class CH> struct Out {
    std::string text; const unsigned* watch; unsigned magic = us::ALIVE;
    Out(std::string t, const unsigned* w) : text(std::move(t)), watch(w) { ++us::live; }
    Out(const Out& o) : text(o.text), watch(o.watch), magic(o.magic) { ++us::live; if (o.magic != us::ALIVE) us::bad("a dead printer was copied"); }
    Out& operator=(const Out&) = delete;
    ~Out() { --us::live; magic = 0; }
    void operator()(strf::destination<CH>& d) const {
        if (magic != us::ALIVE) { us::bad("a dead printer was called"); return; }
        if (watch && *watch != us::ALIVE) { us::bad("a printer was called after the value it refers to died"); return; }
        if (text.size() > 20) { CH b[80]; size_t n = 0; for (char c : text) b[n++] = (CH)c; d.write(b, (std::ptrdiff_t)n); } else for (char c : text) strf::put(d, (CH)c);
    }
};
// measuring, in the three ways that are documented
template <int W, class Pre> void count(Pre* pre, size_t n) {
    static_assert(Pre::something_demanded == (Pre::size_demanded || Pre::width_demanded) && Pre::no_demands == !Pre::something_demanded && Pre::size_and_width_demanded == (Pre::size_demanded && Pre::width_demanded), "");
    if constexpr (W == 0) { pre->add_size(n); pre->add_width((strf::width_t)(int)n); }
    else if constexpr (W == 1) { pre->add_size((int)n); pre->checked_add_width((strf::width_t)(int)n); }
    else { if constexpr (Pre::size_demanded) pre->add_size((long)n); if (pre->has_remaining_width()) { if (pre->remaining_width_greater_than((strf::width_t)(int)n)) pre->add_width((strf::width_t)(int)n); else pre->saturate_width(); } }
}
template <class CH, int W, class Rep, class T, class Pre, class FP> Out<CH> mk(Pre* pre, const FP& fp, const T& v, int mark, char how) {
    us::see(v); auto t = body(T::name, v.id, facet_char(strf::use_facet<strf::lettercase_c, Rep>(fp)), mark, how);
    count<W>(pre, t.size());
    if constexpr (std::is_base_of<ByVal, T>::value) return {t, nullptr}; else return {t, &v.magic};
}
// ---- a format specifier of the user
struct Mark {
    template <class T> class fn {
        int m_ = 0;
    public:
        constexpr fn() noexcept = default;
        constexpr explicit fn(int m) noexcept : m_(m) {}
        template <class U> constexpr explicit fn(const fn<U>& u) noexcept : m_(u.get_mark()) {}
        constexpr T&& mark(int m) && noexcept { m_ = m; return static_cast<T&&>(*this); }
        constexpr T& mark(int m) & noexcept { m_ = m; return static_cast<T&>(*this); }
        constexpr T mark(int m) const& noexcept { return T{static_cast<const T&>(*this), strf::tag<Mark>{}, m}; }
        constexpr int get_mark() const noexcept { return m_; }
    };
};
namespace strf {
template <> struct printable_def<K0> { using representative = K0; using forwarded_type = K0;
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const K0& v) { return mk<CH, 0, K0>(pre, fp, v, 0, 'm'); } };
template <> struct printable_def<K1> { using representative = K1; using forwarded_type = const K1&; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const K1& v) { return mk<CH, 1, K1>(pre, fp, v, 0, 'm'); }
    template <class CH, class Pre, class FP, class... F> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const strf::value_and_format<printable_def<K1>, F...>& v) { return strf::make_printer<CH>(pre, fp, strf::join(v.value()).set_alignment_format(v.get_alignment_format())); } };
template <> struct printable_def<K2> { using representative = K2; using forwarded_type = K2; using format_specifiers = strf::tag<Mark, strf::alignment_format_specifier>;
    template <class CH, class FP> static void print(strf::destination<CH>& d, const FP& fp, const K2& v) { strf::no_premeasurements pre; mk<CH, 0, K2>(&pre, fp, v, 0, 'm')(d); }
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const K2& v) { return mk<CH, 0, K2>(pre, fp, v, 0, 'm'); }
    struct Plain { K2 v; int mark; };
    template <class CH, class Pre, class FP, class... F> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const strf::value_and_format<printable_def<K2>, F...>& v);
};
template <> struct printable_def<K3> { using representative = K3; using forwarded_type = const K3&; using is_overridable = std::true_type; using format_specifiers = strf::tag<strf::alignment_format_specifier, Mark>;
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const K3& v) { return mk<CH, 2, K3>(pre, fp, v, 0, 'm'); }
    template <class CH, class Pre, class FP, class... F> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const strf::value_and_format<printable_def<K3>, F...>& v);
};
template <> struct printable_def<K4> { using forwarded_type = K4; using is_overridable = std::true_type;       // representative: K4 by default
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const K4& v) {
        us::see(v); const bool up = strf::use_facet<strf::lettercase_c, K4>(fp) == strf::lettercase::mixed;
        return strf::make_printer<CH>(pre, fp, strf::join((CH)'<', K0(v.id), strf::right(v.id + 10, 5, U'.'), strf::multi((CH)(up ? 'M' : 'l'), us::LEN[v.id]), (CH)'>'));
    } };
template <> struct printable_def<K6> { using representative = K6; using forwarded_type = K6; using is_overridable = std::true_type; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class CH, class Pre, class FP, class T> static auto make_printer(strf::tag<CH>, Pre* pre, const FP&, const T&) { us::bad("the overridden make_printer() was called"); return Out<CH>("", nullptr); } };
}
struct Def5 { using representative = Rep5; using forwarded_type = const K5&; using format_specifiers = strf::tag<>;
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const K5& v) { return mk<CH, 0, Rep5>(pre, fp, v, 0, 'm'); } };
namespace third { Def5 get_printable_def(strf::printable_tag, const K5&); }
// a marked value as a printable of its own
template <class T> struct Marked { const T* v; int mark; };
namespace strf {
template <class T> struct printable_def<Marked<T>> { using representative = Marked<T>; using forwarded_type = Marked<T>;
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const Marked<T>& m) { return mk<CH, 1, T>(pre, fp, *m.v, m.mark, 'f'); } };
template <class CH, class Pre, class FP, class... F> auto printable_def<K2>::make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const strf::value_and_format<printable_def<K2>, F...>& v) { return strf::make_printer<CH>(pre, fp, strf::join(Marked<K2>{&v.value(), v.get_mark()}).set_alignment_format(v.get_alignment_format())); }
template <class CH, class Pre, class FP, class... F> auto printable_def<K3>::make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const strf::value_and_format<printable_def<K3>, F...>& v) { return strf::make_printer<CH>(pre, fp, strf::join(Marked<K3>{&v.value(), v.get_mark()}).set_alignment_format(v.get_alignment_format())); }
}
namespace strf {
template <> struct printable_def<K7> { using representative = K7; using forwarded_type = K7;
    template <class CH, class FP> static void print(strf::destination<CH>& d, const FP& fp, const K7& v) { strf::no_premeasurements pre; mk<CH, 0, K7>(&pre, fp, v, 0, 'p')(d); } };
template <> struct printable_def<K8> { using representative = K8; using forwarded_type = const K8&; using format_specifiers = strf::tag<Mark, strf::alignment_format_specifier>;
    template <class CH, class FP> static void print(strf::destination<CH>& d, const FP& fp, const K8& v) { strf::no_premeasurements pre; mk<CH, 0, K8>(&pre, fp, v, 0, 'p')(d); }
    template <class CH, class FP, class... F> static void print(strf::destination<CH>& d, const FP& fp, const strf::value_and_format<printable_def<K8>, F...>& v) { us::see(v.value()); strf::to(d).with(fp)(strf::join(Marked<K8>{&v.value(), v.get_mark()}).set_alignment_format(v.get_alignment_format())); } };
template <> struct printable_def<K9> { using representative = K9; using forwarded_type = K9; using is_overridable = std::true_type; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class CH, class FP, class T> static void print(strf::destination<CH>&, const FP&, const T&) { us::bad("the overridden print() was called"); } };
}
struct OvW { int id; };
namespace strf { template <> struct printable_def<OvW> { using representative = OvW; using forwarded_type = OvW;
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, OvW o) { return mk<CH, 2, K9>(pre, fp, K9(o.id), 7, 'o'); } }; }
struct Over9 { using category = strf::printable_overrider_c<K9>;
    template <class CH, class FP> void print(strf::destination<CH>& d, const FP& fp, const K9& v) const { strf::no_premeasurements pre; mk<CH, 2, K9>(&pre, fp, v, 7, 'o')(d); }
    template <class CH, class FP, class... F> void print(strf::destination<CH>& d, const FP& fp, const strf::value_and_format<strf::printable_def<K9>, F...>& v) const { us::see(v.value()); strf::to(d).with(fp)(strf::join(OvW{v.value().id}).set_alignment_format(v.get_alignment_format())); } };
struct OvV { int id; };
namespace strf { template <> struct printable_def<OvV> { using representative = K6; using forwarded_type = OvV;
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, OvV o) { return mk<CH, 2, K6>(pre, fp, K6(o.id), 7, 'o'); } }; }
struct Over { using category = strf::printable_overrider_c<K6>;
    template <class CH, class Pre, class FP> auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const K6& v) const { return mk<CH, 2, K6>(pre, fp, v, 7, 'o'); }
    template <class CH, class Pre, class FP, class... F> auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const strf::value_and_format<strf::printable_def<K6>, F...>& v) const { return strf::make_printer<CH>(pre, fp, strf::join(OvV{v.value().id}).set_alignment_format(v.get_alignment_format())); } };

// ---- model
using T32 = std::string;
static T32 pad(const T32& s, int w, char al, char fill = ' ') { int n = w - (int)s.size(); if (n <= 0) return s; int l = al == '<' ? 0 : al == '>' ? n : n / 2; return T32((size_t)l, fill) + s + T32((size_t)(n - l), fill); }
template <int K> char face(bool inner) { return inner ? 'm' : is_13<std::conditional_t<K == 5, Rep5, Kind<K>>>::value ? 'U' : 'l'; }
// form 0 plain, 1 fmt(), 2 formatted
template <int K> T32 expect(int id, int form, bool inner) {
    const char f = face<K>(inner), n = Kind<K>::name;
    if (K == 4) return T32("<") + body('V', id, inner ? 'm' : 'l', 0, 'm') + pad(std::to_string(id + 10), 5, '>', '.') + T32((size_t)us::LEN[id], inner ? 'M' : 'l') + ">";
    if (K == 0 || K == 5) return body(n, id, f, 0, 'm');
    if (K == 7) return body(n, id, f, 0, 'p');
    if (K == 8) return form == 0 ? body(n, id, f, 0, 'p') : pad(body(n, id, f, form == 2 ? 3 : 0, 'f'), form == 2 ? 17 : 0, '^');
    if (K == 9) return form == 0 ? body(n, id, f, 7, 'o') : pad(body(n, id, f, 7, 'o'), form == 2 ? 16 : 0, '>');
    if (K == 6) return form == 0 ? body(n, id, f, 7, 'o') : pad(body(n, id, f, 7, 'o'), form == 2 ? 16 : 0, '>');
    if (K == 1) return pad(body(n, id, f, 0, 'm'), form == 2 ? 16 : 0, '>');
    return form == 0 ? body(n, id, f, 0, 'm') : pad(body(n, id, f, form == 2 ? 3 : 0, 'f'), form == 2 ? 17 : 0, '^');
}
static const Kind<0> o0[] = {Kind<0>(0), Kind<0>(1), Kind<0>(2), Kind<0>(3)}; static const Kind<1> o1[] = {Kind<1>(0), Kind<1>(1), Kind<1>(2), Kind<1>(3)}; static const Kind<2> o2[] = {Kind<2>(0), Kind<2>(1), Kind<2>(2), Kind<2>(3)}; static const Kind<3> o3[] = {Kind<3>(0), Kind<3>(1), Kind<3>(2), Kind<3>(3)};
static const Kind<4> o4[] = {Kind<4>(0), Kind<4>(1), Kind<4>(2), Kind<4>(3)}; static const Kind<5> o5[] = {Kind<5>(0), Kind<5>(1), Kind<5>(2), Kind<5>(3)}; static const Kind<6> o6[] = {Kind<6>(0), Kind<6>(1), Kind<6>(2), Kind<6>(3)};
static const Kind<7> o7[] = {Kind<7>(0), Kind<7>(1), Kind<7>(2), Kind<7>(3)}; static const Kind<8> o8[] = {Kind<8>(0), Kind<8>(1), Kind<8>(2), Kind<8>(3)}; static const Kind<9> o9[] = {Kind<9>(0), Kind<9>(1), Kind<9>(2), Kind<9>(3)};
template <int K> const Kind<K> (&objs())[4] { if constexpr (K == 7) return o7; else if constexpr (K == 8) return o8; else if constexpr (K == 9) return o9; else if constexpr (K == 0) return o0; else if constexpr (K == 1) return o1; else if constexpr (K == 2) return o2; else if constexpr (K == 3) return o3; else if constexpr (K == 4) return o4; else if constexpr (K == 5) return o5; else return o6; }
template <int K> const Kind<K>& obj(int id) { return objs<K>()[id]; }
template <int K, int F, class T> decltype(auto) formed(const T& x) {
    if constexpr (F == 0) return (x);
    else if constexpr (F == 1 || K == 0 || K == 4 || K == 5 || K == 7) return strf::fmt(x);
    else if constexpr (K == 1 || K == 6 || K == 9) return strf::right(x, 16);
    else if constexpr (K == 2) { const auto f = strf::center(x, 17); return f.mark(3); }
    else return strf::fmt(x).mark(3) ^ 17;
}
static S up(const T32& s) { return A(s.c_str()); }
// ---- one case
template <int Flags = 0, class E> void chk(const T32& exp, const std::string& key, const E& e, bool width = true) {
    us::err.clear(); us::live = 0; mc::note("%s", key.c_str());
    pr::Opt o; o.level = 2; if (width) o.width = (long)exp.size();
    pr::check<Flags, C>(up(exp), e, o, [&] { return key; });
    if (us::live != 0) us::bad(mc::sfmt("%ld printers were not destroyed", us::live));
    if (!us::err.empty()) mc::fail(key, std::string(pr::cname<C>()) + " " + key + ":" + us::err);
}
static const auto& facets() { static const auto f = strf::pack(strf::lettercase::lower, strf::constrain<is_13>(strf::lettercase::upper), Over{}, Over9{}); return f; }
static std::string desc(char k, int form, int id) { return mc::sfmt("%s%c%d%s", form == 1 ? "fmt(" : form == 2 ? "formatted(" : "", k, id, form ? ")" : ""); }

template <int K1_, int F1, int K2_, int F2> void pair_() {
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
        if (!mc::take()) continue;
        decltype(auto) a = formed<K1_, F1>(obj<K1_>(i)); decltype(auto) b = formed<K2_, F2>(obj<K2_>(j));
        const T32 x = expect<K1_>(i, F1, false), y = expect<K2_>(j, F2, false), xm = expect<K1_>(i, F1, true), ym = expect<K2_>(j, F2, true);
        const std::string d = desc(Kind<K1_>::name, F1, i) + ", " + desc(Kind<K2_>::name, F2, j);
        const auto& fp = facets();
        chk(x + y, d, [&](auto k) { k(fp, a, b); });
        chk(x + y + x, "join " + d, [&](auto k) { k(fp, strf::join(a, b, a)); });
        for (int w : {0, 1, (int)x.size(), (int)x.size() + 3, (int)(x + y).size(), (int)(x + y).size() + 7, 200}) chk(pad(x + y, w, '^', '.'), "join " + d + mc::sfmt(" ^ %d", w), [&](auto k) { k(fp, strf::join(a, b).fill(U'.') ^ w); });
        chk("{" + x + "}" + y + "," + x + y, "tr " + d, [&](auto k) { k(fp, strf::tr(A("{{{}}{},{0}{1}").c_str(), a, b)); });
        chk(xm + ym + y, "inner pack " + d, [&](auto k) { k(fp, strf::with(strf::lettercase::mixed)(a, b), b); });
        chk(pad(x, 20, '>') + pad(pad(xm, 30, '<') + y + "|" + ym, 150, '>') + x, "nested " + d, [&](auto k) { k(fp, strf::join(a) > 20, strf::join(strf::with(strf::lettercase::mixed)(strf::join(a) < 30), b, (C)'|', strf::with(strf::lettercase::mixed)(b)) > 150, a); });
    }
}
template <int K, int F> void single() {
    using X = Kind<K>; constexpr bool aligned = K == 1 || K == 2 || K == 3 || K == 6; const auto& fp = facets();
    // made in the same expression
    for (int i = 0; i < 4; ++i) {
        if (!mc::take()) continue;
        const T32 x = expect<K>(i, F, false), p = expect<K>(i, 0, false), q = expect<K>(i, 1, false), xm = expect<K>(i, F, true); const std::string d = desc(X::name, F, i) + ", temporary";
        chk<3>(p, d, [&](auto k) { k(fp, X(i)); });
        chk<3>(x + q + p, d + " with formats", [&](auto k) { k(fp, formed<K, F>(static_cast<const X&>(X(i))), strf::fmt(X(i)), X(i)); });
        chk<3>(pad(p + x, 120, '<'), d + " join", [&](auto k) { k(fp, strf::join(X(i), formed<K, F>(static_cast<const X&>(X(i)))) < 120); });
        chk<3>(x + "/" + p, d + " tr", [&](auto k) { k(fp, strf::tr(A("{1}/{0}").c_str(), X(i), formed<K, F>(static_cast<const X&>(X(i))))); });
        chk<3>(xm + x, d + " inner", [&](auto k) { k(fp, strf::with(strf::lettercase::mixed)(formed<K, F>(static_cast<const X&>(X(i)))), formed<K, F>(static_cast<const X&>(X(i)))); });
        chk<3>(p + p + p, d + " thrice", [&](auto k) { k(fp, X(i), strf::join(X(i)), strf::join(strf::join(X(i)))); });
        if constexpr (aligned) chk<3>(pad(expect<K>(i, 1, false), 90, '>', '*') + pad(q, 33, '<'), d + " aligned", [&](auto k) { k(fp, strf::right(X(i), 90, U'*'), strf::fmt(X(i)) < 33); });
        if constexpr (K == 2 || K == 3) chk<3>(pad(body(X::name, i, face<K>(false), 5, 'f'), 90, '<') + pad(body(X::name, i, face<K>(false), 6, 'f'), 40, '>'), d + " marked", [&](auto k) { k(fp, strf::left(X(i), 90).mark(5), strf::right(strf::fmt(X(i)).mark(6), 40)); });
        // make_printer() itself
        strf::premeasurements<strf::size_presence::yes, strf::width_presence::yes> pre; us::err.clear(); us::live = 0;
        { decltype(auto) a = formed<K, F>(obj<K>(i)); auto pf = strf::pack(fp); auto pp = strf::make_printer<C>(&pre, pf, a); ChunkDst<C> c(0, 64); pp(c); pp(c); pp(c);      // a printer may be used again
          const S g = c.finish(); if (g != up(x + x + x) || pre.accumulated_size() < x.size() || pre.accumulated_width() != (strf::width_t)(int)x.size()) us::bad("make_printer() gave " + pr::sh(g) + ", expected three times " + pr::sh(up(x)));
          static_assert(std::is_same<std::remove_cv_t<std::remove_reference_t<strf::printer_type<C, decltype(pre), decltype(pf), std::remove_cv_t<std::remove_reference_t<decltype(a)>>>>>, decltype(pp)>::value, "printer_type");
        }
        if (us::live != 0) us::bad("printers were not destroyed"); if (!us::err.empty()) mc::fail("make_printer " + d, std::string(pr::cname<C>()) + " make_printer " + d + ":" + us::err);
    }
    // ranges
    for (int n = 0; n <= 4; ++n) {
        if (!mc::take()) continue;
        const X* b = objs<K>(); const X* e = b + n; const S sep = A(" ; "); const std::string d = mc::sfmt("range of %d %c", n, X::name) + (F ? F == 1 ? ", fmt()" : ", formatted" : "");
        T32 all, seps, alls2, strs, fm, fs, twice; for (int i = 0; i < n; ++i) { auto x = expect<K>(i, F, false), p = expect<K>(i, 0, false), f = aligned ? pad(expect<K>(i, 1, false), 40, '>', '-') : p;
            all += p; seps += (i ? " ; " : "") + p; alls2 += x; fm += f; fs += (i ? " ; " : "") + f; strs += T32((size_t)us::LEN[i] * 3, 's') + "."; twice += pad(x + p, 100, '^'); }
        chk<3>(all, d, [&](auto k) { k(fp, strf::range(b, e)); });
        chk<3>(seps + all, d + ", separated", [&](auto k) { k(fp, strf::separated_range(b, e, sep.c_str()), strf::range(b, e)); });
        if (n == 4) chk<3>(all + seps, d + ", array", [&](auto k) { k(fp, strf::range(objs<K>()), strf::separated_range(objs<K>(), sep.c_str())); });
        const auto same = [](const X& x) -> const X& { return x; }; const auto form = [](const X& x) -> decltype(auto) { return formed<K, F>(x); }; const auto str = [](const X& x) { return S((size_t)us::LEN[x.id] * 3, (C)'s') + (C)'.'; };
        const auto two = [](const X& x) { return strf::join(formed<K, F>(x), x) ^ 100; }; const auto fresh = [](const X& x) { return X(x.id); };
        chk<3>(all, d + ", identity", [&](auto k) { k(fp, strf::range(b, e, same)); });
        chk<3>(alls2, d + ", formatting function", [&](auto k) { k(fp, strf::range(b, e, form)); });
        chk<3>(strs, d + ", function to string", [&](auto k) { k(fp, strf::range(b, e, str)); });
        chk<3>(pad(strs, 700, '<'), d + ", function to string in a join", [&](auto k) { k(fp, strf::join(strf::range(b, e, str)) < 700); });
        chk<3>(twice, d + ", function to join", [&](auto k) { k(fp, strf::range(b, e, two)); });
        if constexpr (std::is_base_of<ByVal, X>::value) chk<3>(all, d + ", function by value", [&](auto k) { k(fp, strf::range(b, e, fresh)); });
        else chk<3>(all, d + ", function by value", [&](auto k) { k(fp, strf::range(b, e, fresh)); });
        chk<3>(pad(seps + alls2, 555, '>'), d + ", in a join", [&](auto k) { k(fp, strf::join(strf::separated_range(b, e, sep.c_str(), same), strf::range(b, e, form)) > 555); });
        if constexpr (aligned) { chk<3>(fm, d + ", formatted range", [&](auto k) { k(fp, strf::fmt_range(b, e).fill(U'-') > 40); });
            chk<3>(pad(fs, 444, '>') + fm, d + ", formatted separated range", [&](auto k) { k(fp, strf::join(strf::right(strf::fmt_separated_range(b, e, sep.c_str()), 40, U'-')) > 444, strf::right(strf::range(b, e), 40, U'-')); }); }
        if constexpr (K == 2 || K == 3) { T32 m; for (int i = 0; i < n; ++i) m += body(X::name, i, face<K>(false), 4, 'f'); chk<3>(m, d + ", marked range", [&](auto k) { k(fp, strf::fmt_range(b, e).mark(4)); }); }
    }
}
template <int K1_, int F1, int K2_> void second() { if constexpr (K2_ < NK) {
    if constexpr (WHAT == 0) { pair_<K1_, F1, K2_, 0>(); pair_<K1_, F1, K2_, 1>(); pair_<K1_, F1, K2_, 2>(); } else if constexpr (WHAT == 1) pair_<K1_, F1, K2_, (F1 + K2_) % 3>();
    second<K1_, F1, K2_ + 1>(); } }
template <int K, int F> void kind() { single<K, F>(); second<K, F, 0>(); }

// ---- every way to print that does not premeasure: print() is enough for it; tr() keeps its arguments as polymorphic printers
template <class E> void path(const T32& exp, const std::string& key, const E& e) {      // e(to) prints
    const S x = up(exp); std::string why; us::live = 0; us::err.clear(); mc::note("%s", key.c_str());
    auto judge = [&](const S& got, bool trunc, const S& want, bool wtrunc, const char* where, size_t n) { mc::step(); if (got != want || trunc != wtrunc) why += mc::sfmt(" %s %zu: %s%s, expected %s%s;", where, n, pr::sh(got).c_str(), trunc ? " (truncated)" : "", pr::sh(want).c_str(), wtrunc ? " (truncated)" : ""); if (us::live) { us::bad("printers were not destroyed"); us::live = 0; } };
    static C buf[4096];
    for (size_t n : {x.size() + 1, x.size() + 3, x.size() + !x.size(), x.size() / 2 + 1, (size_t)1}) { buf[n] = (C)'#'; auto r = e(strf::to(buf, n)); const size_t k = n > x.size() ? x.size() : n - 1;
        judge(S(buf, (size_t)(r.ptr - buf)), r.truncated, x.substr(0, k), k < x.size(), "array of", n); if (buf[n] != (C)'#') us::bad("written past the end"); }
    for (size_t n : {0, 1, 3, 8, 64, 300}) { ChunkDst<C> c(n, n > 64 ? n : 64); e(strf::to(c)); judge(c.finish(), false, x, false, "a first buffer of", n); }
    if constexpr (std::is_same<C, char>::value) { judge(e(strf::to_string), false, x, false, "to_string", 0); judge(e(strf::to_string.reserve(5)), false, x, false, "to_string.reserve", 5); S s = up("ab"); e(strf::append(s)); judge(s, false, up("ab") + x, false, "append", 0); }
    else { judge(e(strf::to_u16string), false, x, false, "to_u16string", 0); judge(e(strf::to_u16string.reserve(5)), false, x, false, "to_u16string.reserve", 5); }
    why += us::err;
    if (!why.empty()) mc::fail(key, std::string(pr::cname<C>()) + " " + key + ":" + why);
    mc::state(mc::hash(key.data(), key.size()));
    if (mc::want_sample()) mc::sample(key + " -> " + exp);
}
static const auto& to_str() { if constexpr (std::is_same<C, char>::value) return strf::to_string; else return strf::to_u16string; }
template <int K1_, int F1, int K2_, int F2> void paths() {
    constexpr bool prints = K1_ >= 7 || K2_ >= 7;        // some argument cannot be premeasured
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
        if (!mc::take()) continue;
        decltype(auto) a = formed<K1_, F1>(obj<K1_>(i)); decltype(auto) b = formed<K2_, F2>(obj<K2_>(j));
        const T32 x = expect<K1_>(i, F1, false), y = expect<K2_>(j, F2, false), xm = expect<K1_>(i, F1, true), ym = expect<K2_>(j, F2, true);
        const std::string d = desc(Kind<K1_>::name, F1, i) + ", " + desc(Kind<K2_>::name, F2, j);
        const auto& fp = facets();
        const S t1 = A("{}{}"), t2 = A("[{1}{{{0}}{-no}{1}{}");
        path(x + y + x, "args " + d, [&](auto&& to) { return to.with(fp)(a, b, a); });
        path(x + y, "tr " + d, [&](auto&& to) { return to.with(fp).tr(t1.c_str(), a, b); });
        path("[" + y + "{" + x + "}" + y + x, "long tr " + d, [&](auto&& to) { return to.with(fp).tr(t2.c_str(), a, b); });
        path(x + x + y, "join " + d, [&](auto&& to) { return to.with(fp)(a, strf::join(a, b)); });
        if constexpr (!prints) path(xm + y + y + xm, "inner pack " + d, [&](auto&& to) { return to.with(fp)(strf::with(strf::lettercase::mixed)(a), b, b, strf::with(strf::lettercase::mixed)(strf::join(a))); });
        if constexpr (!prints) path(x + y + ym + x, "tr of join and pack " + d, [&](auto&& to) { return to.with(fp).tr(A("{0}{1}{2}").c_str(), strf::join(a, b), strf::with(strf::lettercase::mixed)(b), a); });
        if constexpr (!prints) { const S z = to_str().reserve_calc().with(fp).tr(t1.c_str(), a, b), w = to_str().reserve_calc().with(fp)(a, b); mc::step(2); if (z != up(x + y) || w != z) mc::fail("reserve_calc " + d, "reserve_calc " + d + ": " + pr::sh(z) + " and " + pr::sh(w) + ", expected " + x + y); }
    }
}
template <int K, int F> void path1() {
    using X = Kind<K>; const auto& fp = facets(); constexpr bool aligned = K == 8 || K == 9;
    if constexpr (std::is_base_of<ByVal, X>::value) for (int i = 0; i < 4; ++i) { if (!mc::take()) continue;       // a temporary argument may be moved
        const T32 x = expect<K>(i, F, false), p = expect<K>(i, 0, false); const std::string d = desc(X::name, F, i) + ", temporary";
        path(p + x, d, [&](auto&& to) { return to.with(fp)(X(i), formed<K, F>(static_cast<const X&>(X(i)))); });
        path(p + "," + x + p, "tr " + d, [&](auto&& to) { return to.with(fp).tr(A("{},{}{0}").c_str(), X(i), formed<K, F>(static_cast<const X&>(X(i)))); });
    }
    for (int n = 0; n <= 4; ++n) { if (!mc::take()) continue;
        const X* b = objs<K>(); const X* e = b + n; const S sep = A(" ; "); const std::string d = mc::sfmt("range of %d %c", n, X::name);
        T32 all, seps, fm, forms; for (int i = 0; i < n; ++i) { auto p = expect<K>(i, 0, false); all += p; seps += (i ? " ; " : "") + p; forms += expect<K>(i, F, false); fm += aligned ? pad(expect<K>(i, 1, false), 40, '>', '-') : p; }
        const auto form = [](const X& x) -> decltype(auto) { return formed<K, F>(x); };
        path(all, d, [&](auto&& to) { return to.with(fp)(strf::range(b, e)); });
        path(seps, d + " separated", [&](auto&& to) { return to.with(fp)(strf::separated_range(b, e, sep.c_str())); });
        path(all + "," + seps + forms, d + " in tr", [&](auto&& to) { return to.with(fp).tr(A("{},{}{}").c_str(), strf::range(b, e), strf::separated_range(b, e, sep.c_str()), strf::range(b, e, form)); });
        path(forms, d + " function", [&](auto&& to) { return to.with(fp)(strf::range(b, e, form)); });
        if constexpr (aligned) path(fm + fm, d + " formatted", [&](auto&& to) { return to.with(fp).tr(A("{}{0}").c_str(), strf::fmt_range(b, e).fill(U'-') > 40); });
    }
}
template <int K1_, int K2_> void all_paths() { if constexpr (K2_ < 10) {
    if constexpr (WHAT == 4) { paths<K1_, 0, K2_, 0>(); paths<K1_, 1, K2_, 2>(); paths<K1_, 2, K2_, 1>(); } else paths<K1_, (K1_ + K2_) % 3, K2_, (K1_ + 2) % 3>();
    all_paths<K1_, K2_ + 1>(); } }
static void body_() {
#if WHAT >= 4
    path1<PART, 0>(); path1<PART, 1>(); path1<PART, 2>(); all_paths<PART, 0>();
#elif WHAT == 0
    kind<PART % NK, PART / NK>();            // PART: kind and form
#else
    kind<PART, 0>(); kind<PART, 1>(); kind<PART, 2>();
#endif
}
MC_MAIN(body_)
