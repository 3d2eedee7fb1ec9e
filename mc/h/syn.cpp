// C31: printing-syntax objects. Every chain of operations on them, up to a depth, in every value category, followed by
// every printing function, against a model that is a (creator, reserve policy, facets) triple.
#include <memory>
#include <string_view>
#include "mc.hpp"
#include <strf.hpp>
#if PART == 3
#include <clocale>
#include <cstdio>
#include <cwchar>
#include <functional>
#include <sstream>
#include <strf/to_string.hpp>
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
#endif
using std::size_t;
#if WHAT == 1
using C = char16_t;
#elif WHAT == 2
using C = wchar_t;
#elif WHAT == 3
using C = char32_t;
#else
using C = char;
#endif
using S = std::basic_string<C>;
static S up(const std::string& s) { S r; for (char c : s) if (c != 1) r += (C)c; else if (sizeof(C) == 1) { r += (C)0xEF; r += (C)0xBF; r += (C)0xBD; } else r += (C)0xFFFD; return r; }     // \1: replacement character
static std::string down(const S& s) { std::string r; for (C c : s) r += c >= 32 && c < 127 ? (char)c : c == '\n' ? '$' : '?'; return r; }

// ---- destinations and their creators
struct Log { long creations = 0, recycles = 0, finishes = 0, alive = 0; bool sized = false; size_t asked = 0; int creator = -1; S out; };
static Log lg;
class Base : public strf::destination<C> {
    std::unique_ptr<C[]> mem_; size_t n_; C spare_[80]; C* b_;
public:
    explicit Base(size_t n) : strf::destination<C>(nullptr, nullptr), mem_(new C[n + 1]), n_(n), b_(mem_.get()) { this->set_buffer_ptr(b_); this->set_buffer_end(b_ + n); ++lg.alive; }
    Base(const Base&) = delete;
    ~Base() override { flush(); --lg.alive; }
    void flush() { lg.out.append(b_, this->buffer_ptr()); b_ = this->buffer_ptr(); }
    void recycle() override { flush(); ++lg.recycles; b_ = spare_; this->set_buffer_ptr(b_); this->set_buffer_end(b_ + 80); }
};
struct Result { int creator; bool sized; };
template <bool Sized> struct Fin final : Base { using Base::Base; int id = 0; Fin(size_t n, int i) : Base(n), id(i) {} Result finish() { flush(); ++lg.finishes; return {id, Sized}; } };
template <bool Sized> struct NoFin final : Base { NoFin(size_t n, int) : Base(n) {} };
static void created(int id, bool sized, size_t n) { ++lg.creations; lg.creator = id; lg.sized = sized; lg.asked = n; }
template <template <bool> class D> struct Both {
    using char_type = C; using destination_type = D<false>; using sized_destination_type = D<true>; int id = 9;
    D<false> create() const { created(id, false, 0); return D<false>(3, id); } D<true> create(size_t n) const { created(id, true, n); return D<true>(n, id); } };
struct Plain { using char_type = C; using destination_type = Fin<false>; int id = 9; Fin<false> create() const { created(id, false, 0); return {3, id}; } };
struct Sized { using char_type = C; using sized_destination_type = Fin<true>; int id = 9; Fin<true> create(size_t n) const { created(id, true, n); return {n, id}; } };

// ---- the model
enum Pol { none, calc, given };
struct M { int id; Pol pol; size_t n; int lc, sep; };
static const char* const lcname[] = {"lower", "upper", "mixed"};
static strf::lettercase LC(int i) { return i == 1 ? strf::uppercase : i == 2 ? strf::mixedcase : strf::lowercase; }
static strf::numpunct<10> NP(int i) { return strf::numpunct<10>(3).thousands_sep(i == 1 ? U'.' : U'\''); }
static const std::string& A_(const M& m) { static const std::string l = "0xabc", u = "0XABC", x = "0xABC"; return m.lc == 1 ? u : m.lc == 2 ? x : l; }
static const std::string& B_(const M& m) { static const std::string a = "1234567", b = "1.234.567", c = "1'234'567"; return m.sep == 1 ? b : m.sep == 2 ? c : a; }

static std::vector<std::string> trail;
static std::string path() { std::string s; for (auto& t : trail) s += t; return s; }
struct Push { explicit Push(std::string s) { trail.push_back(std::move(s)); } ~Push() { trail.pop_back(); } };
#if PART == 3      // the destinations of the library itself
static std::function<void()> before; static std::function<S()> after_;
template <class F> void judge(const M&, const char* fn, const std::string& text, long, F&& f) {
    const S want = up(text); mc::step(); before(); S got;
    if constexpr (std::is_same<decltype(f()), S>::value) got = f(); else { f(); got = after_(); }
    if (got != want) { std::string k = path() + fn; mc::fail(k, k + ": printed \"" + down(got) + "\", expected \"" + text + "\""); }
}
#else
template <class F> void judge(const M& m, const char* fn, const std::string& text, long size, F&& f) {      // size: what reserve_calc must ask for; -1: at least the text's
    lg = Log(); const S want = up(text); mc::step();
    std::string why;
    using R = decltype(f());
    if constexpr (std::is_void<R>::value) f(); else { Result r = f(); if (r.creator != m.id || r.sized != (m.pol != none) || lg.finishes != 1) why += mc::sfmt(" returned the result of another finish();"); }
    if (lg.out != want) why += " printed \"" + down(lg.out) + "\", expected \"" + text + "\";";
    if (lg.creations != 1 || lg.creator != m.id) why += mc::sfmt(" %ld destinations created, the last by creator %d, expected one by %d;", lg.creations, lg.creator, m.id);
    if (lg.sized != (m.pol != none)) why += lg.sized ? " a sized destination was created;" : " a destination without size was created;";
    else if (m.pol == given && lg.asked != m.n) why += mc::sfmt(" %zu reserved, expected %zu;", lg.asked, m.n);
    else if (m.pol == calc && (size < 0 ? lg.asked < want.size() : lg.asked != (size_t)size)) why += mc::sfmt(" %zu reserved, expected %s%zu;", lg.asked, size < 0 ? "at least " : "", size < 0 ? want.size() : (size_t)size);
    else if (m.pol == calc && lg.recycles) why += " recycle() was called though the calculated size was reserved;";
    if (lg.alive) why += " the destination was not destroyed;";
    if (!why.empty()) { std::string k = path() + fn; mc::fail(k, k + ":" + why); }
}
#endif
static const S T1 = up("{}-{1}{{{0}"), T2 = up("[{}]{}");
template <class X> void terminals(const X& x, const M& m) {
    const unsigned a = 0xabc; const int b = 1234567; M n = m; n.lc = 2; M o = m; o.lc = 1; o.sep = 2;
    const std::string ab = A_(m) + B_(m);
    const bool q = false;
    auto A = [&] { return *strf::hex(a); }; auto B = [&] { return strf::punct(b); };
    (void)q;
    judge(m, "(a, b)", ab, (long)ab.size(), [&] { return x(A(), B()); });
    judge(m, ".line(a, b)", ab + "\n", (long)ab.size() + 1, [&] { return x.line(A(), B()); });
    judge(m, ".tr(s, a, b)", A_(m) + "-" + B_(m) + "{" + A_(m), -1, [&] { return x.tr(T1, A(), B()); });
    judge(m, ".trline(s, a, b)", A_(m) + "-" + B_(m) + "{" + A_(m) + "\n", -1, [&] { return x.trline(T1, A(), B()); });
    judge(n, "(mixed, a, b)", A_(n) + B_(n), (long)(A_(n) + B_(n)).size(), [&] { return x(strf::mixedcase, A(), B()); });
    judge(o, ".line(np, upper, a, b)", A_(o) + B_(o) + "\n", (long)(A_(o) + B_(o)).size() + 1, [&] { return x.line(NP(2), strf::uppercase, A(), B()); });
    judge(o, ".tr(pack(upper, np), s, a, b)", "[" + A_(o) + "]" + B_(o), -1, [&] { return x.tr(strf::pack(strf::uppercase, NP(2)), T2.c_str(), A(), B()); });
    judge(n, ".trline(mixed, s, a)", "[" + A_(n) + "]\1\n", -1, [&] { return x.trline(strf::mixedcase, T2.c_str(), A()); });
    judge(m, "()", "", 0, [&] { return x(); });
    judge(m, ".line()", "\n", 1, [&] { return x.line(); });
    judge(m, ".tr(s)", "ab", -1, [&] { return x.tr(up("ab").c_str()); });
}
template <class X> void quick(const X& x, const M& m, const char* what) { Push p(what); judge(m, "(b)", B_(m), (long)B_(m).size(), [&] { return x(strf::punct(1234567)); }); }

template <class D, class = void> struct plain : std::false_type {}; template <class D> struct plain<D, std::void_t<typename D::destination_type>> : std::true_type {};
template <class D, class = void> struct sized : std::false_type {}; template <class D> struct sized<D, std::void_t<typename D::sized_destination_type>> : std::true_type {};
template <class X> struct traits;
template <class D, class P, class... F> struct traits<strf::printing_syntax<D, P, F...>> { using creator = D; using policy = P; static constexpr size_t facets = sizeof...(F); };

#if PART == 3
struct Open final : strf::destination<C> { S text; C mem[70]; Open() : strf::destination<C>(mem, mem + 70) {} void restart() { text.clear(); this->set_good(true); this->set_buffer_ptr(mem); }
    void flush() { text.append(mem, this->buffer_ptr()); this->set_buffer_ptr(mem); } void recycle() override { flush(); } };
#endif
static int maxdepth, shard_depth;
template <int D, class X> void explore(const X& x, const M& m);
static const char* const cats[] = {" &", " const &", " &&", " const &&"};

// applies f to a copy of x in each of the four value categories
template <int D, class X, class F> void apply(const X& x, const M& m, const M& after, bool self, bool mutates, const std::string& name, F f) {
    const auto go = [&](auto cat, auto&& obj, X& c) {
        Push p(name + cats[cat.value]);
        auto&& r = f(std::forward<decltype(obj)>(obj));
        using R = std::decay_t<decltype(r)>;
        if (self && !(mutates && (cat.value & 1)) && (const void*)std::addressof(r) != (const void*)std::addressof(c)) mc::fail(path(), path() + " did not return the object itself");
        if (cat.value < 2) quick(c, mutates && cat.value == 0 ? after : m, " (the object before)");
        R y(std::forward<decltype(r)>(r));
        explore<D - 1>(y, after);
    };
    { X c(x); go(std::integral_constant<int, 0>(), c, c); } { X c(x); go(std::integral_constant<int, 1>(), static_cast<const X&>(c), c); }
    { X c(x); go(std::integral_constant<int, 2>(), std::move(c), c); } { X c(x); go(std::integral_constant<int, 3>(), static_cast<const X&&>(c), c); }
}
#define FWD static_cast<decltype(o)&&>(o)
template <int D, class X> void children(const X& x, const M& m) {
    using Cr = typename traits<X>::creator;
    apply<D>(x, m, m, true, false, ".with()", [](auto&& o) -> decltype(auto) { return FWD.with(); });
    for (int lc : {1, 2}) { M n = m; n.lc = lc; apply<D>(x, m, n, false, false, mc::sfmt(".with(%s)", lcname[lc]), [lc](auto&& o) -> decltype(auto) { return FWD.with(LC(lc)); }); }
    for (int s : {1, 2}) { M n = m; n.lc = 3 - s; n.sep = s; const auto np = NP(s); apply<D>(x, m, n, false, false, mc::sfmt(".with(numpunct %d, %s)", s, lcname[3 - s]), [&](auto&& o) -> decltype(auto) { return FWD.with(np, LC(3 - s)); }); }
    if constexpr (plain<Cr>::value) { M n = m; n.pol = none; apply<D>(x, m, n, m.pol == none, false, ".no_reserve()", [](auto&& o) -> decltype(auto) { return FWD.no_reserve(); }); }
    if constexpr (sized<Cr>::value) {
        { M n = m; n.pol = calc; apply<D>(x, m, n, m.pol == calc, false, ".reserve_calc()", [](auto&& o) -> decltype(auto) { return FWD.reserve_calc(); }); }
        { M n = m; n.pol = given; n.n = 5; apply<D>(x, m, n, m.pol == given, m.pol == given, ".reserve(5)", [](auto&& o) -> decltype(auto) { return FWD.reserve((short)5); }); }
        { M n = m; n.pol = given; n.n = 100; apply<D>(x, m, n, m.pol == given, m.pol == given, ".reserve(100u)", [](auto&& o) -> decltype(auto) { return FWD.reserve((size_t)100); }); }
    }
}
template <int D, class X> void explore(const X& x, const M& m) {
    if ((int)trail.size() - 1 == shard_depth && !mc::take()) return;
    if ((int)trail.size() - 1 >= shard_depth || mc::take()) {
        mc::note("%s", path().c_str());
        terminals(x, m);
        struct { int pol, lc, sep; size_t n, f; } st = {m.pol, m.lc, m.sep, m.pol == given ? m.n : 0, traits<X>::facets}; std::uint64_t h = mc::hash(&st.pol, sizeof(int) * 3) ^ (st.n * 31 + st.f) * 0x9e3779b97f4a7c15ull; mc::state(h);
        if (mc::want_sample()) mc::sample(path());
    }
    if constexpr (D > 0) if ((int)trail.size() - 1 < maxdepth) children<D>(x, m);
}
template <class X> void root(const char* name, const X& x, const M& m) { Push p(name); explore<DEPTH>(x, m); }
static void body() {
    maxdepth = DEPTH; shard_depth = DEPTH > 2 ? 2 : 1;
#if PART == 0
    root("make_printing_syntax(creator)", strf::make_printing_syntax(Both<Fin>{1}), M{1, none, 0, 0, 0});
#elif PART == 1
    using B = Both<NoFin>; const B b{2};
    root("printing_syntax(const creator &)", strf::printing_syntax<B>(b), M{2, none, 0, 0, 0});
    root("printing_syntax(creator &&, reserve_calc)", strf::printing_syntax<B, strf::reserve_calc>(B{3}, strf::reserve_calc{}), M{3, calc, 0, 0, 0});
    root("make_printing_syntax(const creator &, reserve_given_space, upper)", strf::make_printing_syntax(b, strf::reserve_given_space{70}, strf::uppercase), M{2, given, 70, 1, 0});
    root("make_printing_syntax(creator &&, no_reserve, mixed, numpunct)", strf::make_printing_syntax(B{4}, strf::no_reserve{}, strf::mixedcase, NP(1)), M{4, none, 0, 2, 1});
    root("printing_syntax()", strf::printing_syntax<B>(), M{9, none, 0, 0, 0});
    root("printing_syntax(), reserve_calc, facets", strf::printing_syntax<B, strf::reserve_calc, strf::numpunct<10>>(), M{9, calc, 0, 0, 0});
#elif PART == 3
    const M m{0, none, 0, 0, 0}; static C buf[300]; static S str; before = [] { str.clear(); std::fill(buf, buf + 300, C()); }; 
    after_ = [] { return S(buf); };
    root("to(array)", strf::to(buf), m); root("to(pointer, count)", strf::to(buf + 0, (size_t)300), m); root("to(pointer, pointer)", strf::to(buf + 0, buf + 300), m);
    { before = [] { std::fill(buf, buf + 300, C()); }; after_ = [] { return S(buf); }; root("to_range(array)", strf::to_range(buf), m); root("to_range(pointer, pointer)", strf::to_range(buf + 0, buf + 300), m); }
    before = [] { str.assign(2, (C)'*'); }; after_ = [] { return str.substr(0, 2) == S(2, (C)'*') ? str.substr(2) : str; }; root("append(string)", strf::append(str), m);
    before = [] {};
#if WHAT == 0
    root("to_string", strf::to_string, m);
#elif WHAT == 1
    root("to_u16string", strf::to_u16string, m);
#elif WHAT == 2
    root("to_wstring", strf::to_wstring, m);
#else
    root("to_u32string", strf::to_u32string, m);
#endif
    root("to_basic_string", strf::to_basic_string<C>, m);
    static Open d; before = [] { d.restart(); }; after_ = [] { d.flush(); return d.text; }; root("to(destination &)", strf::to(static_cast<strf::destination<C>&>(d)), m);
    cookie_io_functions_t io = {nullptr, [](void*, const char* p, size_t n) -> ssize_t { str.append((const C*)p, n / sizeof(C)); return (ssize_t)n; }, nullptr, nullptr};
    static FILE* f = fopencookie(nullptr, "w", io);
    before = [] { str.clear(); }; after_ = [] { std::fflush(f); return str; }; root("to(FILE *)", strf::to<C>(f), m);
#if WHAT == 0 || WHAT == 2
    static std::basic_stringbuf<C> sb; before = [] { sb.str(S()); }; after_ = [] { return sb.str(); };
    root("to(streambuf &)", strf::to(sb), m); root("to(streambuf *)", strf::to(&sb), m);
#endif
#if WHAT == 2
    static FILE* const w = std::tmpfile(); before = [] { std::rewind(w); if (ftruncate(fileno(w), 0)) std::abort(); }; after_ = [] { std::fflush(w); std::rewind(w); S r; for (wint_t c; (c = std::fgetwc(w)) != WEOF;) r += (wchar_t)c; return r; };
    std::setlocale(LC_CTYPE, "C.UTF-8");
    root("wto(FILE *)", strf::wto(w), m);
#endif
#else
    const Plain p{5}; const Sized s{6};
    root("make_printing_syntax(plain creator)", strf::make_printing_syntax(p), M{5, none, 0, 0, 0});
    root("printing_syntax(plain creator)", strf::printing_syntax<Plain>(Plain{8}), M{8, none, 0, 0, 0});
    root("make_printing_syntax(sized creator, reserve_calc)", strf::make_printing_syntax(s, strf::reserve_calc{}), M{6, calc, 0, 0, 0});
    root("printing_syntax(sized creator, reserve_given_space, upper)", strf::printing_syntax<Sized, strf::reserve_given_space, strf::lettercase>(s, strf::reserve_given_space(0), strf::uppercase), M{6, given, 0, 1, 0});
    root("printing_syntax(sized creator)", strf::printing_syntax<Sized, strf::reserve_calc>(Sized{7}), M{7, calc, 0, 0, 0});
#endif
}
MC_MAIN(body)
