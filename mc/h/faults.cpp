// FAM 0, C11: an exception thrown by user code, by the destination or by the allocator, at any call, propagates unchanged,
//   nothing is printed after it, what was printed is a prefix, nothing leaks, and the same objects print again.
// FAM 1, C27: the text does not depend on the room that the destination offers; a destination that fails at any recycle keeps a prefix.
// WHAT selects the character type, PART an eighth of the catalogue of printables.
#include <string_view>
#include <streambuf>
#include <new>
#include <array>
#include <vector>
#include <list>
#include "print.hpp"
#include <strf/to_streambuf.hpp>
using std::size_t;
#if WHAT == 0
using C = char; using O = char16_t;
#elif WHAT == 1
using C = char16_t; using O = char;
#elif WHAT == 2
using C = wchar_t; using O = char16_t;
#else
using C = char8_t; using O = char32_t;
#endif
using S = std::basic_string<C>; using So = std::basic_string<O>;
// ---- the clock of the faults: every call of user code and every allocation is one tick
struct Boom { long n; };
namespace ft {
static long ticks = 0, arm = -1; static bool on = false, alloc_on = false, fired = false, fired_alloc = false;
static void* dst = nullptr; static size_t (*length)(void*) = nullptr; static size_t at_fault = 0;
static long live = 0;
static bool due() { if (!on) return false; if (ticks++ != arm) return false; fired = true; if (dst) at_fault = length(dst); return true; }
}
static void tick() { if (ft::due()) { ft::fired_alloc = false; throw Boom{ft::arm}; } }
void* operator new(size_t n) { if (ft::alloc_on && ft::due()) { ft::fired_alloc = true; throw std::bad_alloc(); } void* p = std::malloc(n ? n : 1); if (!p) std::abort(); ++ft::live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --ft::live; std::free(p); } }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ---- user code that ticks
struct Note : strf::transcoding_error_notifier {
    void invalid_sequence(int, const char*, const void*, std::ptrdiff_t) override { tick(); }
    void unsupported_codepoint(const char*, unsigned) override { tick(); }
};
static Note note;
struct TrNote { using category = strf::tr_error_notifier_c; template <class CS> void handle(const typename CS::code_unit*, std::ptrdiff_t, CS, std::ptrdiff_t) const { tick(); } };
struct Wid { using category = strf::width_calculator_c;
    template <class CS, class CH> strf::width_t char_width(const CS&, CH) const { tick(); return (strf::width_t)2; }
    template <class CS, class CH> strf::width_t str_width(const CS& cs, strf::width_t l, const CH* b, const CH* e) const { tick(); return strf::std_width_calc.str_width(cs, l, b, e); }
    template <class CS, class CH> auto str_width_and_pos(const CS& cs, strf::width_t l, const CH* b, const CH* e) const { tick(); return strf::std_width_calc.str_width_and_pos(cs, l, b, e); } };
// a printable whose make_printer and whose printer tick
struct Val { int i; explicit Val(int k) : i(k) {} };
template <class CH> struct ValP { int i; void operator()(strf::destination<CH>& d) const { strf::to(d)((CH)'<', i); tick(); for (int k = 0; k < 30; ++k) strf::put(d, (CH)('a' + k % 26)); tick(); strf::put(d, (CH)'>'); } };
struct ValR : Val { using Val::Val; };       // the same, forwarded by reference
// a user-defined printable made of others
struct Pair { int a; const C* b; };
// an overridable one
struct Ov { int i; };
namespace strf {
template <> struct printable_def<Val> { using representative = Val; using forwarded_type = Val; using is_overridable = std::false_type;
    template <class CH, class Pre, class FP> static ValP<CH> make_printer(strf::tag<CH>, Pre* pre, const FP&, const Val& v) { tick(); pre->add_size(50); pre->add_width((strf::width_t)35); return {v.i}; } };
template <> struct printable_def<ValR> { using representative = ValR; using forwarded_type = const ValR&; using is_overridable = std::false_type; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class CH, class Pre, class FP> static ValP<CH> make_printer(strf::tag<CH>, Pre* pre, const FP&, const ValR& v) { tick(); pre->add_size(50); pre->add_width((strf::width_t)35); return {v.i}; }
    template <class CH, class Pre, class FP, class F> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const strf::value_and_format<printable_def<ValR>, F>& v) { return strf::make_printer<CH>(pre, fp, strf::join(v.value().i, (CH)'~', 7).set_alignment_format(v.get_alignment_format())); } };
template <> struct printable_def<Pair> { using representative = Pair; using forwarded_type = Pair; using is_overridable = std::false_type;
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, Pair v) { tick(); return strf::make_printer<CH>(pre, fp, strf::join(v.a, (CH)'/', strf::conv(v.b), (CH)'/', strf::right(v.b, 40, U'\u00B7'))); } };
template <> struct printable_def<Ov> { using representative = Ov; using forwarded_type = Ov; using is_overridable = std::true_type;
    template <class CH, class Pre, class FP> static auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, Ov v) { return strf::make_printer<CH>(pre, fp, v.i); } };
}
struct Ovr { using category = strf::printable_overrider_c<Ov>;
    template <class CH, class Pre, class FP> auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, Ov v) const { tick(); return strf::make_printer<CH>(pre, fp, strf::join(U'\u2211', *strf::hex(v.i), strf::multi((CH)'=', 40)) ^ 60); } };
struct OvrInt { using category = strf::printable_overrider_c<int>;
    template <class CH, class Pre, class FP, class A> auto make_printer(strf::tag<CH>, Pre* pre, const FP& fp, const A& a) const { tick(); return strf::make_printer<CH>(pre, fp, strf::join((CH)'[', *strf::hex((unsigned)a.value()), (CH)']')); } };
// an iterator that ticks
struct It { using value_type = int; using difference_type = std::ptrdiff_t; using pointer = const int*; using reference = int; using iterator_category = std::forward_iterator_tag;
    int k; It(int x) : k(x) {} 
    int operator*() const { tick(); return k * 1234567; } It& operator++() { tick(); ++k; return *this; } It operator++(int) { It r = *this; ++*this; return r; }
    bool operator==(const It& o) const { tick(); return k == o.k; } bool operator!=(const It& o) const { tick(); return k != o.k; } };
struct Rng { using const_iterator = It; using value_type = int; int n; It begin() const { tick(); return It(0); } It end() const { tick(); return It(n); } };

static S A(const char* s) { return pr::asc<C>(s); }
static S U(const std::u32string& s) { return pr::enc<C>(s); }
// ---- the catalogue: f(name, facets, printables...)
static const S abc = A("abc"), lng = [] { S s; for (int i = 0; i < 150; ++i) s += (C)('a' + i % 26); return s; }(), mixed = U(U"a\u00E9\u20AC\U0001F600 e\u0301\u0301 \u4E2D\u6587");
static const S bad = [] { S s = A("x"); for (int i = 0; i < 5; ++i) { s += sizeof(C) == 1 ? (C)0xE2 : sizeof(C) == 2 ? (C)0xD800 : (C)0x110000; s += A("yz"); } return s; }();
static const So obad = [] { So s; for (int i = 0; i < 4; ++i) { s += sizeof(O) == 1 ? (O)0xF0 : sizeof(O) == 2 ? (O)0xDC00 : (O)0xDFFF; s += (O)'p'; } return s; }(), olng = pr::enc<O>(U"\u00E9\u20AC\U0001F600"), trs_o = {};
static const S sep = A(", "), trs = A("{}-{ }{1 x}|{{{5}{-c}{"), lsep = U(U" \u2013 ") + S(66, (C)'-');
static const std::vector<int> iv{1, -22, 333, 0, 55555}; static const std::list<S> sl{A("one"), A(""), U(U"\u4E00\u4E8C")}; static const std::array<double, 3> da{0.5, -1e300, 1e-7}; static const int* const ip = iv.data();
struct Fn { int operator()(int x) const { tick(); return x * 3; } }; static const Fn fn;
struct Fj { auto operator()(int x) const { tick(); return strf::join((C)'(', strf::right(x, 12, U'\u00B7'), Val(x), (C)')'); } }; static const Fj fj;
struct Ff { auto operator()(double x) const { tick(); return *strf::sci(x).p(20) > 40; } }; static const Ff ff;
constexpr int NI = 64;
template <int K, class F> void item(F&& f) {
    const strf::transcoding_error_notifier_ptr nt(&note);
    const auto E = strf::pack(); const auto N = strf::pack(nt); const auto W = strf::pack(Wid{}); const auto NW = strf::pack(nt, Wid{}, TrNote{});
    const auto np = strf::numpunct<10>(3).thousands_sep(U'\u2019').decimal_point(U'\u066B');
    const auto ascii = strf::static_charset<C, (sizeof(C) == 1 ? strf::csid_ascii : sizeof(C) == 2 ? strf::csid_utf16 : strf::csid_utf32)>{};
    (void)N; (void)W; (void)NW; (void)np; (void)ascii; (void)E;
    if constexpr (K == 0) f("sani", N, strf::sani(bad));
    else if constexpr (K == 1) f("conv", N, strf::conv(obad), (C)'.', strf::conv(olng));
    else if constexpr (K == 2) f("sani aligned", N, strf::sani(bad) > 60, strf::sani(bad).fill(U'\u20AC') ^ 45);
    else if constexpr (K == 3) f("conv aligned, cut", NW, strf::conv(obad).p(5) < 12, strf::sani(bad).p(6) ^ 20);
    else if constexpr (K == 4) f("widths", W, strf::right(abc, 20), strf::fmt(lng).p(33), strf::center(U'\u00E9', 9), strf::multi((C)'x', 70) > 200);
    else if constexpr (K == 5) f("range with function", E, strf::range(iv, fn));
    else if constexpr (K == 6) f("separated range with function", E, strf::separated_range(iv, lsep.c_str(), fn));
    else if constexpr (K == 7) f("range of joins", N, strf::range(iv, fj));
    else if constexpr (K == 8) f("separated range of joins, aligned", N, strf::join(strf::separated_range(iv, sep.c_str(), fj)) ^ 300);
    else if constexpr (K == 9) f("range of formatted", E, strf::range(da, ff), strf::separated_range(da, sep.c_str(), ff));
    else if constexpr (K == 10) f("user range", E, strf::range(Rng{4}), strf::separated_range(Rng{3}, sep.c_str()), strf::range(It(1), It(4)));
    else if constexpr (K == 11) f("user range, formatted", E, *strf::hex(1) > 20, +strf::fmt_range(Rng{3}).fill('*') > 24, strf::fmt_separated_range(Rng{3}, sep.c_str()).hex().p(20));
    else if constexpr (K == 12) f("user range with function", E, strf::range(Rng{3}, fn), strf::separated_range(It(0), It(3), lsep.c_str(), fj));
    else if constexpr (K == 13) f("user printables", E, 1, Val(5), 2, ValR(-6), 3, Val(7));
    else if constexpr (K == 14) f("user printables in joins", E, strf::join(Val(1), strf::join(ValR(2), Val(3)) > 100, abc) ^ 200);
    else if constexpr (K == 15) f("user printable, formatted", E, strf::fmt(ValR(4)) > 80, strf::left(ValR(5), 66, U'\U0001F600'));
    else if constexpr (K == 16) f("user composite", N, Pair{12, bad.c_str()}, Pair{-1, abc.c_str()});
    else if constexpr (K == 17) f("overrider", strf::pack(Ovr{}), Ov{77}, 5, Ov{-2});
    else if constexpr (K == 18) f("int overrider", strf::pack(OvrInt{}), 1, strf::right(2, 40), strf::range(iv), strf::fmt_range(iv) > 9);
    else if constexpr (K == 19) f("tr", NW, strf::tr(trs, Val(1)), strf::tr(trs, 1, strf::right(abc, 70), strf::sani(bad)));
    else if constexpr (K == 20) f("nested tr", NW, strf::tr(trs, strf::tr(trs, Val(8), strf::sani(bad)), strf::range(iv, fn)));
    else if constexpr (K == 21) f("tr in an aligned join", NW, strf::join(strf::tr(trs, Val(1)), strf::tr(A("{} {}{}"), abc)) > 250);
    else if constexpr (K == 22) f("inner pack", N, strf::with(strf::lettercase::upper, Ovr{})(Ov{1}, strf::sani(bad), strf::with(Wid{})(strf::right(lng, 200), strf::conv(obad))), strf::sani(bad));
    else if constexpr (K == 23) f("narrow charset", strf::pack(ascii, nt), strf::conv(olng), strf::right(1, 80, U'\u20AC'), strf::sani(mixed), U'\u00E9', strf::conv(obad));
    else if constexpr (K == 24) f("dynamic charset", strf::pack(nt, ascii.to_dynamic()), strf::conv(olng), strf::sani(bad) > 50, strf::transcode(obad, strf::utf<O>.to_dynamic()));
    else if constexpr (K == 25) f("named charsets", N, strf::conv(obad, strf::utf<O>), strf::sani(bad, strf::utf<C>), strf::transcode(bad, strf::utf<C>));
    else if constexpr (K == 26) f("narrow source", N, strf::transcode("\x81\xE9z\xFF", strf::iso_8859_7<char>), strf::transcode("\x81\x8Dz\xD2\xFF", strf::windows_1253<char>) ^ 30);
    else if constexpr (K == 27) f("deep", NW, strf::join(Val(1), strf::join(strf::separated_range(iv, sep.c_str(), fj), strf::tr(trs, strf::join(Val(2), strf::range(Rng{2}, fn)) < 50, strf::sani(bad))) > 500));
    else if constexpr (K == 28) f("multi-line", NW, abc, 1, Val(1), (C)'\n', strf::conv(obad), strf::right(0.1, 80), strf::join(Val(3)), U'\u20AC', true, (void*)nullptr, strf::sani(bad));
    // no user code of their own
    else if constexpr (K == 29) f("integers", E, 0, -1, 123456789, ~0ULL, (short)-5, strf::bin(~0ULL), strf::oct(~0ULL), strf::hex(~0ULL), LLONG_MIN);
    else if constexpr (K == 30) f("formatted integers", np, +strf::dec(7).p(70), *strf::hex(255).pad0(90), *strf::bin(5) > 66, strf::dec(1) < 130, strf::dec(-3).fill(U'\U0001F600') ^ 67, *strf::oct(8).p(5) > 70);
    else if constexpr (K == 31) f("punctuated integers", strf::pack(np, strf::numpunct<16>(1).thousands_sep(U'\U0001F600'), strf::numpunct<2>(2).thousands_sep('_')), !strf::dec(~0ULL), !strf::hex(~0ULL), *!strf::bin(~0ULL), +!strf::dec(1234567) > 70, (!strf::hex(0x1234)).p(70), (!strf::dec(99999)).pad0(66));
    else if constexpr (K == 32) f("floats", E, 1.5, -0.0, 1e300, 1e-300, 123456789.123, 0.1f, 1.0 / 3, strf::fixed(1e300), strf::hex(0.1), strf::sci(5e-324));
    else if constexpr (K == 33) f("formatted floats", np, strf::fixed(1.5).p(100), +strf::sci(1.25).p(70), strf::gen(1e22).p(80), *strf::gen(0.1).p(70), strf::fixed(-2.5).pad0(80), strf::hex(1.5).p(66), strf::right(1e300, 90), strf::fixed(1e25) > 70);
    else if constexpr (K == 34) f("punctuated floats", strf::pack(np), !strf::fixed(1e300), !strf::fmt(123456.75), (!strf::sci(1.5)).p(70), (!strf::fixed(1e10)).p(30) > 90, (!strf::gen(12345678.0)).p(70), *(!strf::fixed(1e15)).pad0(80));
    else if constexpr (K == 35) f("special floats", E, strf::right(1.0 / 0.0, 70), -std::numeric_limits<double>::infinity(), +strf::fixed(std::numeric_limits<double>::quiet_NaN()).pad0(70), strf::center(std::numeric_limits<float>::quiet_NaN(), 66, U'\u20AC'));
    else if constexpr (K == 36) f("characters", E, (C)'a', U'\u20AC', U'\U0001F600', strf::multi((C)'m', 130), strf::multi(U'\u20AC', 70), strf::multi(U'\U0001F600', 66), strf::right(U'\u00E9', 70, U'\u20AC'), strf::multi(U'\u00E9', 40) ^ 100);
    else if constexpr (K == 37) f("booleans, pointers", strf::lettercase::upper, true, false, strf::right(true, 70), (const void*)nullptr, strf::center((const void*)(std::uintptr_t)0xABCDEF, 70, U'\u20AC'));
    else if constexpr (K == 38) f("strings", E, abc, lng, mixed, strf::right(abc, 70), strf::left(mixed, 90, U'\u20AC'), strf::fmt(lng).p(99), strf::center(lng, 190, U'\U0001F600'));
    else if constexpr (K == 39) f("sanitized strings", E, strf::sani(bad), strf::sani(lng), strf::sani(mixed), strf::sani(bad) > 80, strf::unsafe_transcode(abc));
    else if constexpr (K == 40) f("converted strings", E, strf::conv(olng), strf::conv(obad), strf::conv(olng) > 80, strf::conv(olng).p(2).fill(U'\u20AC') < 70, strf::unsafe_transcode(olng));
    else if constexpr (K == 41) f("long conversions", E, strf::conv(pr::enc<O>(std::u32string(50, U'\u20AC'))), strf::conv(pr::enc<O>(std::u32string(70, U'\U0001F600'))), strf::conv(pr::enc<O>(std::u32string(70, U'\u00E9'))));
    else if constexpr (K == 42) f("long sanitizing", E, strf::sani(pr::enc<C>(std::u32string(70, U'\u20AC')) + bad), strf::sani(pr::enc<C>(std::u32string(40, U'\U0001F600')) + bad) > 100);
    else if constexpr (K == 43) f("joins", E, strf::join(), strf::join(1, abc), strf::join(lng, 2) > 200, strf::join(mixed, strf::join(3) < 70) ^ 150, strf::join_right(90, U'\u20AC')(strf::join_left(70)(1.5)));
    else if constexpr (K == 44) f("ranges", E, strf::range(iv), strf::separated_range(sl, lsep.c_str()), strf::range(ip, ip + 3), strf::fmt_range(iv).hex().p(40), strf::fmt_separated_range(sl, sep.c_str()).fill(U'\u20AC') > 30, strf::range(da));
    else if constexpr (K == 45) f("tr-strings", E, strf::tr(trs, 1, 2), strf::tr(A("{}{}{}{}"), lng, strf::right(1, 70)), strf::tr(lng), strf::tr(S(70, (C)'{')));
    else if constexpr (K == 46) f("single-byte source", E, strf::transcode("\x80\xA4\xFF" "abc", strf::windows_1252<char>), strf::transcode("\xD2" "abc\xFF", strf::iso_8859_7<char>) > 70);
    else if constexpr (K == 47) f("replacement fills", strf::pack(ascii), strf::right(1, 70, U'\u20AC'), strf::multi(U'\U0001F600', 70), strf::right(abc, 80, (char32_t)0xD800), strf::join(1) > 70, !strf::fixed(1.5));
    else if constexpr (K == 48) f("fills by the thousand", E, strf::right(1, 3000), strf::left(abc, 1000, U'\u20AC'), strf::dec(5).p(700), strf::fixed(0.5).p(1000));
    else if constexpr (K == 49) f("dynamic charsets", strf::utf<C>.to_dynamic(), strf::conv(olng), strf::sani(bad), strf::right(1, 70, U'\u20AC'), strf::multi(U'\U0001F600', 66), !strf::dec(1234567), strf::transcode(obad, strf::utf<O>.to_dynamic()) > 70);
    else if constexpr (K == 50) f("everything", np, 1, 1.5, abc, strf::join(strf::right(lng, 200, U'\u20AC'), strf::range(iv), strf::tr(trs, 1)) ^ 700, !strf::dec(1234567), strf::conv(olng), U'\U0001F600', true);
}
constexpr int NALL = 51;      // the first 29 call user code

// ---- destinations
template <class Ch> class TDst final : public strf::destination<Ch> {
    static Guarded<Ch>& mem() { static Guarded<Ch>* g = new Guarded<Ch>; return *g; }
    Ch* begin_; const size_t* sched_; size_t nsched_; int mode_; long fail_;
    Ch* buf_; size_t cap_;
public:
    size_t n = 0; long recycles = 0; bool overflow = false;
    TDst(Ch* buf, size_t cap, size_t first, const size_t* s, size_t ns, int mode, long fail = -1) : strf::destination<Ch>(mem().end_range(first), mem().last()), begin_(mem().end_range(first)), sched_(s), nsched_(ns), mode_(mode), fail_(fail), buf_(buf), cap_(cap) {}
    void flush_() { if (!this->good()) return; for (Ch* p = begin_; p != this->buffer_ptr(); ++p) if (n < cap_) buf_[n++] = *p; else overflow = true; begin_ = this->buffer_ptr(); }
    void recycle() override {
        if (mode_ == 1) tick();
        flush_();
        if (fail_ >= 0 && recycles >= fail_) this->set_good(false);
        size_t c = sched_[(size_t)recycles % nsched_]; ++recycles;
        begin_ = mem().end_range(c); for (Ch* p = begin_; p != mem().last(); ++p) *p = (Ch)0x2A;
        this->set_buffer_ptr(begin_); this->set_buffer_end(mem().last());
        if (mode_ == 2) tick();
    }
    size_t finish() { flush_(); return n; }
    static size_t len(void* v) { auto& d = *(TDst*)v; return d.n + (d.good() ? (size_t)(d.buffer_ptr() - d.begin_) : 0); }
};
static const size_t CAP = 14000; static C ref_[CAP], got[CAP]; static const size_t s64[] = {64}, s65[] = {65, 100, 64}, big[] = {15000};
struct Sink : std::basic_streambuf<C> {
    C b[CAP]; size_t n = 0;
    std::streamsize xsputn(const C* p, std::streamsize k) override { tick(); for (std::streamsize i = 0; i < k; ++i) if (n < CAP) b[n++] = p[i]; return k; }
};
static bool prefix(const C* p, size_t n, const S& ref) { return n <= ref.size() && std::char_traits<C>::compare(p, ref.data(), n) == 0; }
#if FAM == 0
// run: one attempt; returns what must be checked. Enumerates every fault point of one operation.
template <class Run, class Check> static void points(const std::string& key, bool alloc, Run run, Check check) {
    auto go = [&](long arm) -> bool {        // true: a fault was thrown
        ft::ticks = 0; ft::arm = arm; ft::fired = ft::fired_alloc = false; bool caught = false; std::string why;
        mc::note("%s, fault at call %ld", key.c_str(), arm);
        const long live = ft::live;
        ft::on = true; ft::alloc_on = alloc;
        try { run(); }
        catch (const Boom& b) { caught = true; ft::on = ft::alloc_on = false; if (ft::fired_alloc || b.n != arm) why += " another exception was thrown;"; }
        catch (const std::bad_alloc&) { caught = true; ft::on = ft::alloc_on = false; if (!ft::fired_alloc) why += " std::bad_alloc instead of the exception that was thrown;"; }
        catch (...) { caught = true; ft::on = ft::alloc_on = false; why += " another exception was thrown;"; }
        ft::on = ft::alloc_on = false; mc::step();
        if (ft::fired && !caught) why += " the exception was swallowed;";
        if (!ft::fired && caught) why += " an exception out of nowhere;";
        check(caught, why);
        if (ft::live != live) why += mc::sfmt(" %ld allocations leaked;", ft::live - live);
        mc::state(mc::hash(key, (std::uint64_t)arm));
        if (!why.empty()) mc::fail(key + mc::sfmt(" fault %ld", arm), std::string(pr::cname<C>()) + " " + key + (arm < 0 ? std::string(", no fault") : mc::sfmt(", exception from the %ldth call of user code", arm)) + ":" + why);
        else if (mc::want_sample()) mc::sample(key + mc::sfmt(", exception from call %ld of user code: propagated", arm));
        return caught;
    };
    if (go(-1)) return;
    const long total = ft::ticks;
    for (long a = 0; a < total; ++a) if (!go(a)) break;
    mc::count("fault points", (std::uint64_t)total);
    if (go(-1)) return;                      // the same objects once more
}
template <int K> void one() {
    item<K>([&](const char* name, const auto& fp, const auto&... a) {
                auto text = [&](auto&& print) { TDst<C> d(ref_, CAP, 15000 / sizeof(C), big, 1, 0); print(d); size_t n = d.finish(); if (d.overflow) std::abort(); return S(ref_, n); };
        auto onto = [&](const std::string& key, const auto& print, bool all) {
            if (!mc::take()) return;
            const S ref = text(print); const size_t n = ref.size();
            std::vector<size_t> firsts{0, 1, 5, 30, n / 2, n, 3000}; if (mc::thorough() && all) { firsts.clear(); for (size_t i = 0; i <= (n < 140 ? n : 140); ++i) firsts.push_back(i); firsts.push_back(n); }
            for (size_t first : firsts) for (int sc = 0; sc < 2; ++sc) for (int mode = 1; mode < 3; ++mode) {
                if (first >= n && (sc || mode == 2)) continue;
                alignas(TDst<C>) static char mem[sizeof(TDst<C>)]; TDst<C>* d = nullptr; size_t end = 0; bool ok = false;
                points(key + mc::sfmt(", %zu units of room, then %s%s", first, sc ? "65, 100, 64" : "64", mode == 1 ? "" : ", recycle() throws after flushing"), false,
                    [&] { d = new (mem) TDst<C>(got, CAP, first, sc ? s65 : s64, sc ? 3 : 1, mode); ft::dst = d; ft::length = TDst<C>::len;
                        struct E { TDst<C>*& d; size_t& end; bool& ok; ~E() { ft::dst = nullptr; end = d->finish(); ok = d->good(); d->~TDst<C>(); } } e{d, end, ok};
                        print(*d); },
                    [&](bool fault, std::string& why) {
                        if (!prefix(got, end, ref) || (!fault && end != ref.size())) why += " the destination got " + pr::sh(S(got, end)) + ", expected " + (fault ? "a prefix of " : "") + pr::sh(ref) + ";";
                        if (fault && end != ft::at_fault) why += mc::sfmt(" %zu units had been printed at the fault, %zu afterwards;", ft::at_fault, end);
                        if (!ok) why += " the destination is not good;"; });
            }
        };
        onto(std::string(name) + " (to)", [&](strf::destination<C>& d) { strf::to(d).with(fp)(a...); }, true);
        onto(std::string(name) + " (line)", [&](strf::destination<C>& d) { strf::to(d).with(fp).line(a...); }, false);
        onto(std::string(name) + " (join)", [&](strf::destination<C>& d) { strf::to(d).with(fp)((C)'|', strf::join(a...) > 900, abc); }, false);
        onto(std::string(name) + " (tr)", [&](strf::destination<C>& d) { strf::to(d).with(fp).tr(A("{1}:{}{2}{}").c_str(), a...); }, false);
        const S ref = text([&](strf::destination<C>& d) { strf::to(d).with(fp)(a...); });
        if (mc::take()) {        // strings: allocations fail too
            S* r = nullptr; static S keep;
            auto str = [&](const char* how, const S& orig, bool cut, const auto& f) {
                static size_t end; static bool have;
                points(std::string(name) + " (" + how + ")", true, [&] { have = false; end = 0; S out = f(); have = true; end = out.size(); std::char_traits<C>::copy(got, out.data(), end); },
                    [&](bool fault, std::string& why) { if (!fault && (!have || S(got, end) != orig + ref)) why += " got " + pr::sh(S(got, end)) + ", expected " + pr::sh(orig + ref) + ";"; });
                (void)cut;
            };
            str("to_string", S(), false, [&] { return strf::to_basic_string<C>.with(fp)(a...); });
            str("to_string.reserve_calc", S(), false, [&] { return strf::to_basic_string<C>.with(fp).reserve_calc()(a...); });
            str("to_string.reserve(7)", S(), false, [&] { return strf::to_basic_string<C>.with(fp).reserve(7)(a...); });
            auto app = [&](const char* how, const S& orig, bool assign, const auto& f) {
                static size_t end; static bool over;
                points(std::string(name) + " (" + how + ")", true,
                    [&] { ft::on = false; ft::alloc_on = false; S s = orig; s += orig; s.resize(orig.size()); struct E { S& s; ~E() { const bool o = ft::on, b = ft::alloc_on; ft::on = ft::alloc_on = false; end = s.size(); over = end > CAP; if (!over) std::char_traits<C>::copy(got, s.data(), end); (void)o; (void)b; } } e{s}; ft::alloc_on = ft::on = true; f(s); },
                    [&](bool fault, std::string& why) {
                        const S exp = assign ? ref : orig + ref; const bool pre = prefix(got, end, exp) && (assign || end >= orig.size());
                        if (over || !(pre || (fault && assign && S(got, end) == orig)) || (!fault && end != exp.size())) why += " the string is " + pr::sh(S(got, end)) + ", expected " + (fault ? "a prefix of " : "") + pr::sh(exp) + ";"; });
            };
            app("append", A("orig"), false, [&](S& s) { strf::append(s).with(fp)(a...); });
            app("append.reserve_calc", lng, false, [&](S& s) { strf::append(s).with(fp).reserve_calc()(a...); });
            app("assign", A("orig"), true, [&](S& s) { strf::assign(s).with(fp)(a...); });
            (void)r;
        }
        if (mc::take()) {        // measuring
            static size_t sz0; static long w0; bool first = true; size_t sz = 0; long w = 0;
            points(std::string(name) + " (measure)", true, [&] { strf::premeasurements<strf::size_presence::yes, strf::width_presence::yes> p; strf::measure<C>(&p, strf::pack(fp), a...); sz = p.accumulated_size(); w = p.accumulated_width().underlying_value(); },
                [&](bool fault, std::string& why) { if (fault) return; if (first) { sz0 = sz; w0 = w; first = false; } if (sz != sz0 || w != w0 || sz < ref.size()) why += mc::sfmt(" size %zu, before %zu, printed %zu;", sz, sz0, ref.size()); });
        }
        if (mc::take()) for (size_t cap : {(size_t)1, (size_t)6, ref.size() / 2 + 1, ref.size(), ref.size() + 70}) {     // fixed capacity
            static Guarded<C> mem; size_t end = 0; bool done = false;
            points(std::string(name) + mc::sfmt(" (array of %zu)", cap), true, [&] { done = false; C* b = mem.end_range(cap); for (size_t i = 0; i < cap; ++i) b[i] = (C)'~'; auto f = strf::to_range(b, mem.last()).with(fp)(a...); done = true; end = (size_t)(f.ptr - b); },
                [&](bool fault, std::string& why) { if (!fault && (!done || (cap >= ref.size() ? end != ref.size() : end > cap) || !prefix(mem.end_range(cap), end, ref))) why += " wrong text;"; });
        }
        if (mc::take()) {        // a streambuf that throws
            alignas(Sink) static char mem[sizeof(Sink)];
            points(std::string(name) + " (streambuf)", true, [&] { ft::on = ft::alloc_on = false; auto* s = new (mem) Sink; struct E { Sink* s; ~E() { s->~Sink(); } } e{s}; ft::on = ft::alloc_on = true; auto r = strf::to(static_cast<std::basic_streambuf<C>&>(*s)).with(fp)(a...); if (!r.success || (size_t)r.count != ref.size()) s->n = CAP; },
                [&](bool fault, std::string& why) { auto* s = (Sink*)mem; if (!prefix(s->b, s->n, ref) || (!fault && s->n != ref.size())) why += " the streambuf got " + pr::sh(S(s->b, s->n < CAP ? s->n : 0)) + ", expected " + (fault ? "a prefix of " : "") + pr::sh(ref) + ";"; });
        }
    });
}
constexpr int LIMIT = NALL;
#else
template <int K> void one() {
    item<K>([&](const char* name, const auto& fp, const auto&... a) {
                static const std::vector<std::vector<size_t>> scheds{{64}, {65}, {66}, {67}, {71}, {79}, {96}, {127}, {128}, {200}, {64, 200}, {130, 64}, {64, 65, 66}, {1000}};
        auto onto = [&](const std::string& key, const auto& print_, bool all) {
            if (!mc::take()) return;
            auto pl = [&](strf::destination<C>& d) { print_(d); }; pr::FnRef<void(strf::destination<C>&)> print(pl);
            TDst<C> d0(ref_, CAP, 15000 / sizeof(C), big, 1, 0); print(d0); const size_t n = d0.finish(); if (d0.overflow) std::abort(); const S ref(ref_, n);
            auto go = [&](size_t first, const std::vector<size_t>& s, long fail) {
                mc::note("%s, room %zu then %zu.., failing at %ld", key.c_str(), first, s[0], fail);
                TDst<C> d(got, CAP, first, s.data(), s.size(), 0, fail); print(d); const size_t end = d.finish(); mc::step(); mc::state(mc::hash(key, (std::uint64_t)(first * 41 + (size_t)(fail + 1)) * 100000 + s[0] * 7 + s.size()));
                if (!prefix(got, end, ref) || (fail < 0 && end != n) || (fail >= 0 && d.recycles <= fail && end != n)) {
                    std::string sc; for (auto x : s) sc += mc::sfmt(" %zu", x);
                    mc::fail(key, std::string(pr::cname<C>()) + " " + key + mc::sfmt(" into %zu units of room, then", first) + sc + (fail >= 0 ? mc::sfmt(", failing at recycle %ld", fail) : std::string()) + ": got " + pr::sh(S(got, end)) + ", expected " + (fail >= 0 ? "a prefix of " : "") + pr::sh(ref)); return -1L; }
                return d.recycles;
            };
            std::vector<size_t> firsts; for (size_t i = 0; i <= n && i <= (all ? 300 : 70); ++i) firsts.push_back(i); for (size_t i = n < 70 ? 0 : n - 66; i <= n + 1; ++i) firsts.push_back(i);
            for (size_t first : firsts) for (auto& s : scheds) { if (go(first, s, -1) < 0) return; if (first >= n) break; }
            for (size_t first = 0; first <= n && first < 70; first += all || mc::thorough() ? 1 : 7) for (auto& s : scheds) { long r = go(first, s, -1); if (r < 0) return; for (long k = 0; k < r && k < 40; ++k) if (go(first, s, k) < 0) return; if (!mc::thorough() && s.size() == 1 && s[0] > 67) break; }
            mc::state(mc::hash(key)); if (mc::want_sample()) mc::sample(key + " -> " + pr::sh(ref));
        };
        onto(std::string(name) + " (to)", [&](strf::destination<C>& d) { strf::to(d).with(fp)(a...); }, true);
        onto(std::string(name) + " (line)", [&](strf::destination<C>& d) { strf::to(d).with(fp).line(a...); }, false);
        onto(std::string(name) + " (join)", [&](strf::destination<C>& d) { strf::to(d).with(fp)((C)'|', strf::join(a...) > 4800, abc); }, false);
        onto(std::string(name) + " (one by one)", [&](strf::destination<C>& d) { auto p = strf::to(d).with(fp); int x[] = {(p(a), 0)...}; (void)x; }, false);
        onto(std::string(name) + " (tr)", [&](strf::destination<C>& d) { strf::to(d).with(fp).tr(A("{1}:{}{2}{}").c_str(), a...); }, false);
    });
}
constexpr int LIMIT = NALL;
#endif
template <int K> void from() { if constexpr (K < LIMIT) { one<K>(); from<K + 8>(); } }
static void body() { from<PART>(); }
MC_MAIN(body)
