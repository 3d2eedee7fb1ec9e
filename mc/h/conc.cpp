// C32: prints do not affect one another.  Compiled with -fsanitize-coverage=trace-pc: every basic block of the real
// strf code is a point where the controlled scheduler can take the processor away from the running thread.
//   PART 1  every ordered pair (A, B) of tasks on two threads, B runs completely at the k-th point of A, for every k
//   PART 2  two switches: A to its k-th point, B to its m-th, A to the end, B to the end (strides by tier and size)
//   PART 3  nested: B is printed by A's thread inside the j-th call that A makes to user code (recycle(), notifier,
//           width calculator, printable), for every j, also with a third task C nested in B
//   PART 4  histories: every sequence of three tasks
// All tasks share the same const objects; each has its own destination.
#include <string_view>
#include <strf.hpp>
#include <strf/to_string.hpp>
#include <strf/to_streambuf.hpp>
#include <strf/to_cfile.hpp>
#include <strf/locale.hpp>
#include <sstream>
#include <atomic>
#include <climits>
#include <thread>
#include <semaphore.h>
#include <time.h>
#include "../mc.hpp"
#ifndef PART
#define PART 1
#endif
#define NOCOV __attribute__((no_sanitize_coverage, noinline))

// ------------------------------------------------------------------ scheduler
static thread_local bool on = false;          // inside a task, on this thread
static thread_local long quota = LONG_MAX, points = 0;
static thread_local bool is_b = false;
static std::atomic<bool> free_run{false}, b_done{true};
static sem_t go_b, back_a, resume_b;
static int b_task = 0; static long b_quota = LONG_MAX; static std::string b_out;
static bool blocked = false;
NOCOV static bool wait_ms(sem_t* s, long ms) {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_nsec += ms * 1000000L; t.tv_sec += t.tv_nsec / 1000000000L; t.tv_nsec %= 1000000000L;
    while (sem_timedwait(s, &t) != 0) if (errno == ETIMEDOUT) return false;
    return true;
}
NOCOV static void wait_(sem_t* s) { while (sem_wait(s) != 0) {} }
NOCOV static void switch_() {
    if (free_run) return;
    if (!is_b) { sem_post(&go_b); if (!wait_ms(&back_a, 300)) { free_run = true; blocked = true; } }   // B waits for something A holds: let A go on
    else { sem_post(&back_a); wait_(&resume_b); }
}
extern "C" NOCOV void __sanitizer_cov_trace_pc() {
    if (!on) return;
    ++points;
    if (points == quota) { quota = LONG_MAX; on = false; switch_(); on = true; }
}
static thread_local long callbacks = 0, nest_at = -1; static thread_local void (*nested)() = nullptr;
NOCOV static void user_code() {       // called by everything below that strf calls back
    if (!on) return;
    if (callbacks++ == nest_at && nested) { auto f = nested; nested = nullptr; f(); }
}

// ------------------------------------------------------------------ destinations, facets and printables of the user
template <class C> class Dst final : public strf::destination<C> {
    static constexpr int N = strf::min_destination_buffer_size;
    C buf_[N]; std::basic_string<C> out_;
public:
    Dst() : strf::destination<C>(buf_, buf_ + N) {}
    void recycle() override { out_.append(buf_, this->buffer_ptr()); this->set_buffer_ptr(buf_); user_code(); }
    std::string finish() { out_.append(buf_, this->buffer_ptr()); this->set_good(false); return std::string((const char*)out_.data(), out_.size() * sizeof(C)); }
};
template <class C> std::string bytes(const std::basic_string<C>& s) { return std::string((const char*)s.data(), s.size() * sizeof(C)); }
struct Notifier final : strf::transcoding_error_notifier {
    std::string* log; explicit Notifier(std::string* l) : log(l) {}
    void invalid_sequence(int unit, const char* cs, const void*, std::ptrdiff_t pos) override { *log += "[" + std::to_string(unit) + cs + std::to_string(pos) + "]"; user_code(); }
    void unsupported_codepoint(const char* cs, unsigned ch) override { *log += "<" + std::string(cs) + std::to_string((unsigned long)ch) + ">"; user_code(); }
};
struct Calc {
    using category = strf::width_calculator_c;
    template <class Cs> strf::width_t char_width(const Cs&, typename Cs::code_unit ch) const { user_code(); return ch == 'a' ? strf::width_t(3) : strf::width_t(1); }
    template <class Cs> strf::width_t str_width(const Cs& cs, strf::width_t lim, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const { strf::width_t w = 0; for (; b != e && w < lim; ++b) w += char_width(cs, *b); return w; }
    template <class Cs> strf::width_and_ptr<typename Cs::code_unit> str_width_and_pos(const Cs& cs, strf::width_t lim, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const {
        strf::width_t w = 0; for (; b != e; ++b) { auto x = char_width(cs, *b); if (x > lim - w) break; w += x; } return {w, b}; }
};
struct Temp { int deg; };
namespace strf {
template <> struct printable_def<Temp> {
    using representative = Temp; using forwarded_type = Temp; using is_overridable = std::true_type; using format_specifiers = strf::tag<strf::alignment_format_specifier>;
    template <class C, class Pre, class Fp, class... F> static auto make_printer(strf::tag<C>, Pre* pre, const Fp& fp, strf::value_and_format<printable_def<Temp>, F...> x) {
        user_code();
        return strf::make_printer<C>(pre, fp, strf::join(x.value().deg, (C)'~', strf::hex(x.value().deg).p(6)).set_alignment_format(x.get_alignment_format()));
    }
    template <class C, class Pre, class Fp> static auto make_printer(strf::tag<C> t, Pre* pre, const Fp& fp, Temp x) { return make_printer(t, pre, fp, strf::fmt(x)); }
};
}
struct OvTemp {
    using category = strf::printable_overrider_c<Temp>;
    template <class C, class Pre, class Fp, class... F> auto make_printer(strf::tag<C>, Pre* pre, const Fp& fp, strf::value_and_format<strf::printable_def<Temp>, F...> x) const { user_code(); return strf::make_printer<C>(pre, fp, strf::sci(x.value().deg * 1.0, 12)); }
    template <class C, class Pre, class Fp> auto make_printer(strf::tag<C> t, Pre* pre, const Fp& fp, Temp x) const { return make_printer(t, pre, fp, strf::fmt(x)); }
};
struct Half { int operator()(int x) const { user_code(); return x / 2; } };

// ------------------------------------------------------------------ the shared const objects
static const auto punct10 = strf::numpunct<10>(3, 2, 1).thousands_sep(U'\u00B7').decimal_point(U'\u2396');
static const auto punct16 = strf::numpunct<16>(4).thousands_sep(U'\'');
static const auto punct8 = strf::numpunct<8>(1, 2, 3).thousands_sep(U'\U0001F600');
static const auto pk = strf::pack(punct10, punct16, punct8, strf::uppercase, strf::constrain<strf::is_char>(strf::fast_width), strf::std_width_calc);
static const auto pk2 = strf::pack(strf::mixedcase, strf::iso_8859_3<char>, Calc{}, OvTemp{});
static const auto pk3 = strf::pack(strf::mixedcase, Calc{}, OvTemp{}, strf::lowercase);
static const std::vector<int> vec{1, -22, 333333, INT_MIN, 7, 88888888};

static const std::string bad8 = "ab\xF0\x90\x80 \xED\xA0\x80 \xE4\xB8\xADxy\xC3", lat = "a\xA1\xC6\xFE\xA5 z\xF0", tr_s = "{} and {{ {2}, {1}{-comment}{1} {9} {", han = "\xEA\xB0\x80\xE1\x86\xA8 e\xCC\x81\xE4\xB8\xAD\xF0\x9F\x87\xA7\xF0\x9F\x87\xB7-";
static const std::u16string bad16 = u"x\xD800y\xDC00 \u20ACz";
static const auto joined = strf::join_center(strf::width_t(37), U'\u2026')(-12345, strf::right(2.5, 9, '*'), " text ", strf::hex(vec[5]).p(9));
static const auto range_f = strf::fmt_separated_range(vec, " ; ").punct().fill('_') > 12;
static const auto range_t = strf::separated_range(vec, "/", Half{});
static const auto int_f = +strf::punct(123456789012345LL) > 30;
static const auto flt_f = strf::fmt(1234567.0625).fixed().p(8).punct().fill(U'\u00E9') ^ 34;
static const auto str_f = strf::fmt(han).p(4).fill(U'\u4E2D') > 15;
static const auto syn_s = strf::to_string.with(pk);
static const auto syn_r = strf::to_u16string.reserve_calc().with(pk2);
static const strf::dynamic_charset<char> dyn8 = strf::iso_8859_15<char>.to_dynamic(), dynw = strf::windows_1252<char>.to_dynamic();
static const strf::dynamic_charset<char16_t> dyn16 = strf::utf<char16_t>.to_dynamic();

// ------------------------------------------------------------------ the tasks
using Task = std::string (*)();
template <class C, class... A> std::string prn(const strf::transcoding_error_notifier_ptr& n, const A&... a) { Dst<C> d; strf::to(d).with(n)(a...); return d.finish(); }
template <class C, class Cs, class... A> std::string prc(const strf::transcoding_error_notifier_ptr& n, const Cs& cs, const A&... a) { Dst<C> d; strf::to(d).with(n, cs)(a...); return d.finish(); }
template <class C, class Fp, class... A> std::string prp(const Fp& fp, const A&... a) { Dst<C> d; strf::to(d).with(fp)(a...); return d.finish(); }
template <class C, class... A> std::string pr(const A&... a) { Dst<C> d; strf::to(d)(a...); return d.finish(); }
static std::string t_int() { return prp<char>(pk, int_f, '|', strf::hex(0xABCDEF012345ull).punct(), strf::oct(01234567).punct().p(9), *strf::bin(77) ^ 20, strf::pad0(-5, 9), INT_MIN); }
static std::string t_int16() { return prp<char16_t>(pk, int_f, strf::punct(-98765), u' ', *strf::hex(48879), strf::fmt((unsigned char)200).p(5)); }
static std::string t_flt() { return pr<char>(0.1, ' ', -1.7976931348623157e308, ' ', 5e-324, ' ', 123456.75f, ' ', 1e22, ' ', strf::hex(1.9), ' ', 1.0 / 3); }
static std::string t_fltp() { return prp<char32_t>(pk, flt_f, strf::sci(9.9999e-7, 3), strf::gen(0.000123, 2), *strf::fixed(2.5, 0), strf::fixed(2.5f, 12), strf::right(-1e300 * 1e10, 9, U'.')); }
static std::string t_amp() { return prp<char>(pk, strf::fmt(1.234567890123e25).fixed().punct(), strf::punct(-98765432109876.0), strf::fmt(1.5e18).fixed().punct().p(2)); }
static std::string t_amp2() { return prp<char>(strf::numpunct<10>(2, 3), strf::fmt(1.234567890123e25).fixed().punct(), strf::punct(8.5e20), strf::right(strf::punct(12.5e9f), 25)); }
static std::string t_fltx() { return prp<char16_t>(pk, strf::hex(-0.1).p(3), strf::hex(3.0f), *strf::hex(0.0), strf::gen(123456789.0, 20), strf::sci(2e-308), strf::fixed(1e-7, 9), strf::pad0(-1.5, 12)); }
static std::string t_big() { return prp<char32_t>(strf::numpunct<10>(-1), strf::fixed(1.7976931348623157e308), strf::fmt(4.0).fixed().p(40)); }
static std::string t_sani() { std::string l; Notifier n(&l); auto r = prn<char>(strf::transcoding_error_notifier_ptr(&n), strf::sani(bad8), strf::sani(bad8).p(5) > 12, strf::unsafe_transcode(bad16), strf::transcode(bad16)); return r + l; }
static std::string t_sb() { std::string l; Notifier n(&l); auto r = prc<char>(strf::transcoding_error_notifier_ptr(&n), strf::iso_8859_3<char>, strf::transcode(bad8, strf::utf<char>), strf::transcode(lat, strf::windows_1252<char>), strf::transcode(bad16), strf::sani(lat)); return r + l; }
static std::string t_dyn() { std::string l; Notifier n(&l); auto r = prc<char16_t>(strf::transcoding_error_notifier_ptr(&n), dyn16, strf::transcode(lat, dyn8), strf::transcode(lat, dynw).p(4) > 10, strf::transcode(bad8, strf::utf<char>), strf::sani(bad16)); return r + l; }
static std::string t_join() { return prp<char>(pk, joined, strf::join_right(20)(joined, 1), strf::join_left(9, '-')("abc"), joined); }
static std::string t_joinc() { return prp<char>(Calc{}, joined, strf::join_right(40)("banana", 'a', strf::right("aa", 10))); }
static std::string t_range() { return prp<char>(punct10, range_f, strf::range(vec), range_t); }
static std::string t_rangej() { return pr<char32_t>(strf::join_center(90, U'\u00B7')(strf::fmt_range(vec).oct().punct(), strf::fmt_range(vec).hex()), strf::range(vec)); }
static std::string t_tr() { return pr<char>(strf::tr(tr_s, 123, strf::join_right(5)(4.5), "xyz"), strf::join_left(45, '.')(strf::tr(tr_s, Temp{9}))); }
static std::string t_tr2() { Dst<char> d; strf::to(d).with(pk).tr(tr_s.c_str(), int_f, flt_f, "p"); return d.finish(); }
static std::string t_str() { return prp<char>(strf::std_width_calc, str_f, strf::fmt(han).p(3), han, strf::left(han, 14, U'\u2026'), strf::center("", 6, 'x')); }
static std::string t_char() { return prp<char>(pk, strf::multi('x', 9), strf::multi(U'\u20AC', 5) > 12, 'c', U'\u4E2D', strf::right('\xE9', 7, U'\u00E9')); }
static std::string t_misc() { return prp<char>(strf::mixedcase, true, false, strf::right(true, 9, '~'), (const void*)0xABCDE, strf::right((const void*)16, 12), nullptr == nullptr); }
static std::string t_misc2() { return prp<char16_t>(strf::uppercase, false, strf::center(true, 11), (const void*)0xABCDE, strf::hex(1e-300), -1e300 * 1e10); }
static std::string t_syn() { return syn_s(int_f, joined, strf::hex(3735928559u).punct()) + syn_s.reserve_calc()(flt_f, range_f); }
static std::string t_syn2() { return bytes(syn_r(Temp{77}, strf::transcode("q\xA1"), u"zz", strf::right(Temp{5}, 30), vec.size())); }
static std::string t_app() { std::string s = "start:"; strf::append(s).with(pk)(int_f, 1, 2.5); strf::assign(s)(s.size(), ' ', joined); return s; }
static std::string t_arr() { char b[40]; auto r = strf::to(b).with(pk)(joined, int_f); return std::string(b) + std::to_string(r.ptr - b) + (r.truncated ? "T" : "F"); }
static std::string t_sbuf() { std::ostringstream o; auto r = strf::to(o.rdbuf())(joined, flt_f, -1); return o.str() + std::to_string(r.count); }
static std::string t_file() { static thread_local char b[400]; FILE* f = fmemopen(b, sizeof b, "w"); auto r = strf::to(f)(joined, flt_f, -1); fclose(f); return std::string(b, r.count); }
static std::string t_user() { return pr<char>(Temp{255}, strf::right(Temp{16}, 25, '*'), strf::join_right(30)(Temp{-3}), strf::with(OvTemp{}, punct10)(Temp{8}, int_f)); }
static std::string t_ovr() { return prn<char>({}, pk3, Temp{255}, strf::right(Temp{16}, 25, '*'), strf::join_right(30)(Temp{-3}, "ba"), strf::transcode(u"\u0126\u20AC")); }
static std::string t_inner() { return pr<char>(strf::with(pk)(int_f, 255), strf::with(pk3)(Temp{3}, strf::hex(vec[5])), int_f, Temp{3}); }
static std::string t_meas() { strf::premeasurements<strf::size_presence::yes, strf::width_presence::yes> p(200); strf::measure<char>(&p, pk, int_f, joined, str_f, range_f, flt_f, Temp{1}); return std::to_string(p.accumulated_ssize()) + " " + std::to_string(p.accumulated_width().underlying_value()); }
static std::string t_loc() { auto np = strf::locale_numpunct(); return prp<char>(np, strf::punct(1234567), strf::punct(1234.5), int_f); }
static std::string t_cvt() { std::string l; Notifier n(&l); char16_t b[30]; auto r = strf::decode_encode(strf::utf<char>, strf::utf<char16_t>, bad8.data(), bad8.data() + bad8.size(), b, b + 30, &n, strf::transcode_flags::none); return l + bytes(std::u16string(b, r.dst_ptr)); }
struct T { const char* name; Task f; };
static const T tasks[] = {
#define X(n) {#n, t_##n},
    X(int) X(int16) X(flt) X(fltp) X(amp) X(amp2) X(fltx) X(big) X(sani) X(sb) X(dyn) X(join) X(joinc) X(range) X(rangej) X(tr) X(tr2) X(str) X(char) X(misc) X(misc2) X(syn) X(syn2) X(app) X(arr) X(sbuf) X(file) X(user) X(ovr) X(inner) X(meas) X(loc) X(cvt)
};
constexpr int NT = sizeof tasks / sizeof *tasks;
static std::string want[NT]; static long np[NT], nc[NT];

NOCOV static std::string run(int t, long q) { points = 0; callbacks = 0; quota = q; on = true; auto r = tasks[t].f(); on = false; return r; }
NOCOV static void worker() { is_b = true; for (;;) { wait_(&go_b); b_out = run(b_task, b_quota); b_done = true; sem_post(&back_a); } }
// A stops at its k-th point, B runs to its m-th (or its end), A ends, B ends
NOCOV static void schedule(int a, long k, int b, long m) {
    b_task = b; b_quota = m; b_done = false; free_run = false; blocked = false; b_out.clear();
    auto r = run(a, k);
    if (free_run || k > points) { free_run = true; if (k > points) sem_post(&go_b); }   // A has fewer points than expected: B after A
    while (!b_done) { sem_post(&resume_b); wait_ms(&back_a, 1000); }
    while (sem_trywait(&back_a) == 0 || sem_trywait(&resume_b) == 0) {}
    if (blocked) mc::count("blocked");
    mc::step(2); mc::state(mc::mix(mc::hash(r, (std::uint64_t)a * 64 + (std::uint64_t)b), mc::mix((std::uint64_t)k, (std::uint64_t)m)));
    if (r != want[a] || b_out != want[b]) {
        bool bad_a = r != want[a];
        mc::fail(mc::sfmt("schedule %s@%ld %s@%ld", tasks[a].name, k, tasks[b].name, m), mc::sfmt("thread 1 prints task '%s' and is interrupted at its basic block %ld while thread 2 prints task '%s'%s; the output of %s is ", tasks[a].name, k, tasks[b].name,
            m == LONG_MAX ? "" : mc::sfmt(" up to its basic block %ld, and goes on when thread 1 has ended", m).c_str(), bad_a ? "thread 1" : "thread 2") + mc::show(bad_a ? r : b_out) + " instead of " + mc::show(want[bad_a ? a : b]));
    }
    if (mc::want_sample()) mc::sample(mc::sfmt("%s interrupted at %ld of %ld basic blocks by %s%s", tasks[a].name, k, np[a], tasks[b].name, m == LONG_MAX ? "" : mc::sfmt(" (its first %ld of %ld)", m, np[b]).c_str()));
}
static int nest_b, nest_c; static long nest_j; static std::string got_b, got_c;
NOCOV static void do_c() { long c = callbacks; on = true; got_c = tasks[nest_c].f(); callbacks = c; }
NOCOV static void do_b() { long c = callbacks, q = nest_at; callbacks = 0; nest_at = nest_j; nested = nest_c >= 0 ? do_c : nullptr; got_b = tasks[nest_b].f(); callbacks = c; nest_at = q; nested = nullptr; }
static void body() {
    sem_init(&go_b, 0, 0); sem_init(&back_a, 0, 0); sem_init(&resume_b, 0, 0);
    for (int t = 0; t < NT; ++t) want[t] = run(t, LONG_MAX);
    for (int t = NT; t-- > 0;) { auto r = run(t, LONG_MAX); np[t] = points; nc[t] = callbacks; if (r != want[t]) mc::fail("again " + std::string(tasks[t].name), mc::sfmt("task '%s' prints ", tasks[t].name) + mc::show(r) + " the second time, and " + mc::show(want[t]) + " the first"); }
    if (getenv("CONC_LIST")) for (int t = 0; t < NT; ++t) fprintf(stderr, "%-8s %6ld points %3ld callbacks %s\n", tasks[t].name, np[t], nc[t], mc::show(want[t]).c_str());
#if PART <= 2
    std::thread(worker).detach();
#endif
#if PART == 1
    for (int a = 0; a < NT; ++a) for (int b = 0; b < NT; ++b) for (long k = 1; k <= np[a]; ++k) { if (mc::take()) schedule(a, k, b, LONG_MAX); }
#elif PART == 2
    for (int a = 0; a < NT; ++a) for (int b = 0; b < NT; ++b) {
        long per = mc::thorough() ? LONG_MAX - 1 : 120, sa = np[a] / per + 1, sb = np[b] / per + 1;   // switch points per task; all of them if it has no more
        for (long k = 1 + b % sa; k <= np[a]; k += sa) for (long m = 1 + a % sb; m <= np[b]; m += sb) if (mc::take()) schedule(a, k, b, m);
    }
#elif PART == 3
    for (int a = 0; a < NT; ++a) for (long i = 0; i < nc[a]; ++i) for (int b = 0; b < NT; ++b) for (long j = -1; j < nc[b]; ++j) for (int c = 0; c < (j < 0 ? 1 : NT); ++c) {
        if (!mc::take()) continue;
        nest_b = b; nest_c = j < 0 ? -1 : c; nest_j = j; got_b = want[b]; got_c.clear(); nest_at = i; nested = do_b;
        auto r = run(a, LONG_MAX); nest_at = -1; nested = nullptr;
        mc::step(j < 0 ? 2 : 3); mc::state(mc::mix(mc::hash(r, (std::uint64_t)a * 64 + (std::uint64_t)b), mc::mix((std::uint64_t)(i * 64 + c), (std::uint64_t)j + 5)));
        if (r != want[a] || got_b != want[b] || (j >= 0 && got_c != want[c])) {
            const char* who = r != want[a] ? "the outer print" : got_b != want[b] ? "the inner print" : "the innermost print";
            mc::fail(mc::sfmt("nested %s@%ld %s@%ld %s", tasks[a].name, i, tasks[b].name, j, j < 0 ? "" : tasks[c].name), mc::sfmt("task '%s' is printed from the call number %ld that printing task '%s' makes to user code%s: %s gives ", tasks[b].name, i, tasks[a].name, j < 0 ? "" : mc::sfmt(", and '%s' from call number %ld of that", tasks[c].name, j).c_str(), who)
                + mc::show(r != want[a] ? r : got_b != want[b] ? got_b : got_c) + " instead of " + mc::show(r != want[a] ? want[a] : got_b != want[b] ? want[b] : want[c]));
        }
    }
#else
    for (int a = 0; a < NT; ++a) for (int b = 0; b < NT; ++b) for (int c = 0; c < NT; ++c) {
        if (!mc::take()) continue;
        int s[3] = {a, b, c};
        for (int i = 0; i < 3; ++i) { auto r = run(s[i], LONG_MAX); mc::step(); if (r != want[s[i]]) mc::fail(mc::sfmt("history %s %s %s", tasks[a].name, tasks[b].name, tasks[c].name), mc::sfmt("after printing %s%s%s task '%s' prints ", i > 0 ? tasks[a].name : "", i > 1 ? ", " : "", i > 1 ? tasks[b].name : "", tasks[s[i]].name) + mc::show(r) + " instead of " + mc::show(want[s[i]])); }
        mc::state(mc::mix((std::uint64_t)(a * 1024 + b), (std::uint64_t)c));
    }
#endif
}
MC_MAIN(body)
