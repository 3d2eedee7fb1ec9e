// C07-C10: destinations as state machines.  Every sequence of destination operations up to a depth,
// over every capacity / every point at which the underlying store fails, against a model that only
// knows the stream of units written.
#include <string_view>
#include "mc.hpp"
#include "guard.hpp"
#include <strf/all.hpp>
#include <streambuf>
#include <functional>
using std::size_t; using std::ptrdiff_t;

template <class C> const char* cname() { return sizeof(C) == 1 ? (std::is_same<C, char>::value ? "char" : "char8_t") : sizeof(C) == 2 ? "char16_t" : std::is_same<C, wchar_t>::value ? "wchar_t" : "char32_t"; }

// ------------------------------------------------------------------ operations
enum K { Put, Write, WriteNeg, Ensure, Advance, Iter, Flush, PrintStr, PrintFill, PrintInt, PrintMix };
struct Op { K k; int n; int m; };      // Ensure n then fill m of them
static std::string opname(const Op& o) {
    static const char* N[] = {"put", "write", "write(-1)", "ensure", "advance", "iterator", "flush", "print-string", "print-fill", "print-int", "print-mixed"};
    return mc::sfmt("%s(%d,%d)", N[o.k], o.n, o.m);
}
static std::string opsname(const std::vector<Op>& v) { std::string s; for (auto& o : v) s += (s.empty() ? "" : " ") + opname(o); return s; }

// the stream of units: unit i is val(i): ASCII, null or all ones; no two nearby windows alike
template <class C> C val(size_t i) { std::uint64_t x = i * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; const auto r = (x >> 50) % 9; return r == 0 ? (C)0 : r == 1 && !(MODE >= 9 && sizeof(C) > 1) ? (C)-1 : (C)('0' + (x >> 40) % 75); }

template <class C> struct Run {
    std::basic_string<C> stream;                 // everything the operations wrote, in order
    std::basic_string<C> next(size_t n) { std::basic_string<C> s; for (size_t i = 0; i < n; ++i) s += val<C>(stream.size() + i); return s; }
    // applies one operation; `stream` grows by what was requested.
    // Returns false if the requested space was not contiguous-or-fail (used by the models)
    void apply(strf::destination<C>& d, const Op& o, std::string& why) {
        bool was = d.good();
        switch (o.k) {
        case Put: { auto s = next(1); stream += s; strf::put(d, s[0]); break; }
        case Write: { auto s = next((size_t)o.n); stream += s; d.write(s.data(), o.n); break; }
        case WriteNeg: { C c = 1; d.write(&c, 0); d.write(&c, -1); break; }
        case Ensure: {
            d.ensure(o.n);
            if (d.buffer_sspace() < o.n) why += mc::sfmt(" after ensure(%d) the buffer has room for %ld;", o.n, (long)d.buffer_sspace());
            auto s = next((size_t)o.m); stream += s;
            C* p = d.buffer_ptr(); for (int i = 0; i < o.m; ++i) p[i] = s[(size_t)i];
            if (o.m & 1) d.advance_to(p + o.m); else d.advance(o.m);
            break; }
        case Advance: {                                            // use exactly what is there
            auto sp = d.buffer_space(); if (sp > 200) sp = 200;
            auto s = next(sp); stream += s; C* p = d.buffer_ptr(); for (size_t i = 0; i < sp; ++i) p[i] = s[i];
            d.advance_to(p + sp); break; }
        case Iter: { auto it = strf::make_iterator<C>(d); if (it.failed() == d.good()) why += " iterator failed() disagrees with good();"; for (int i = 0; i < o.n; ++i) { auto s = next(1); stream += s; if (i & 1) { *it = s[0]; ++it; } else *it++ = s[0]; } break; }
        case Flush: d.flush(); break;
        case PrintStr: { auto s = next((size_t)o.n); stream += s; strf::to(d)(s); break; }
        case PrintFill: { stream.append((size_t)o.n, (C)'.'); strf::to(d)(strf::right(std::basic_string_view<C>(&stream[0], (size_t)0), (std::int16_t)o.n, U'.')); break; }
        case PrintInt: { char b[40]; int k = snprintf(b, sizeof b, "%0*d", o.n, 1234567890); for (int i = 0; i < k; ++i) stream += (C)b[i]; strf::to(d)(strf::pad0(1234567890, (unsigned)o.n)); break; }
        case PrintMix: { auto a = next((size_t)o.n); stream += a; for (char c : std::string("-42")) stream += (C)c; auto b = next((size_t)o.m); stream += b; strf::to(d)(a, -42, b); break; }
        }
        if (!was && d.good()) why += " a failed destination became good again;";
        if (d.buffer_ptr() > d.buffer_end()) why += " buffer_ptr past buffer_end;";
    }
};
static bool is_print(K k) { return k >= PrintStr; }

// all sequences of length `depth` over `ops`, plus all shorter ones
template <class F> void sequences(const std::vector<Op>& ops, int depth, F f) {
    std::vector<Op> v; std::function<void(int)> rec = [&](int left) {
        f(v);
        if (left == 0) return;
        for (auto& o : ops) { v.push_back(o); rec(left - 1); v.pop_back(); }
    };
    rec(depth);
}

#if MODE == 7
// ------------------------------------------------------------------ fixed capacity
template <class C> struct Fixed {
    Guarded<C> mem; static constexpr C canary = (C)0x15;
    // kind: 0 cstr(range) 1 cstr(ptr,len) 2 cstr(ptr,end) 3 array(range) 4 array(ptr,len) 5 array(ptr,end) 6 discarder
    void run(int kind, size_t cap, const std::vector<Op>& v, bool atend) {
        bool cstr = kind < 3, disc = kind == 6;
        size_t room = cstr ? cap + 1 : cap;
        C* b = atend ? mem.end_range(room) : mem.begin_range();
        C *lo = atend ? b - 8 : b, *hi = atend ? b + room : b + room + 8;
        for (C* p = lo; p != hi; ++p) *p = canary;
        Run<C> r; std::string why; bool bad = disc; size_t pos = 0; std::basic_string<C> content; bool loose = false;
        C* rp = nullptr; bool rt = false, again = false; C* rp2 = nullptr; bool rt2 = false;
        auto body = [&](auto& d) {
            if (d.good() == disc) why += " initial good();";
            if (!disc && d.buffer_sspace() != (ptrdiff_t)cap) why += " initial buffer_space;";
            for (auto& o : v) {
                size_t before = r.stream.size(), space = bad ? 0 : cap - pos;
                if (o.k == Advance) space = d.buffer_space();
                r.apply(d, o, why); mc::step();
                size_t len = r.stream.size() - before;
                if (bad) { if (d.good()) why += " good() after overflow;"; continue; }
                if (o.k == Flush) { bad = true; }
                else if (o.k == Ensure && (size_t)o.n > space) { bad = true; }
                else if (is_print(o.k)) {
                    if (len <= space) { content.append(r.stream, before, len); pos += len; }
                    else { bad = loose = true; content.append(r.stream, before, space); }
                } else {
                    size_t k = len < space ? len : space; content.append(r.stream, before, k); pos += k;
                    if (len > space) bad = true;
                }
                if (d.good() == bad) { why += mc::sfmt(" good()=%d after %s with room %zu;", (int)d.good(), opname(o).c_str(), space); bad = !d.good(); }
                if (!bad && d.buffer_ptr() != b + pos) why += " buffer_ptr is not behind the written units;";
            }
        };
        switch (kind) {
        case 0: { strf::basic_cstr_destination<C> d(typename strf::basic_cstr_destination<C>::range{b, b + room}); body(d); auto f = d.finish(); rp = f.ptr; rt = f.truncated; break; }
        case 1: { strf::basic_cstr_destination<C> d(b, room); body(d); auto f = d.finish(); rp = f.ptr; rt = f.truncated;
                  if (d.good()) why += " good() after finish;"; Op o{Write, 70, 0}; r.apply(d, o, why); strf::put<C>(d, (C)1); auto g = d.finish(); again = true; rp2 = g.ptr; rt2 = g.truncated; break; }
        case 2: { strf::basic_cstr_destination<C> d(b, b + room); body(d); auto f = d.finish(); rp = f.ptr; rt = f.truncated; break; }
        case 3: { strf::array_destination<C> d(typename strf::array_destination<C>::range{b, b + room}); body(d); auto f = d.finish(); rp = f.ptr; rt = f.truncated; break; }
        case 4: { strf::array_destination<C> d(b, (int)room); body(d); auto f = d.finish(); rp = f.ptr; rt = f.truncated; break; }
        case 5: { strf::array_destination<C> d(b, b + room); body(d); auto f = d.finish(); rp = f.ptr; rt = f.truncated; break; }
        case 6: { strf::discarder<C> d; body(d); return report(kind, cap, v, atend, why); }
        }
        if (rt != bad) why += mc::sfmt(" truncated=%d expected %d;", (int)rt, (int)bad);
        ptrdiff_t end = rp - b;
        if (loose) {                      // the last printed item was cut somewhere
            if (end < (ptrdiff_t)pos || end > (ptrdiff_t)cap) why += mc::sfmt(" end at %ld, expected %zu..%zu;", (long)end, pos, cap);
            else content.resize((size_t)end);
        } else if (end != (ptrdiff_t)content.size()) why += mc::sfmt(" end at %ld expected %zu;", (long)end, content.size());
        if (why.empty()) {
            if (std::char_traits<C>::compare(b, content.data(), content.size()) != 0) why += " content is " + mc::show(std::basic_string<C>(b, content.size())) + " expected " + mc::show(content) + ";";
            if (cstr && b[content.size()] != 0) why += " not null-terminated;";
        }
        for (C* p = lo; p != b; ++p) if (*p != canary) { why += " wrote in front of the range;"; break; }
        for (C* p = b + room; p != hi; ++p) if (*p != canary) { why += " wrote past the range;"; break; }
        if (again && (rp2 != rp || !rt2)) why += " second finish() differs in position or is not truncated;";
        mc::state(mc::hash(content, mc::mix((std::uint64_t)kind, mc::mix(cap, bad))));
        report(kind, cap, v, atend, why);
    }
    void report(int kind, size_t cap, const std::vector<Op>& v, bool atend, const std::string& why) {
        if (mc::want_sample()) mc::sample(mc::sfmt("kind %d %s capacity %zu: ", kind, cname<C>(), cap) + opsname(v));
        if (!why.empty()) mc::fail(mc::sfmt("fixed kind=%d cap=%zu ", kind, cap) + opsname(v), mc::sfmt("%s kind=%d (0-2 cstr, 3-5 array, 6 discarder) capacity=%zu guard=%s: ", cname<C>(), kind, cap, atend ? "end" : "begin") + opsname(v) + ":" + why);
    }
};
// strf::to(range)(...) : the user-level form
template <class C> void user_level() {
    Guarded<C> mem;
    for (size_t cap = 0; cap <= 140; ++cap) for (size_t n = 0; n <= 140; ++n) for (int form = 0; form < 4; ++form) {
        if (!mc::take()) continue;
        bool cstr = form < 2; size_t room = cstr ? cap + 1 : cap; C* b = mem.end_range(room);
        if (!cstr && cap == 0) continue;
        for (size_t i = 0; i < room; ++i) b[i] = 1;
        Run<C> r; auto s = r.next(n); std::string why; C* p; bool t;
        if (form == 0) { auto f = strf::to(b, b + room)(s); p = f.ptr; t = f.truncated; }
        else if (form == 1) { auto f = strf::to(b, room)(s); p = f.ptr; t = f.truncated; }
        else if (form == 2) { auto f = strf::to_range(b, b + room)(s); p = f.ptr; t = f.truncated; }
        else { auto f = strf::to_range(b, room)(s); p = f.ptr; t = f.truncated; }
        mc::step(); size_t k = n < cap ? n : cap;
        if (p != b + k) why += mc::sfmt(" ptr=+%ld expected +%zu;", (long)(p - b), k);
        if (t != (n > cap)) why += mc::sfmt(" truncated=%d;", (int)t);
        if (std::char_traits<C>::compare(b, s.data(), k) != 0) why += " content;";
        if (cstr && b[k] != 0) why += " not null-terminated;";
        mc::state(mc::mix(cap, mc::mix(n, (std::uint64_t)form)));
        if (!why.empty()) mc::fail(mc::sfmt("to(range) form=%d cap=%zu n=%zu", form, cap, n), mc::sfmt("%s form=%d capacity=%zu string of %zu:", cname<C>(), form, cap, n) + why);
    }
}
// arrays, and ranges of every magnitude: the destination ends exactly where the array or range does
template <class C> struct Ranges {
    static constexpr C canary = (C)0x15;
    template <class D> static void take1(D& d, const std::basic_string<C>& s, C*& p, bool& t, int how) {
        if (how == 0) d.write(s.data(), s.size());
        else if (how == 1) for (C c : s) strf::put(d, c);
        else strf::to(d)(std::basic_string_view<C>(s));
        auto f = d.finish(); p = f.ptr; t = f.truncated;
    }
    static void check(const char* form, C* b, size_t room, bool cstr, const std::basic_string<C>& s, C* lo, C* hi, C* p, bool t) {
        std::string why; size_t cap = cstr ? room - 1 : room, n = s.size(), k = n < cap ? n : cap; mc::step();
        if (p != b + k) why += mc::sfmt(" ptr=+%ld expected +%zu;", (long)(p - b), k);
        if (t != (n > cap)) why += mc::sfmt(" truncated=%d;", (int)t);
        if (why.empty() && std::char_traits<C>::compare(b, s.data(), k) != 0) why += " content;";
        if (why.empty() && cstr && b[k] != 0) why += " not null-terminated;";
        for (C* q = lo; q != b; ++q) if (*q != canary) { why += " wrote in front of the range;"; break; }
        for (C* q = b + room; q != hi; ++q) if (*q != canary) { why += " wrote past the range;"; break; }
        mc::state(mc::mix(room, mc::mix(n, (std::uint64_t)form[0])));
        if (!why.empty()) mc::fail(mc::sfmt("%s room=%zu n=%zu", form, room, n), mc::sfmt("%s %s room=%zu string of %zu:", cname<C>(), form, room, n) + why);
    }
    template <size_t N> struct Room { C lo[8]; C a[N]; C hi[8]; };
    template <size_t N> static void array() {
        for (size_t n : {size_t(0), size_t(1), N - 1, N, N + 1, 2 * N + 70}) for (int form = 0; form < 8; ++form) {
            if (!mc::take()) continue;
            Room<N> m; for (C* q = m.lo; q != m.lo + 8; ++q) *q = canary; for (auto& c : m.a) c = canary; for (auto& c : m.hi) c = canary;
            Run<C> r; auto s = r.next(n); C* p = nullptr; bool t = false; bool cstr = form == 0 || form >= 2 && form <= 4;
            if (form == 0) { auto f = strf::to(m.a)(s); p = f.ptr; t = f.truncated; }
            else if (form == 1) { auto f = strf::to_range(m.a)(s); p = f.ptr; t = f.truncated; }
            else if (form <= 4) { strf::basic_cstr_destination<C> d(m.a); take1(d, s, p, t, form - 2); }
            else { strf::array_destination<C> d(m.a); take1(d, s, p, t, form - 5); }
            check("array", m.a, N, cstr, s, m.lo, m.hi + 8, p, t);
        }
    }
    template <size_t... N> static void arrays() { int x[] = {(array<N>(), 0)...}; (void)x; }
    static void large() {
        std::vector<C> buf; Run<C> r0; auto all = r0.next(140000);
        for (size_t room : {127u, 128u, 129u, 255u, 256u, 257u, 1023u, 4096u, 4097u, 32767u, 32768u, 32769u, 65535u, 65536u, 65537u, 65539u, 131073u}) for (long dn : {-2L, -1L, 0L, 1L, 300L}) for (int form = 0; form < 7; ++form) {
            if (!mc::take()) continue;
            buf.assign(room + 16, canary); C* b = buf.data() + 8; auto s = all.substr(0, (size_t)((long)room + dn)); C* p = nullptr; bool t = false; bool cstr = form < 2 || form == 4 || form == 6;
            if (form == 0) { auto f = strf::to(b, b + room)(s); p = f.ptr; t = f.truncated; }
            else if (form == 1) { auto f = strf::to(b, room)(s); p = f.ptr; t = f.truncated; }
            else if (form == 2) { auto f = strf::to_range(b, b + room)(s); p = f.ptr; t = f.truncated; }
            else if (form == 3) { auto f = strf::to_range(b, room)(s); p = f.ptr; t = f.truncated; }
            else if (form == 4) { strf::basic_cstr_destination<C> d(b, room); take1(d, s, p, t, 1); }
            else if (form == 5) { strf::array_destination<C> d(b, (long)room); take1(d, s, p, t, 1); }
            else { strf::basic_cstr_destination<C> d(b, b + room); take1(d, s, p, t, 2); }
            check("large", b, room, cstr, s, b - 8, b + room + 8, p, t);
        }
    }
};
template <class C> void all(int depth) {
    Ranges<C>::template arrays<1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 1000>(); Ranges<C>::large();
    static Fixed<C> fx;
    std::vector<Op> ops = {{Put, 1, 0}, {Write, 1, 0}, {Write, 2, 0}, {Write, 5, 0}, {Write, 65, 0}, {Ensure, 1, 1}, {Ensure, 3, 1}, {Ensure, 64, 2}, {Ensure, 2, 0}, {Advance, 0, 0}, {Iter, 2, 0}, {Flush, 0, 0}, {WriteNeg, 0, 0}, {PrintStr, 3, 0}, {PrintFill, 4, 0}, {PrintInt, 12, 0}, {PrintMix, 2, 1}};
    std::vector<size_t> caps = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 63, 64, 65, 66, 67, 70, 130, 133};
    sequences(ops, depth, [&](const std::vector<Op>& v) {
        for (auto cap : caps) {
            if (!mc::take()) continue;
            for (int kind = 0; kind < 7; ++kind) { if (kind == 6 && cap != 0) continue; fx.run(kind, cap, v, true); if (kind == 0 || kind == 3) fx.run(kind, cap, v, false); }
        }
    });
    user_level<C>();
}
static void body() {
    int d = mc::thorough() ? 5 : 4;
#if PART == 0
    all<char>(d);
#else
    all<char8_t>(3); all<char16_t>(mc::thorough() ? 4 : 3); all<char32_t>(3); all<wchar_t>(3);
#endif
}
#elif MODE == 8
// ------------------------------------------------------------------ strings, with allocation failures
static long alloc_left = -1;                    // allocations until the one that fails; -1: none fails
static bool alloc_threw = false; static long alloc_fail_len = 1;                 // how many consecutive allocations fail
template <class T> struct FaultAlloc {
    using value_type = T;
    FaultAlloc() = default; template <class U> FaultAlloc(const FaultAlloc<U>&) {}
    T* allocate(size_t n) {
        if (alloc_left == 0) { if (--alloc_fail_len <= 0) alloc_left = -1; alloc_threw = true; throw std::bad_alloc(); }
        if (alloc_left > 0) --alloc_left;
        return static_cast<T*>(::operator new(n * sizeof(T)));
    }
    void deallocate(T* p, size_t) { ::operator delete(p); }
    friend bool operator==(const FaultAlloc&, const FaultAlloc&) { return true; }
    friend bool operator!=(const FaultAlloc&, const FaultAlloc&) { return false; }
};
template <class C> struct Str {
    using S = std::basic_string<C, std::char_traits<C>, FaultAlloc<C>>;
    // kind 0 appender finish(), 1 appender destructor only, 2 appender(str,size), 3 maker, 4 sized maker, 5 maker abandoned
    void run(int kind, size_t init, size_t hint, const std::vector<Op>& v, long fault, long flen) {
        S str; for (size_t i = 0; i < init; ++i) str += (C)('a' + i % 26);
        S orig = str; Run<C> r; std::string why; bool threw = false; size_t committed = 0; S got; bool have = true;
        auto body = [&](auto& d, bool sticky) {
            alloc_left = fault; alloc_fail_len = flen; alloc_threw = false;
            for (auto& o : v) {
                size_t before = r.stream.size(); bool was = d.good();
                try { r.apply(d, o, why); mc::step(); }
                catch (const std::bad_alloc&) {
                    if (!threw) { threw = true; committed = before; }
                    if (sticky && d.good()) why += " still good() after the allocation failed;";
                    if (!sticky) return;                 // nothing is promised after a throw
                }
                if (!threw && !d.good()) why += " not good() though nothing failed;";
                if (sticky && !was && d.good()) why += " good again;";
            }
        };
        bool finished = false;
        // whatever is written after finish() is discarded: the string it gave (or appended to) does not change
        auto later = [&](auto& d, const S& res) {
            if (d.good()) why += " good() after finish;";
            S copy = res; Run<C> r2; std::string why2;
            for (int round = 0; round < 2; ++round) {
                for (auto& o : v) { try { r2.apply(d, o, why2); mc::step(); } catch (const std::exception&) { why += " writing after finish() throws;"; break; } if (d.good()) { why += " good() after finish and " + opsname({o}) + ";"; break; } }
                if (res != copy || res.data()[res.size()] != 0) { why += " writing after finish() changes the string;"; break; }
                if (round) break;
                try { d.finish(); } catch (const std::exception&) { why += " the second finish() throws;"; break; }
                if (res != copy) why += " the second finish() changes the string;";
            }
        };
        try {
            switch (kind) {
            case 0: { strf::basic_string_appender<C, std::char_traits<C>, FaultAlloc<C>> d(str); body(d, true); try { d.finish(); finished = true; } catch (const std::bad_alloc&) { threw = true; } if (d.good()) why += " good() after finish;"; alloc_left = -1; C c = 1; d.write(&c, 1); got = str; later(d, str); break; }
            case 1: { { strf::basic_string_appender<C, std::char_traits<C>, FaultAlloc<C>> d(str); body(d, true); } finished = true; threw = threw || alloc_threw; alloc_left = -1; got = str; break; }
            case 2: { strf::basic_string_appender<C, std::char_traits<C>, FaultAlloc<C>> d(str, hint); body(d, true); try { d.finish(); finished = true; } catch (const std::bad_alloc&) { threw = true; } alloc_left = -1; got = str; later(d, str); break; }
            case 3: { strf::basic_string_maker<C, std::char_traits<C>, FaultAlloc<C>> d; body(d, true); try { got = d.finish(); finished = true; } catch (const std::bad_alloc&) { threw = true; have = false; } alloc_left = -1; orig.clear(); later(d, got); break; }
            case 4: { strf::basic_sized_string_maker<C, std::char_traits<C>, FaultAlloc<C>> d(hint); body(d, false); alloc_left = -1; got = d.finish(); finished = true; orig.clear(); later(d, got); break; }
            case 5: { strf::basic_string_maker<C, std::char_traits<C>, FaultAlloc<C>> d; body(d, true); have = false; break; }
            }
        } catch (const std::bad_alloc&) { why += " unexpected bad_alloc;"; }
        alloc_left = -1;
        std::basic_string<C> want(orig.data(), orig.size()), g(got.data(), got.size()); want += r.stream;
        if (have) {
            if (!threw) { if (g != want) why += " string is " + mc::show(g) + " expected " + mc::show(want) + ";"; }
            else if (kind == 4) { if (g.size() < committed || want.compare(0, g.size(), g) != 0) why += " lost or reordered units after bad_alloc: " + mc::show(g) + " stream " + mc::show(want) + ";"; }
            else if (kind == 3) { if (!(g.empty() || want.compare(0, g.size(), g) == 0)) why += " not a prefix after bad_alloc: " + mc::show(g) + ";"; }
            else if (g.size() < orig.size() || want.compare(0, g.size(), g) != 0) why += " not a prefix after bad_alloc: " + mc::show(g) + " stream " + mc::show(want) + ";";
        }
        mc::state(mc::hash(g, mc::mix((std::uint64_t)kind, mc::mix(init * 1000 + hint, (std::uint64_t)(fault + 1) * 2 + threw))));
        if (mc::want_sample()) mc::sample(mc::sfmt("%s kind %d init %zu hint %zu fault %ld: ", cname<C>(), kind, init, hint, fault) + opsname(v));
        if (!why.empty()) mc::fail(mc::sfmt("string kind=%d init=%zu hint=%zu fault=%ld ", kind, init, hint, fault) + opsname(v), mc::sfmt("%s kind=%d (0-2 appender, 3,5 maker, 4 sized maker) init=%zu hint=%zu fault=%ld/%ld: ", cname<C>(), kind, init, hint, fault, flen) + opsname(v) + ":" + why);
    }
    // the user-level forms, with every reserve policy
    void user() {
        for (size_t n = 0; n <= 200; ++n) for (size_t m : {0u, 1u, 40u, 64u, 100u}) for (int form = 0; form < 12; ++form) {
            if (!mc::take()) continue;
            Run<C> r; auto a = r.next(n); r.stream += a; auto b = r.next(m); r.stream += b; std::basic_string<C> want = r.stream, pre = want.substr(0, m), s = pre, g; std::string why;
            switch (form) {
            case 0: strf::append(s)(a, b); g = s; want = pre + want; break;
            case 1: strf::append(s).reserve_calc()(a, b); g = s; want = pre + want; break;
            case 2: strf::append(s).reserve(m)(a, b); g = s; want = pre + want; break;
            case 3: strf::append(s).no_reserve()(a, b); g = s; want = pre + want; break;
            case 4: strf::assign(s)(a, b); g = s; break;
            case 5: strf::assign(s).reserve_calc()(a, b); g = s; break;
            case 6: strf::assign(s).reserve(3)(a, b); g = s; break;
            case 7: g = strf::to_basic_string<C>(a, b); break;
            case 8: g = strf::to_basic_string<C>.reserve_calc()(a, b); break;
            case 9: g = strf::to_basic_string<C>.reserve(m)(a, b); break;
            case 10: g = strf::to_basic_string<C>.reserve(0)(a, b); break;
            case 11: g = strf::to_basic_string<C>.no_reserve()(a, b); break;
            }
            mc::step(); mc::state(mc::mix(n, mc::mix(m, (std::uint64_t)form)));
            if (g != want) mc::fail(mc::sfmt("user form=%d n=%zu m=%zu", form, n, m), mc::sfmt("%s form=%d n=%zu m=%zu: got %s expected %s", cname<C>(), form, n, m, mc::show(g).c_str(), mc::show(want).c_str()));
        }
    }
};
template <class C> void all(int depth, int fdepth) {
    static Str<C> st;
    std::vector<Op> ops = {{Put, 1, 0}, {Write, 1, 0}, {Write, 7, 0}, {Write, 63, 0}, {Write, 65, 0}, {Write, 150, 0}, {Ensure, 1, 1}, {Ensure, 64, 63}, {Ensure, 40, 30}, {Advance, 0, 0}, {Iter, 3, 0}, {Flush, 0, 0}, {WriteNeg, 0, 0}, {PrintStr, 33, 0}, {PrintFill, 70, 0}, {PrintInt, 12, 0}, {PrintMix, 20, 45}};
    sequences(ops, depth, [&](const std::vector<Op>& v) {
        if (!mc::take()) return;
        for (size_t init : {0u, 5u, 20u}) for (int k = 0; k < 3; ++k) st.run(k, init, k == 2 ? (init == 20 ? 3 : 100) : 0, v, -1, 0);
        st.run(3, 0, 0, v, -1, 0); st.run(5, 0, 0, v, -1, 0);
        for (size_t h : {0u, 1u, 3u, 16u, 63u, 64u, 65u, 100u, 300u}) st.run(4, 0, h, v, -1, 0);
    });
    // every allocation that the history makes fails in turn (once, or from then on)
    sequences(ops, fdepth, [&](const std::vector<Op>& v) {
        if (!mc::take()) return;
        for (long fault = 0; fault < 7; ++fault) for (long len : {1L, 1000L}) {
            for (size_t init : {0u, 5u}) for (int k = 0; k < 3; ++k) { if (k == 2) continue; st.run(k, init, 0, v, fault, len); }
            st.run(3, 0, 0, v, fault, len); st.run(5, 0, 0, v, fault, len);
            for (size_t h : {0u, 3u, 64u}) st.run(4, 0, h, v, fault, len);
        }
    });
    st.user();
}
static void body() {
#if PART == 0
    all<char>(mc::thorough() ? 5 : 4, mc::thorough() ? 4 : 3);
#else
    all<char8_t>(3, 2); all<char16_t>(3, 3); all<char32_t>(3, 2); all<wchar_t>(3, 2);
#endif
}
#elif MODE == 9
// ------------------------------------------------------------------ std::streambuf with faults
template <class C> struct Sink : std::basic_streambuf<C> {
    std::basic_string<C> got; size_t limit; long throw_at; int calls = 0; bool failed = false, thrown = false; int after = 0; bool bytewise;
    Sink(size_t l, long t, bool b) : limit(l), throw_at(t), bytewise(b) {}
    std::streamsize xsputn(const C* p, std::streamsize n) override {
        if (calls++ == throw_at) { failed = thrown = true; throw 42; }
        if (bytewise) return std::basic_streambuf<C>::xsputn(p, n);
        size_t k = got.size() + (size_t)n <= limit ? (size_t)n : limit - got.size();
        if (failed && n > 0) ++after;
        got.append(p, k); if (k < (size_t)n) failed = true;
        return (std::streamsize)k;
    }
    using T = std::char_traits<C>;
    typename T::int_type overflow(typename T::int_type c) override {
        if (got.size() >= limit) { if (failed) ++after; failed = true; return T::eof(); }
        got += T::to_char_type(c); return T::not_eof(c);
    }
};
template <class C> void run(const std::vector<Op>& v, size_t limit, long throw_at, bool bytewise, int fin) {
    Sink<C> sink(limit, throw_at, bytewise); Run<C> r; std::string why; bool threw = false; bool failed_before_finish = false;
    std::streamsize cnt = -1; bool suc = false; bool finthrew = false;
    {
        auto session = [&](auto& d) {
        for (auto& o : v) {
            try { r.apply(d, o, why); } catch (int) { threw = true; }
            mc::step();
            if (sink.failed && d.good()) { why += mc::sfmt(" good() after the streambuf failed (%s);", opname(o).c_str()); break; }
            if (!sink.failed && !d.good()) { why += " not good() though nothing failed;"; break; }
        }
        failed_before_finish = sink.failed;
        if (fin) {
            try { auto f = d.finish(); cnt = f.count; suc = f.success; } catch (int) { threw = finthrew = true; }
            if (d.good()) why += " good() after finish;";
            C c = 1; d.write(&c, 1);
        }
        };
        if (limit & 1) { strf::basic_streambuf_writer<C> d(sink); session(d); } else { strf::basic_streambuf_writer<C> d(&sink); session(d); }
    }
    if (sink.after) why += mc::sfmt(" %d more units/writes offered after the failure;", sink.after);
    if (r.stream.compare(0, sink.got.size(), sink.got) != 0 || sink.got.size() > r.stream.size()) why += " received " + mc::show(sink.got) + " is not a prefix of " + mc::show(r.stream) + ";";
    if (!sink.failed && sink.got != r.stream) why += mc::sfmt(" received %zu of %zu units though nothing failed;", sink.got.size(), r.stream.size());
    if (!sink.thrown && sink.failed && sink.got.size() != limit) why += " stopped before the limit;";
    if (fin && !finthrew) {
        if (cnt != (std::streamsize)sink.got.size() && !(bytewise && sink.failed && false)) why += mc::sfmt(" count=%ld received %zu;", (long)cnt, sink.got.size());
        if (suc == sink.failed) why += mc::sfmt(" success=%d;", (int)suc);
    }
    mc::state(mc::hash(sink.got, mc::mix((std::uint64_t)throw_at * 8 + (std::uint64_t)fin * 4 + suc * 2 + threw, r.stream.size())));
    if (mc::want_sample()) mc::sample(mc::sfmt("%s accepts %zu, throws at call %ld: ", cname<C>(), limit, throw_at) + opsname(v));
    if (!why.empty()) mc::fail(mc::sfmt("streambuf limit=%zu throw=%ld bytewise=%d fin=%d ", limit, throw_at, (int)bytewise, fin) + opsname(v), mc::sfmt("%s streambuf accepting %zu units, throwing at call %ld, bytewise=%d finish=%d: ", cname<C>(), limit, throw_at, (int)bytewise, fin) + opsname(v) + ":" + why);
}
template <class C> void all(int depth) {
    std::vector<Op> ops = {{Put, 1, 0}, {Write, 1, 0}, {Write, 7, 0}, {Write, 63, 0}, {Write, 66, 0}, {Write, 130, 0}, {Ensure, 1, 1}, {Ensure, 64, 63}, {Ensure, 40, 30}, {Advance, 0, 0}, {Iter, 3, 0}, {Flush, 0, 0}, {WriteNeg, 0, 0}, {PrintStr, 33, 0}, {PrintFill, 70, 0}, {PrintInt, 12, 0}, {PrintMix, 20, 45}};
    sequences(ops, depth, [&](const std::vector<Op>& v) {
        if (!mc::take()) return;
        Run<C> probe; size_t total = 0;
        { strf::basic_string_maker<C> d; std::string w; for (auto& o : v) probe.apply(d, o, w); total = probe.stream.size(); }
        std::vector<size_t> lims = {0, 1, 2, 5, 6, 7, 8, 29, 30, 31, 62, 63, 64, 65, 66, 67, 71, 93, 94, 127, 128, 129, 130, 131, 192, 193, 194, 195};
        for (size_t k = total > 2 ? total - 2 : 0; k <= total + 1; ++k) lims.push_back(k);
        for (int fin = 0; fin < 2; ++fin) {
            for (auto l : lims) { run<C>(v, l, -1, false, fin); if (l % 3 == 0) run<C>(v, l, -1, true, fin); }
            for (long t = 0; t < 2L * (long)v.size() + 2 && t < 9; ++t) { run<C>(v, 1 << 20, t, false, fin); run<C>(v, 100, t, false, fin); }
        }
    });
    // user level
    for (size_t n = 0; n <= 200; ++n) for (size_t lim = 0; lim <= 210; ++lim) {
        if (!mc::take()) continue;
        Sink<C> s(lim, -1, false); Run<C> r; auto a = r.next(n); auto x = strf::to(static_cast<std::basic_streambuf<C>&>(s))(a); Sink<C> s2(lim, -1, false); auto y = strf::to(static_cast<std::basic_streambuf<C>*>(&s2))(a);
        size_t k = n < lim ? n : lim; mc::step(2); mc::state(mc::mix(n, lim));
        if (x.count != (std::streamsize)k || x.success != (n <= lim) || s.got != a.substr(0, k) || y.count != x.count || y.success != x.success || s2.got != s.got)
            mc::fail(mc::sfmt("to(streambuf) n=%zu limit=%zu", n, lim), mc::sfmt("%s string of %zu into a streambuf accepting %zu: count=%ld success=%d received %zu", cname<C>(), n, lim, (long)x.count, (int)x.success, s.got.size()));
    }
}
static void body() {
#if PART == 0
    all<char>(mc::thorough() ? 5 : 4);
#else
    all<char16_t>(3); all<wchar_t>(3); all<char8_t>(3); all<char32_t>(2);
#endif
}
#else
// ------------------------------------------------------------------ FILE* with faults
#include <wchar.h>
struct Cookie { std::string got; size_t limit; bool failed = false; int after = 0; };
static ssize_t cookie_write(void* c, const char* p, size_t n) {
    auto& k = *static_cast<Cookie*>(c);
    if (k.failed && n > 0) ++k.after;
    size_t m = k.got.size() + n <= k.limit ? n : k.limit - k.got.size();
    k.got.append(p, m); if (m < n) { k.failed = true; errno = ENOSPC; }
    return (ssize_t)m;
}
template <class C, size_t B> void run(const std::vector<Op>& v, size_t limit_bytes, int fin, bool full_buffering) {
    Cookie ck; ck.limit = limit_bytes; Run<C> r; std::string why; std::size_t cnt = 0; bool suc = false;
    cookie_io_functions_t io{}; io.write = cookie_write;
    FILE* f = fopencookie(&ck, "w", io); if (!full_buffering) setvbuf(f, nullptr, _IONBF, 0);
    {
        strf::narrow_cfile_writer<C, B> d(f);
        if (d.buffer_space() != B) why += " initial buffer_space;";
        for (auto& o : v) {
            r.apply(d, o, why); mc::step();
            if (!full_buffering) {
                if (ck.failed && d.good()) { why += mc::sfmt(" good() after the file failed (%s);", opname(o).c_str()); break; }
                if (!ck.failed && !d.good()) { why += " not good() though nothing failed;"; break; }
            }
        }
        if (fin) { auto x = d.finish(); cnt = x.count; suc = x.success; if (d.good()) why += " good() after finish;"; C c = 1; d.write(&c, 1); }
    }
    bool early = ck.failed; size_t have = ck.got.size();
    fclose(f);
    std::string want(reinterpret_cast<const char*>(r.stream.data()), r.stream.size() * sizeof(C));
    if (want.compare(0, ck.got.size(), ck.got) != 0 || ck.got.size() > want.size()) why += " the file is not a prefix of what was written;";
    if (!ck.failed && ck.got != want) why += mc::sfmt(" the file has %zu of %zu bytes though nothing failed;", ck.got.size(), want.size());
    if (!full_buffering) {
        if (ck.after) why += " writes after the failure;";
        if (early && have != limit_bytes) why += " stopped before the limit;";
        if (fin) { if (cnt != have / sizeof(C)) why += mc::sfmt(" count=%zu, file has %zu units;", cnt, have / sizeof(C)); if (suc == early) why += mc::sfmt(" success=%d;", (int)suc); }
    } else if (fin && !ck.failed && (cnt != r.stream.size() || !suc)) why += mc::sfmt(" count=%zu success=%d for %zu units;", cnt, (int)suc, r.stream.size());
    mc::state(mc::hash(ck.got.data(), ck.got.size(), mc::mix((std::uint64_t)fin * 4 + suc * 2 + early, want.size() * 1000 + limit_bytes)));
    if (mc::want_sample()) mc::sample(mc::sfmt("%s buffer %zu file accepts %zu bytes: ", cname<C>(), B, limit_bytes) + opsname(v));
    if (!why.empty()) mc::fail(mc::sfmt("cfile limit=%zu fin=%d buffered=%d B=%zu ", limit_bytes, fin, (int)full_buffering, B) + opsname(v), mc::sfmt("%s narrow_cfile_writer buffer %zu, file accepts %zu bytes, finish=%d, stdio buffering=%d: ", cname<C>(), B, limit_bytes, fin, (int)full_buffering) + opsname(v) + ":" + why);
}
// wide: the file is a sealed memory file of `limit` bytes; ASCII text takes one byte per character
#include <fcntl.h>
static void wide(const std::vector<Op>& v, size_t limit, int fin) {
    static char mem[1 << 16]; Run<wchar_t> r; std::string why; std::size_t cnt = 0; bool suc = false;
    int fd = memfd_create("wide", MFD_ALLOW_SEALING); if (fd < 0 || ftruncate(fd, (off_t)limit) != 0 || fcntl(fd, F_ADD_SEALS, F_SEAL_GROW) != 0) abort();
    FILE* f = fdopen(dup(fd), "w"); setvbuf(f, nullptr, _IONBF, 0); fwide(f, 1);
    {
        strf::wide_cfile_writer d(f);
        for (auto& o : v) { r.apply(d, o, why); mc::step(); }
        if (fin) { auto x = d.finish(); cnt = x.count; suc = x.success; if (d.good()) why += " good() after finish;"; wchar_t c = 1; d.write(&c, 1); }
    }
    fclose(f);
    std::string want; for (auto c : r.stream) want += (char)c;
    bool fits = want.size() <= limit; if (!fits) want.resize(limit);
    ssize_t n = pread(fd, mem, sizeof mem, 0); close(fd); std::string got(mem, n > 0 ? (size_t)n : 0); want.resize(limit);
    if (got != want) why += " file has " + mc::show(got) + " expected " + mc::show(want) + ";";
    if (fin && (suc != fits || cnt != (fits ? r.stream.size() : limit))) why += mc::sfmt(" count=%zu success=%d;", cnt, (int)suc);
    mc::state(mc::hash(got, mc::mix(limit, 77 + (std::uint64_t)fin)));
    if (!why.empty()) mc::fail(mc::sfmt("wide limit=%zu fin=%d ", limit, fin) + opsname(v), mc::sfmt("wide_cfile_writer, file accepts %zu bytes, finish=%d: ", limit, fin) + opsname(v) + ":" + why);
}
// FILEs that refuse for other reasons than lack of space. kind 0: oriented the other way (fails without setting the
// error indicator), 1: opened for reading, 2 (wide): one character cannot be encoded, 3: accepts everything
struct OddFile {
    int fd; FILE* f;
    OddFile(int kind, int other, int buffering) {
        fd = memfd_create("odd", 0); if (fd < 0) abort();
        f = fdopen(dup(fd), kind == 1 ? "r" : "w"); if (buffering == 0) setvbuf(f, nullptr, _IONBF, 0);
        if (kind == 0) fwide(f, other);
    }
    std::string close_() { fclose(f); static char mem[1 << 16]; ssize_t n = pread(fd, mem, sizeof mem, 0); close(fd); return std::string(mem, n > 0 ? (size_t)n : 0); }
};
static void odd() {
    for (int kind = 0; kind < 4; ++kind) for (size_t n = 1; n <= 200; ++n) for (size_t bad = 0; bad < (kind == 2 ? n : 1); bad += bad < 4 || n - bad < 4 ? 1 : 3) for (int level = 0; level < 4; ++level) {
        if (!mc::take()) continue;
        std::wstring a; for (size_t i = 0; i < n; ++i) a += (wchar_t)('a' + (int)(i % 26));
        if (kind == 2) a[bad] = (wchar_t)0x4E2D; // no such character in the "C" locale
        OddFile ref(kind, -1, 0); size_t k = 0; while (k < n && fputwc(a[k], ref.f) != WEOF) ++k;
        OddFile o(kind, -1, 0); size_t cnt; bool suc, more = false;
        if (level == 0) { auto x = strf::wto(o.f)(a); cnt = x.count; suc = x.success; }
        else if (level == 1) { auto x = strf::wto(o.f)(a.substr(0, n / 2), a.substr(n / 2)); cnt = x.count; suc = x.success; }
        else { strf::wide_cfile_writer d(o.f); if (level == 2) d.write(a.data(), (std::ptrdiff_t)n); else { for (auto c : a) strf::put(d, c); } d.recycle();
               more = d.good() != (k == n); if (k < n) d.write(L"more", 4); auto x = d.finish(); cnt = x.count; suc = x.success; }
        auto got = o.close_(), want = ref.close_(); mc::step(n); mc::state(mc::hash(got, mc::mix((std::uint64_t)kind * 4 + (std::uint64_t)level, n * 1000 + bad)));
        if (cnt != k || suc != (k == n) || more || got != want)
            mc::fail(mc::sfmt("odd wide kind=%d n=%zu bad=%zu level=%d", kind, n, bad, level), mc::sfmt("wide FILE of kind %d (0 byte oriented, 1 read-only, 2 unencodable character at %zu, 3 regular), %zu characters, level %d: count=%zu success=%d%s; file has %s, fputwc alone gives %zu characters and ", kind, bad, n, level, cnt, (int)suc, more ? " good() is wrong" : "", mc::show(got).c_str(), k) + mc::show(want));
    }
}
template <class C> void oddn() {
    for (int kind = 0; kind < 4; ++kind) { if (kind == 2) continue; for (size_t n = 1; n <= 200; ++n) for (int level = 0; level < 4; ++level) for (int buffering = 0; buffering < (kind == 0 ? 2 : 1); ++buffering) {
        if (!mc::take()) continue;
        Run<C> r; auto a = r.next(n); size_t k = kind == 3 ? n : 0;
        OddFile o(kind, 1, buffering); size_t cnt; bool suc, more = false;
        if (level == 0) { auto x = strf::to<C>(o.f)(a); cnt = x.count; suc = x.success; }
        else if (level == 1) { auto x = strf::to<C>(o.f)(a.substr(0, n / 2), a.substr(n / 2)); cnt = x.count; suc = x.success; }
        else { strf::narrow_cfile_writer<C, 64> d(o.f); if (level == 2) d.write(a.data(), (std::ptrdiff_t)n); else { for (auto c : a) strf::put(d, c); } d.recycle();
               more = d.good() != (k == n); if (k < n) d.write(a.data(), 1); auto x = d.finish(); cnt = x.count; suc = x.success; }
        auto got = o.close_(); mc::step(n); mc::state(mc::hash(got, mc::mix((std::uint64_t)kind * 8 + (std::uint64_t)level * 2 + (std::uint64_t)buffering, n)));
        if (cnt != k || suc != (k == n) || more || got != std::string((const char*)a.data(), k * sizeof(C)))
            mc::fail(mc::sfmt("odd kind=%d n=%zu level=%d", kind, n, level), mc::sfmt("%s FILE of kind %d (0 wide oriented, 1 read-only, 3 regular), %zu units, level %d: count=%zu success=%d%s; file has %zu bytes", cname<C>(), kind, n, level, cnt, (int)suc, more ? " good() is wrong" : "", got.size()));
    } }
}
template <class C, size_t B> void all(int depth) {
    std::vector<Op> ops = {{Put, 1, 0}, {Write, 1, 0}, {Write, 7, 0}, {Write, 63, 0}, {Write, 66, 0}, {Write, 130, 0}, {Ensure, 1, 1}, {Ensure, 64, 63}, {Ensure, 40, 30}, {Advance, 0, 0}, {Iter, 3, 0}, {Flush, 0, 0}, {WriteNeg, 0, 0}, {PrintStr, 33, 0}, {PrintFill, 70, 0}, {PrintInt, 12, 0}, {PrintMix, 20, 45}};
    sequences(ops, depth, [&](const std::vector<Op>& v) {
        if (!mc::take()) return;
        Run<C> probe; size_t total = 0;
        { strf::basic_string_maker<C> d; std::string w; for (auto& o : v) probe.apply(d, o, w); total = probe.stream.size() * sizeof(C); }
        std::vector<size_t> lims; for (size_t u : {0, 1, 6, 7, 8, 30, 63, 64, 65, 66, 67, 127, 128, 129, 193}) { lims.push_back(u * sizeof(C)); if (sizeof(C) > 1 && u % 3 == 0) lims.push_back(u * sizeof(C) + 1); }
        for (size_t k = total > sizeof(C) ? total - sizeof(C) : 0; k <= total + 1; ++k) lims.push_back(k);
        for (int fin = 0; fin < 2; ++fin) for (auto l : lims) run<C, B>(v, l, fin, false);
        run<C, B>(v, 1 << 20, 1, true); run<C, B>(v, 1 << 20, 0, true);
        if (sizeof(C) == 4) for (size_t l : {0, 1, 7, 30, 31, 63, 64, 65, 67, 128, 130, 1000}) for (int fin = 0; fin < 2; ++fin) wide(v, l, fin);
    });
    for (size_t n = 0; n <= 200; ++n) for (size_t lim = 0; lim <= 210; ++lim) {
        if (!mc::take()) continue;
        Cookie ck; ck.limit = lim * sizeof(C); cookie_io_functions_t io{}; io.write = cookie_write; FILE* f = fopencookie(&ck, "w", io); setvbuf(f, nullptr, _IONBF, 0);
        Run<C> r; auto a = r.next(n); auto x = strf::to<C>(f)(a); size_t k = n < lim ? n : lim; mc::step(); mc::state(mc::mix(n, lim));
        if (x.count != k || x.success != (n <= lim) || ck.got != std::string((const char*)a.data(), k * sizeof(C)))
            mc::fail(mc::sfmt("to(FILE*) n=%zu limit=%zu", n, lim), mc::sfmt("%s string of %zu to a file accepting %zu units: count=%zu success=%d received %zu bytes", cname<C>(), n, lim, x.count, (int)x.success, ck.got.size()));
        fclose(f);
    }
}
static void body() {
    int t = mc::thorough();
#if PART == 0
    all<char, 64>(t ? 4 : 3);
    all<char, 100>(2 + t);
    oddn<char>();
#else
    odd(); oddn<char16_t>(); oddn<char32_t>(); oddn<wchar_t>();
    all<char16_t, 64>(2 + t); all<char32_t, 64>(2 + t); all<char8_t, 64>(2 + t);
#endif
}
#endif
MC_MAIN(body)
