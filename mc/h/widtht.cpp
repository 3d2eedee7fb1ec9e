// C19: arithmetic of strf::width_t (Q16.16) against exact integer arithmetic.
// PART 0: pairs, integers of every type, literals   PART 1: unary operations on (nearly) all values
#include <strf.hpp>
#include <limits>
#include <set>
#include "mc.hpp"
using strf::width_t;
using I = __int128;
static width_t W(std::int32_t v) { return width_t::from_underlying(v); }
static std::int32_t V(width_t w) { return w.underlying_value(); }
static std::int32_t sat(I v) { return v > INT32_MAX ? INT32_MAX : v < INT32_MIN ? INT32_MIN : (std::int32_t)v; }
static bool fits(I v) { return v >= INT32_MIN && v <= INT32_MAX; }
static int sgn(I v) { return (v > 0) - (v < 0); }
static std::string sw(std::int32_t v) { return mc::sfmt("%d/65536", v); }
static void chk(const char* op, std::int32_t a, std::string b, I got, I want) {
    mc::step();
    if (got == want) return;
    auto k = std::string(op) + " " + sw(a) + " , " + b;
    mc::fail(k, k + mc::sfmt(": got %lld expected %lld", (long long)got, (long long)want));
}
static std::vector<std::int32_t> widths() {
    std::set<std::int32_t> s;
    for (int k = 0; k < 32; ++k) for (int d = -2; d <= 2; ++d) { std::int64_t v = ((std::int64_t)1 << k) + d; s.insert(sat(v)); s.insert(sat(-v)); s.insert(sat(v * 3)); s.insert(sat(-v * 3)); }
    for (std::int64_t n : {0, 1, 2, 3, 5, 7, 10, 100, 181, 182, 255, 256, 1000, 16384, 30000, 32766, 32767, 32768}) for (std::int64_t f : {0, 1, 0x3FFF, 0x7FFF, 0x8000, 0x8001, 0xC000, 0xFFFF}) { s.insert(sat(n * 65536 + f)); s.insert(sat(-(n * 65536 + f))); }
    return {s.begin(), s.end()};
}
template <class T> std::vector<T> ints() {
    std::set<T> s; using L = std::numeric_limits<T>;
    for (int k = 0; k < (int)sizeof(T) * 8; ++k) for (int d = -2; d <= 2; ++d) { unsigned long long v = (1ull << k) + (unsigned long long)d; s.insert((T)v); s.insert((T)(0 - v)); }
    for (long long n : {0, 1, 2, 3, 10, 100, 255, 1000, 30000, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 1000000}) { s.insert((T)n); s.insert((T)-n); }
    s.insert(L::min()); s.insert(L::max()); s.insert(L::max() - 1);
    return {s.begin(), s.end()};
}
static void pair(std::int32_t a, std::int32_t b) {
    width_t x = W(a), y = W(b); auto sb = sw(b); I A = a, B = b;
    chk("==", a, sb, x == y, a == b); chk("!=", a, sb, x != y, a != b); chk("<", a, sb, x < y, a < b); chk("<=", a, sb, x <= y, a <= b); chk(">", a, sb, x > y, a > b); chk(">=", a, sb, x >= y, a >= b);
    chk("sat_add", a, sb, V(strf::sat_add(x, y)), sat(A + B)); chk("sat_sub", a, sb, V(strf::sat_sub(x, y)), sat(A - B));
    I p = A * B / 65536;
    chk("sat_mul", a, sb, V(strf::sat_mul(x, y)), sat(p));
    width_t z = x; z.sat_add(y); chk(".sat_add", a, sb, V(z), sat(A + B)); z = x; z.sat_sub(y); chk(".sat_sub", a, sb, V(z), sat(A - B)); z = x; z.sat_mul(y); chk(".sat_mul", a, sb, V(z), sat(p));
    if (fits(A + B)) { chk("+", a, sb, V(x + y), A + B); z = x; z += y; chk("+=", a, sb, V(z), A + B); }
    if (fits(A - B)) { chk("-", a, sb, V(x - y), A - B); z = x; z -= y; chk("-=", a, sb, V(z), A - B); }
    if (fits(p)) { chk("*", a, sb, V(x * y), p); z = x; z *= y; chk("*=", a, sb, V(z), p); }
    if (b != 0) { I q = A * 65536 / B; if (fits(q)) { chk("/", a, sb, V(x / y), q); z = x; z /= y; chk("/=", a, sb, V(z), q); } }
    mc::state(mc::mix((std::uint32_t)a, (std::uint32_t)b));
}
template <class T> void with_int(const char* tn, std::int32_t a, T i) {
    width_t x = W(a); I A = a, B = (I)i * 65536; auto sb = mc::sfmt("%s %lld%s", tn, (long long)i, std::is_unsigned_v<T> && sizeof(T) == 8 ? "u" : "");
    chk("compare", a, sb, sgn(strf::compare(x, i)), sgn(A - B)); chk("compare (reversed)", a, sb, sgn(strf::compare(i, x)), sgn(B - A));
    if constexpr (std::is_signed_v<T>) {
        chk("sat_add", a, sb, V(strf::sat_add(x, i)), sat(A + B)); chk("sat_add (reversed)", a, sb, V(strf::sat_add(i, x)), sat(A + B));
        chk("sat_sub", a, sb, V(strf::sat_sub(x, i)), sat(A - B));
    }
    if constexpr (!(std::is_unsigned_v<T> && sizeof(T) == 2)) { chk("sat_mul", a, sb, V(strf::sat_mul(x, i)), sat(A * (I)i)); chk("sat_mul (reversed)", a, sb, V(strf::sat_mul(i, x)), sat(A * (I)i)); }
    if constexpr (sizeof(T) == 2 && std::is_signed_v<T>) {
        chk("== int16", a, sb, x == i, A == B); chk("!= int16", a, sb, x != i, A != B); chk("< int16", a, sb, x < i, A < B); chk("<= int16", a, sb, x <= i, A <= B); chk("> int16", a, sb, x > i, A > B); chk(">= int16", a, sb, x >= i, A >= B);
        chk("int16 ==", a, sb, i == x, A == B); chk("int16 !=", a, sb, i != x, A != B); chk("int16 <", a, sb, i < x, B < A); chk("int16 <=", a, sb, i <= x, B <= A); chk("int16 >", a, sb, i > x, B > A); chk("int16 >=", a, sb, i >= x, B >= A);
        if (fits(A + B)) { chk("+ int16", a, sb, V(x + i), A + B); chk("int16 +", a, sb, V(i + x), A + B); }
        if (fits(A - B)) chk("- int16", a, sb, V(x - i), A - B);
        if (fits(B - A)) chk("int16 -", a, sb, V(i - x), B - A);
        if (fits(A * (I)i)) { chk("* int16", a, sb, V(x * i), A * (I)i); chk("int16 *", a, sb, V(i * x), A * (I)i); }
        if (i != 0 && fits(A / (I)i)) chk("/ int16", a, sb, V(x / i), A / (I)i);
        if (a != 0 && fits(B * 65536 / A)) chk("int16 /", a, sb, V(i / x), B * 65536 / A);
        width_t z; T j = i; z = j; chk("= int16", a, sb, V(z), B);
    }
}
template <class T> void convert(const char* tn, T i) {
    auto sb = mc::sfmt("%s %lld", tn, (long long)i);
    chk("width_t(int)", 0, sb, V(width_t(i)), sat((I)i * 65536));
    if constexpr (sizeof(T) > 2) chk("sat_cast", 0, sb, V(width_t::sat_cast(i)), sat((I)i * 65536) == INT32_MIN && (I)i > -32768 ? 0 : sat((I)i * 65536));
}
static void unary(std::int32_t a) {
    width_t x = W(a); std::int64_t A = a;
    std::int64_t fl = A >> 16, ce = -((-A) >> 16), mag = A < 0 ? -A : A, ro = (mag + 0x7FFF) >> 16; if (A < 0) ro = -ro;      // nearest, ties towards zero
    bool ok = x.floor() == fl && x.ceil() == ce && x.round() == ro && x.non_negative_floor() == (A < 0 ? 0 : fl) && x.non_negative_ceil() == (A < 0 ? 0 : ce) && x.underlying_value() == a
        && (+x).underlying_value() == a && (a == INT32_MIN || (-x).underlying_value() == -a) && x.zero() == (a == 0) && x.not_zero() == (a != 0) && x.gt_zero() == (a > 0) && x.ge_zero() == (a >= 0) && x.lt_zero() == (a < 0) && x.le_zero() == (a <= 0);
    mc::step(12);
    if (!ok) { auto k = "unary " + sw(a); mc::fail(k, k + mc::sfmt(": floor %d ceil %d round %d non_negative_floor %d non_negative_ceil %d; expected %lld %lld %lld", (int)x.floor(), (int)x.ceil(), (int)x.round(), (int)x.non_negative_floor(), (int)x.non_negative_ceil(), (long long)fl, (long long)ce, (long long)ro)); }
}
static void body() {
#if PART == 0
    auto ws = widths();
    for (auto a : ws) {
        if (!mc::take()) continue;
        for (auto b : ws) pair(a, b);
#define T(t) for (auto i : ints<t>()) { with_int<t>(#t, a, i); }
        T(std::int16_t) T(std::uint16_t) T(int) T(unsigned) T(long) T(unsigned long) T(long long) T(unsigned long long)
#ifndef SMALL
        for (int i = -32768; i <= 32767; ++i) with_int<std::int16_t>("int16", a, (std::int16_t)i);
#endif
        if (mc::want_sample()) mc::sample(sw(a) + " with every other width and integer");
    }
    if (mc::take()) {
#define C(t) for (auto i : ints<t>()) convert<t>(#t, i);
        C(std::int16_t) C(std::uint16_t) C(int) C(unsigned) C(long) C(unsigned long) C(long long) C(unsigned long long)
        for (int i = -70000; i <= 70000; ++i) { convert<int>("int", i); convert<long>("long", i); if (i >= 0) { convert<unsigned>("unsigned", (unsigned)i); if (i < 65536) convert<std::uint16_t>("uint16", (std::uint16_t)i); } if (i >= -32768 && i < 32768) convert<std::int16_t>("int16", (std::int16_t)i); }
        using namespace strf::width_literal;
#define L(lit, txt, v) chk("literal " txt, 0, "", V(lit), v);
#include "data/wlits.hpp"
        chk("max", 0, "", V(strf::width_max), INT32_MAX); chk("min", 0, "", V(strf::width_min), INT32_MIN); chk("max()", 0, "", V(width_t::max()), INT32_MAX); chk("min()", 0, "", V(width_t::min()), INT32_MIN); chk("default", 0, "", V(width_t()), 0);
    }
    // every pair of multiples of 1/8 in -16..16, and random-free lattice over the whole range
    for (int a = -16 * 8; a <= 16 * 8; ++a) { if (!mc::take()) continue; for (int b = -16 * 8; b <= 16 * 8; ++b) pair(a << 13, b << 13); }
    for (std::int64_t a = INT32_MIN; a <= INT32_MAX; a += mc::thorough() ? 1000003 : 4000037) { if (!mc::take()) continue; for (std::int64_t b = INT32_MIN; b <= INT32_MAX; b += 4100021) pair((std::int32_t)a, (std::int32_t)b); }
#else
    std::int64_t stride = mc::thorough() ? 1 : 5;
    for (std::int64_t hi = INT32_MIN; hi <= INT32_MAX; hi += 65536) {
        if (!mc::take()) continue;
        for (std::int64_t v = hi; v < hi + 65536; ++v) if (v % stride == 0 || v - hi < 3 || v - hi > 65533 || (v - hi > 0x7FFD && v - hi < 0x8003)) unary((std::int32_t)v);
        mc::state((std::uint64_t)hi);
        if (mc::want_sample()) mc::sample(mc::sfmt("unary operations on the widths [%lld, %lld]/65536", (long long)hi, (long long)hi + 65535));
    }
#endif
}
MC_MAIN(body)
