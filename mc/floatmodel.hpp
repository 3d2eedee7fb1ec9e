// Reference for printed floating-point numbers, on decimal strings.
// The shortest digits come from std::to_chars (libstdc++'s Ryu), which shares nothing with strf.
#ifndef FLOATMODEL_HPP
#define FLOATMODEL_HPP
#include <string>
#include <vector>
#include <cstdint>
#include <cstring>
#include <charconv>
#include "intmodel.hpp"
namespace fm {
enum Notation { Gen, Fixed, Sci, Hex };
struct Spec {
    int notation = Gen, prec = -1; bool showpoint = false; int sign = 0;
    int pad0 = 0; bool punct = false;
    int align = -1, width = 0; char32_t fill = U' ';
    int lc = 0;                                               // 0 lower, 1 mixed, 2 upper
    std::vector<int> groups; bool stop = false; char32_t sep = U',', point = U'.'; bool sep_ok = true;
    char32_t hexpoint = U'.';
};
struct Val {
    bool neg = false, nan = false, inf = false;
    std::string d = "0"; int e10 = 0;        // shortest digits: d * 10^e10; no trailing zeros
    unsigned lead = 0; std::uint64_t frac = 0; int e2 = 0;    // lead.frac(52 bits) * 2^e2
};
template <class F> Val decompose(F f) {
    Val v; constexpr bool D = sizeof(F) == 8;
    std::uint64_t b = 0; std::memcpy(&b, &f, sizeof f);
    const int mb = D ? 52 : 23, bias = D ? 1023 : 127;
    v.neg = b >> (D ? 63 : 31);
    std::uint64_t m = b & ((std::uint64_t(1) << mb) - 1); int e = (int)((b >> mb) & (D ? 0x7FF : 0xFF));
    if (e == (D ? 0x7FF : 0xFF)) { (m ? v.nan : v.inf) = true; return v; }
    v.frac = D ? m : m << 29; v.lead = e ? 1 : 0; v.e2 = e ? e - bias : m ? 1 - bias : 0;
    if (e == 0 && m == 0) return v;
    char buf[64]; F a = v.neg ? -f : f;
    auto r = std::to_chars(buf, buf + 64, a, std::chars_format::scientific);
    std::string s(buf, r.ptr); auto pe = s.find('e');
    v.d.clear(); for (char c : s.substr(0, pe)) if (c != '.') v.d += c;
    int x = std::atoi(s.c_str() + pe + 1);
    while (v.d.size() > 1 && v.d.back() == '0') v.d.pop_back();
    v.e10 = x - (int)v.d.size() + 1;
    return v;
}
// rounds the decimal 0.d1d2... * 10^pt, half to even, keeping n digits (n may be <= 0)
inline void round_digits(std::string& d, int& pt, int n) {
    if ((int)d.size() <= n) return;
    if (n < 0) { d.clear(); return; }
    char next = d[(size_t)n]; bool more = d.find_first_not_of('0', (size_t)n + 1) != std::string::npos;
    bool odd = n > 0 && ((d[(size_t)n - 1] - '0') & 1);
    bool up = next > '5' || (next == '5' && (more || odd));
    d.resize((size_t)n);
    if (!up) return;
    int i = n; while (i > 0 && d[(size_t)i - 1] == '9') { d[(size_t)i - 1] = '0'; --i; }
    if (i > 0) ++d[(size_t)i - 1]; else { d.insert(d.begin(), '1'); ++pt; }
}
inline std::u32string u(const std::string& s) { return std::u32string(s.begin(), s.end()); }
// quirk: drop trailing zeros in spite of showpoint where rounding produced them (see known_findings.json)
inline std::u32string print(const Val& v, const Spec& s, bool quirk = false) {
    std::u32string sign;
    char32_t fill = s.align < 0 ? U' ' : s.fill;
    if (v.neg) sign = U"-"; else if (s.sign == 1) sign = U"+"; else if (s.sign == 2) sign = std::u32string(1, fill);
    int align = s.align < 0 ? 1 : s.align, width = s.align < 0 ? 0 : s.width;
    if (v.nan || v.inf) {
        static const char* T[2][3] = {{"nan", "NaN", "NAN"}, {"inf", "Inf", "INF"}};
        return im::aligned(sign + u(T[v.inf][s.lc]), align, s.pad0 > width ? s.pad0 : width, fill);
    }
    std::u32string prefix, body;
    if (s.notation == Hex) {
        prefix = s.lc == 2 ? U"0X" : U"0x";
        unsigned lead = v.lead; std::uint64_t frac = v.frac; int e = v.e2;
        int nd = 13;
        if (s.prec >= 0 && s.prec < 13) {
            nd = s.prec;
            unsigned __int128 all = (unsigned __int128)lead << 52 | frac; int sh = (13 - nd) * 4;
            unsigned __int128 q = all >> sh, r = all & (((unsigned __int128)1 << sh) - 1), half = (unsigned __int128)1 << (sh - 1);
            if (r > half || (r == half && (q & 1))) ++q;
            all = q << sh; lead = (unsigned)(all >> 52); frac = (std::uint64_t)all & 0xFFFFFFFFFFFFFull;
            if (lead == 2) { lead = 1; frac = 0; ++e; }
        }
        const char* H = s.lc == 0 ? "0123456789abcdef" : "0123456789ABCDEF";
        std::string fd; for (int i = 0; i < nd; ++i) fd += H[(frac >> (48 - 4 * i)) & 15];
        if (s.prec < 0) while (!fd.empty() && fd.back() == '0') fd.pop_back();
        else if (s.prec > 13) fd += std::string((size_t)s.prec - 13, '0');
        body += (char32_t)('0' + lead);
        if (!fd.empty() || s.showpoint) body += s.punct ? s.hexpoint : U'.';
        body += u(fd);
        body += s.lc == 2 ? U'P' : U'p'; body += e < 0 ? U'-' : U'+'; body += u(std::to_string(e < 0 ? -e : e));
    } else {
        bool zero = v.d == "0";
        std::string d = v.d; int pt = (int)d.size() + v.e10;      // value = 0.d * 10^pt
        if (zero) pt = 1;
        auto ipart = [&](const std::string& dd, int p) { return p > 0 ? dd.substr(0, (size_t)p < dd.size() ? (size_t)p : dd.size()) + std::string(p > (int)dd.size() ? (size_t)p - dd.size() : 0, '0') : std::string("0"); };
        auto fixed = [&](const std::string& dd, int p, int nfrac, bool point) {       // nfrac digits after the point
            std::string ip = ipart(dd, p), fr = p <= 0 ? std::string((size_t)-p, '0') + dd : p < (int)dd.size() ? dd.substr((size_t)p) : "";
            if ((int)fr.size() < nfrac) fr += std::string((size_t)nfrac - fr.size(), '0'); else fr.resize((size_t)nfrac);
            std::u32string r = s.punct && s.sep_ok ? im::grouped(ip, s.groups, s.stop, s.sep) : u(ip);
            if (nfrac > 0 || point) r += s.punct ? s.point : U'.';
            return r + u(fr);
        };
        auto sci = [&](const std::string& dd, int x, int nfrac, bool point) {
            std::string fr = dd.substr(1); if ((int)fr.size() < nfrac) fr += std::string((size_t)nfrac - fr.size(), '0'); else fr.resize((size_t)nfrac);
            std::u32string r(1, (char32_t)dd[0]);
            if (nfrac > 0 || point) r += s.punct ? s.point : U'.';
            r += u(fr); r += s.lc == 2 ? U'E' : U'e'; r += x < 0 ? U'-' : U'+';
            std::string xs = std::to_string(x < 0 ? -x : x); if (xs.size() < 2) xs = "0" + xs;
            return r + u(xs);
        };
        int nat = (int)d.size() > pt ? (int)d.size() - pt : 0;    // fractional digits of the shortest form
        if (zero) nat = 0;
        if (s.prec < 0) {
            if (s.notation == Fixed) body = fixed(d, pt, nat, s.showpoint);
            else if (s.notation == Sci) body = sci(d, pt - 1, (int)d.size() - 1, s.showpoint);
            else {
                std::u32string a = sci(d, pt - 1, (int)d.size() - 1, s.showpoint), b = fixed(d, pt, nat, s.showpoint);
                body = a.size() < b.size() ? a : b;
            }
        } else if (s.notation == Fixed) {
            if (!zero) { round_digits(d, pt, pt + s.prec); }
            if (d.empty()) { d = "0"; pt = 1; }
            body = fixed(d, pt, s.prec, s.showpoint);
        } else if (s.notation == Sci) {
            round_digits(d, pt, s.prec + 1);
            body = sci(d, pt - 1, s.prec, s.showpoint);
        } else {
            int P = s.prec ? s.prec : 1;
            int pt0 = pt; bool rounded = (int)d.size() > P;
            round_digits(d, pt, P);
            bool sp = s.showpoint && !(quirk && rounded && pt == pt0);
            int x = pt - 1;
            if (x < -4 || x >= P) {
                while (d.size() > 1 && d.back() == '0') d.pop_back();
                body = sci(d, x, sp ? P - 1 : (int)d.size() - 1, s.showpoint);
            } else {
                while (d.size() > 1 && d.back() == '0') d.pop_back();
                int n = (int)d.size() > pt ? (int)d.size() - pt : 0;
                body = fixed(d, pt, sp ? P - 1 - x : n, s.showpoint);
            }
        }
    }
    int len = (int)(sign.size() + prefix.size() + body.size());
    std::u32string zeros(s.pad0 > len ? (size_t)(s.pad0 - len) : 0, U'0');
    return im::aligned(sign + prefix + zeros + body, align, width, fill);
}
} // namespace fm
#endif
