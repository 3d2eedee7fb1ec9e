// Reference for printed integers: written from the documentation, with std::string only.
#ifndef INTMODEL_HPP
#define INTMODEL_HPP
#include <string>
#include <vector>
#include <cstdint>
namespace im {
struct Spec {
    int base = 10; bool showbase = false; int sign = 0;      // sign: 0 negative only, 1 '+', 2 fill
    int prec = 0, pad0 = 0; bool punct = false;
    int align = -1, width = 0; char32_t fill = U' ';         // -1 none, 0 left, 1 right, 2 center
    bool upper_digits = false, upper_base = false;
    std::vector<int> groups; bool stop = false; char32_t sep = U',';   // groups from the least significant; last repeats unless stop
};
// sizes of the digit groups, least significant first
inline std::vector<size_t> split(size_t digits, const std::vector<int>& groups, bool stop) {
    std::vector<size_t> r;
    size_t i = 0;
    while (digits > 0) {
        size_t g = groups.empty() ? digits : i < groups.size() ? (size_t)groups[i] : stop ? digits : (size_t)groups.back();
        ++i;
        if (g > digits) g = digits;
        r.push_back(g); digits -= g;
    }
    return r;
}
inline std::u32string grouped(const std::string& digits, const std::vector<int>& groups, bool stop, char32_t sep) {
    auto g = split(digits.size(), groups, stop);
    std::u32string r; size_t pos = 0;
    for (size_t i = g.size(); i-- > 0; ) { for (size_t k = 0; k < g[i]; ++k) r += (char32_t)digits[pos++]; if (i) r += sep; }
    return r;
}
inline std::u32string aligned(const std::u32string& core, int align, int width, char32_t fill) {
    if (align < 0 || width <= (int)core.size()) return core;
    size_t n = (size_t)width - core.size(), l = align == 0 ? 0 : align == 1 ? n : n / 2;
    return std::u32string(l, fill) + core + std::u32string(n - l, fill);
}
inline std::u32string print(bool is_signed, bool neg, std::uint64_t mag, std::uint64_t raw, const Spec& s, bool sep_ok = true) {
    std::uint64_t v = s.base == 10 ? mag : raw;
    std::string d;
    do { d.insert(d.begin(), (s.upper_digits ? "0123456789ABCDEF" : "0123456789abcdef")[v % (unsigned)s.base]); v /= (unsigned)s.base; } while (v);
    std::u32string prefix;
    if (s.base == 10) {
        if (neg) prefix = U"-";
        else if (is_signed && s.sign == 1) prefix = U"+";
        else if (is_signed && s.sign == 2) prefix = std::u32string(1, s.align < 0 ? U' ' : s.fill);
    } else if (s.showbase) {
        if (s.base == 8) { if (raw) prefix = U"0"; }
        else { prefix = U"0"; prefix += s.base == 16 ? (s.upper_base ? U'X' : U'x') : (s.upper_base ? U'B' : U'b'); }
    }
    std::u32string body = s.punct && sep_ok ? grouped(d, s.groups, s.stop, s.sep) : std::u32string(d.begin(), d.end());
    int prec = s.prec; if (s.base == 8 && !prefix.empty()) --prec;              // as in printf: the leading 0 counts
    int zeros = prec > (int)d.size() ? prec - (int)d.size() : 0;
    int cur = (int)(prefix.size() + body.size());
    if (s.pad0 - cur > zeros) zeros = s.pad0 - cur;
    return aligned(prefix + std::u32string((size_t)zeros, U'0') + body, s.align, s.width, s.fill);
}
} // namespace im
#endif
