// Reference model of string widths: extended grapheme clusters (UAX #29) and documented character widths.
#ifndef WIDTHMODEL_HPP
#define WIDTHMODEL_HPP
#include <string>
#include <vector>
#include "data/gcb.hpp"
using u32s = std::u32string;
static std::vector<unsigned char> cls_tab;
static void init_cls() {
    cls_tab.assign(0x110000, G_Other);
    for (auto& r : gcb_ranges) for (unsigned c = r.a; c <= r.b; ++c) cls_tab[c] = r.c;
    for (unsigned c = 0xAC00; c <= 0xD7A3; ++c) cls_tab[c] = (c - 0xAC00) % 28 ? G_LVT : G_LV;
}
static int cls(char32_t c) { return cls_tab[c]; }
static int cw(char32_t c) {     // docs/ref_width.adoc, std_width_calc char_width
    static const struct { unsigned a, b; } r[] = {{0x1100,0x115F},{0x2329,0x232A},{0x2E80,0x303E},{0x3040,0xA4CF},{0xAC00,0xD7A3},{0xF900,0xFAFF},{0xFE10,0xFE19},{0xFE30,0xFE6F},{0xFF00,0xFF60},{0xFFE0,0xFFE6},{0x1F300,0x1F64F},{0x1F900,0x1F9FF},{0x20000,0x2FFFD},{0x30000,0x3FFFD}};
    for (auto& x : r) if (c >= x.a && c <= x.b) return 2;
    return 1;
}
// UAX #29 (revision 37) rules GB3..GB999: is there a boundary before s[i]?
static bool boundary(const u32s& s, size_t i) {
    if (i == 0) return true;
    int p = cls(s[i - 1]), c = cls(s[i]);
    auto ctl = [](int k) { return k == G_CN || k == G_CR || k == G_LF; };
    if (p == G_CR && c == G_LF) return false;                                                // GB3
    if (ctl(p) || ctl(c)) return true;                                                       // GB4, GB5
    if (p == G_L && (c == G_L || c == G_V || c == G_LV || c == G_LVT)) return false;          // GB6
    if ((p == G_LV || p == G_V) && (c == G_V || c == G_T)) return false;                      // GB7
    if ((p == G_LVT || p == G_T) && c == G_T) return false;                                   // GB8
    if (c == G_EX || c == G_ZWJ || c == G_SM) return false;                                   // GB9, GB9a
    if (p == G_PP) return false;                                                             // GB9b
    if (p == G_ZWJ && c == G_XP) {                                                           // GB11
        size_t k = i - 1; while (k > 0 && cls(s[k - 1]) == G_EX) --k;
        if (k > 0 && cls(s[k - 1]) == G_XP) return false;
    }
    if (p == G_RI && c == G_RI) {                                                            // GB12, GB13
        size_t n = 0, k = i; while (k > 0 && cls(s[k - 1]) == G_RI) { --k; ++n; }
        if (n % 2) return false;
    }
    return true;
}
struct Cl { size_t pos; int w; };
static void clusters(const u32s& s, std::vector<Cl>& v) { v.clear(); for (size_t i = 0; i < s.size(); ++i) if (boundary(s, i)) v.push_back({i, cw(s[i])}); }

#endif
