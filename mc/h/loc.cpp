// C25: locale_numpunct() reflects the current locale.
// PART 0: every lconv (decimal point x thousands separator x grouping) x codeset, with localeconv() and
//         nl_langinfo() replaced by stand-ins;  PART 1: the locales of this system, against printf.
#include <clocale>
#include <climits>
#include <langinfo.h>
#include <string>
#include <strf/locale.hpp>
#include "print.hpp"
#include "utfmodel.hpp"
#include "intmodel.hpp"
#include "data/sbtables.hpp"
#include <dlfcn.h>
using std::size_t;
using std::string;

#if PART == 0
static string g_point, g_sep, g_grp, g_code; static char g_none[] = "";
static struct lconv g_lc;
extern "C" struct lconv* localeconv() noexcept {
    g_lc.decimal_point = g_point.data(); g_lc.thousands_sep = g_sep.data(); g_lc.grouping = g_grp.data();
    g_lc.int_curr_symbol = g_lc.currency_symbol = g_lc.positive_sign = g_none; g_lc.negative_sign = g_none;
    static char other[] = "?", mg[] = "\4";                 // monetary formatting is something else
    g_lc.mon_decimal_point = other; g_lc.mon_thousands_sep = other; g_lc.mon_grouping = mg;
    return &g_lc;
}
extern "C" char* nl_langinfo(nl_item i) noexcept {
    if (i == CODESET) return g_code.data();
    if (i == RADIXCHAR) return g_point.data();
    if (i == THOUSEP) return g_sep.data();
    static auto real = (char* (*)(nl_item))dlsym(RTLD_NEXT, "nl_langinfo");
    return real(i);
}
static std::int16_t no_enc[0x10000];
struct Code { const char* name; const um::Enc* e; };
static const um::Enc e1{um::SB, "ISO-8859-1", dec_iso_8859_1, no_enc}, e3{um::SB, "ISO-8859-3", dec_iso_8859_3, no_enc}, e15{um::SB, "ISO-8859-15", dec_iso_8859_15, no_enc};
static const std::vector<Code> CODES = {{"UTF-8", &um::utf(um::U8)}, {"ISO-8859-1", &e1}, {"ISO-8859-3", &e3}, {"ISO-8859-15", &e15}, {"KOI8-R", nullptr}, {"", nullptr}, {"UTF-81", nullptr}, {"ISO-8859-14", nullptr}};
static char32_t first(const string& s, const Code& c) {
    if ((unsigned char)s[0] < 0x80) return (char32_t)s[0];
    if (!c.e) return 0xFFFFFFFF;
    auto it = um::decode1(*c.e, [&](size_t i) { return (std::uint32_t)(std::uint8_t)s[i]; }, 0, s.size(), false);
    return it.ok ? it.cp : 0xFFFD;
}
struct Grp { string s; std::vector<int> g; bool stop; };
static std::vector<Grp> GRPS(bool all) {
    std::vector<Grp> r; std::vector<std::vector<int>> gs{{}, {3}, {3, 2}, {31}, {1, 2, 3, 4, 5, 6}};
    if (all) {
        for (int a = 1; a <= 31; ++a) { gs.push_back({a}); for (int b = 1; b <= 31; ++b) gs.push_back({a, b}); }
        for (int a = 1; a < 5; ++a) for (int b = 1; b < 5; ++b) for (int c = 1; c < 5; ++c) { gs.push_back({a, b, c}); for (int d = 1; d < 4; ++d) { gs.push_back({a, b, c, d}); gs.push_back({a, b, c, d, 3}); gs.push_back({a, b, c, d, 3, 2}); } }
        gs.push_back({31, 31, 31, 31, 31, 31}); gs.push_back({3, 3, 3, 3, 3, 3});
    }
    for (auto& g : gs) for (int stop = 0; stop < 5; ++stop) {
        string s; for (int x : g) s += (char)x;
        static const char* end[] = {"", "\x7f", "\xff", "\x7f\x03", "\xff\x02"};   // what follows CHAR_MAX does not matter
        r.push_back({s + end[stop], g, stop > 0});
    }
    return r;
}
static void one(const Code& code, const string& point, const string& sep, const Grp& g, bool print) {
    if (!mc::take()) return;
    g_point = point; g_sep = sep; g_grp = g.s; g_code = code.name;
    const char32_t p0 = point.empty() ? 0xFFFFFFFF : first(point, code);
    const char32_t p = p0 == 0xFFFFFFFF ? 0xFFFD : p0;
    char32_t s = sep.empty() ? 0xFFFD : first(sep, code);
    const bool grouped = !g.g.empty() && s != 0xFFFD;
    if (s == 0xFFFFFFFF) s = 0xA0;
    auto np = strf::locale_numpunct();
    g_point = "!"; g_sep = "?"; g_grp = "\1"; g_code = "?";              // the object does not depend on the locale any more
    string key = mc::sfmt("localeconv: decimal_point %s, thousands_sep %s, grouping %s, codeset \"%s\"", mc::show(point).c_str(), mc::show(sep).c_str(), mc::show(g.s).c_str(), code.name), why;
    static_assert(std::is_same<decltype(np), strf::numpunct<10>>::value, "");
    if (np.decimal_point() != p) why += mc::sfmt(" decimal point is U+%X, expected U+%X;", (unsigned)np.decimal_point(), (unsigned)p);
    if (grouped && np.thousands_sep() != s) why += mc::sfmt(" thousands separator is U+%X, expected U+%X;", (unsigned)np.thousands_sep(), (unsigned)s);
    for (int dc = 1; dc <= 100; ++dc) {
        if (dc > 24 && dc % 9) continue;
        int n = grouped ? (int)im::split((size_t)dc, g.g, g.stop).size() - 1 : 0; mc::step();
        if (np.thousands_sep_count(dc) != n) { why += mc::sfmt(" %d digits have %d separators, expected %d;", dc, np.thousands_sep_count(dc), n); break; }
    }
    mc::state(mc::hash(key));
    if (!why.empty()) { mc::fail(key, key + ":" + why); return; }
    if (mc::want_sample()) mc::sample(key + mc::sfmt(" -> U+%X, U+%X, %d separators in 20 digits", (unsigned)np.decimal_point(), (unsigned)np.thousands_sep(), np.thousands_sep_count(20)));
    if (!print) return;
    std::vector<int> gg; if (grouped) gg = g.g;
    for (std::uint64_t v : {(std::uint64_t)0, (std::uint64_t)999, (std::uint64_t)1000, (std::uint64_t)1234567, (std::uint64_t)18446744073709551615u}) {
        auto exp = pr::enc<char>(im::grouped(std::to_string(v), gg, g.stop, s));
        pr::check<0>(exp, [&](auto&& k) { k(strf::pack(np), !strf::dec(v)); }, {.width = (long)im::grouped(std::to_string(v), gg, g.stop, s).size(), .level = 0}, [&] { return key + " printing " + std::to_string(v); });
    }
    auto e16 = pr::enc<char16_t>(im::grouped("1234567", gg, g.stop, s) + std::u32string(1, p) + U"5");
    pr::check<0>(e16, [&](auto&& k) { k(strf::pack(np), !strf::fixed(1234567.5)); }, {.level = 0}, [&] { return key + " printing 1234567.5"; });
}
static void run() {
    std::vector<string> U8W;                        // words of UTF-8 units: first ones from everywhere, then the boundaries
    const std::vector<unsigned char> B = {0x20, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAC, 0xBF, 0xC0, 0xFF};
    for (unsigned a = 1; a < 256; ++a) { string x(1, (char)a); U8W.push_back(x); if (a < 0x80 && a != '.') { U8W.push_back(x + "x"); U8W.push_back(x + "\xC3"); continue; }
        for (auto b : B) { string y = x + (char)b; U8W.push_back(y); for (auto c : B) { string z = y + (char)c; U8W.push_back(z); if (a >= 0xE0) for (auto d : B) U8W.push_back(z + (char)d); } } }
    const std::vector<string> S = {"", ".", ",", "'", " ", "\x01", "\x7F", "\xA0", "\xB7", "\xA4", "\xC2\xA0", "\xE2\x80\xAF", "\xF0\x9F\x98\x80", "\xEF\xBF\xBD", "\xFF", "\xC2", ", ", "\xD9\xAB\xD9\xAC"};
    const Grp G3 = {"\3", {3}, false}, G32 = {"\3\2\x7F", {3, 2}, true}, G0 = {"", {}, false};
    for (auto& c : CODES) {
        auto few = GRPS(false);
        for (auto& p : S) for (auto& s : S) for (auto& g : few) one(c, p, s, g, true);
        for (auto& w : U8W) for (const char* o : {".", "", "\xC2\xA0", "\xA6"}) for (auto& g : {G3, G32, G0}) { one(c, w, o, g, false); one(c, o, w, g, false); if (o[0] == '.') one(c, w, w, g, true); }
        for (auto& g : GRPS(true)) { one(c, ",", "\xC2\xA0", g, false); one(c, ".", ",", g, true); if (c.e) for (char32_t k : {0x20ACu, 0x1F600u, 0xFFFDu}) { string u = pr::enc<char>(std::u32string(1, k)); one(c, u, u, g, true); } }
    }
    // every character as a separator and as a decimal point, in UTF-8
    for (char32_t k = 0x80; k <= 0x10FFFF; ++k) { if (k >= 0xD800 && k < 0xE000) continue; if (!mc::thorough() && k > 0x3000 && k % 17 && (k & 0xFFF) > 3 && (k & 0xFFF) < 0xFFC) continue; string u = pr::enc<char>(std::u32string(1, k)); one(CODES[0], ".", u, G3, false); one(CODES[0], u, "", G3, false); one(CODES[0], u, u, G32, false); }
}
#else
// the locales installed, each in every category alone and together; printf is the oracle
static string cfmt(const char* f, double d) { char b[600]; std::snprintf(b, sizeof b, f, d); return b; }
static void run() {
    for (const char* name : {"C", "POSIX", "C.utf8", "en_US.utf8", "de_DE.utf8", "as_IN.utf8", ""}) for (int cat : {LC_ALL, LC_NUMERIC, LC_MONETARY, LC_CTYPE}) for (const char* base : {"C", "en_US.utf8", "de_DE.utf8"}) {
        if (!mc::take()) continue;
        std::setlocale(LC_ALL, "C");
        if (!std::setlocale(LC_ALL, base) || !std::setlocale(cat, name)) continue;
        string cur = std::setlocale(LC_ALL, nullptr), key = "locale " + cur;
        auto np = strf::locale_numpunct();
        if (cur != std::setlocale(LC_ALL, nullptr)) mc::fail(key + " changed", key + ": locale_numpunct() changed the current locale");
        std::vector<string> ei, ef; std::vector<std::uint64_t> iv; std::vector<double> fv;
        for (unsigned n = 1; n <= 20; ++n) { std::uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v = v * 10 + (i + 1) % 10; iv.push_back(v); v = 1; for (unsigned i = 1; i < n; ++i) v *= 10; iv.push_back(v); iv.push_back(v - 1); }
        for (double d : {0.0, 0.5, 1.25, -999.875, 1000.0, 1234567.5, 1e15, -123456789012.0625, 1e22, 9007199254740992.0}) fv.push_back(d);
        for (auto v : iv) { char b[100]; std::snprintf(b, sizeof b, "%'llu", (unsigned long long)v); ei.push_back(b); }
        for (auto v : fv) ef.push_back(cfmt("%'.4f", v));
        std::setlocale(LC_ALL, "C");                            // has no effect on np
        for (size_t i = 0; i < iv.size(); ++i) pr::check<0>(ei[i], [&](auto&& k) { k(strf::pack(np), !strf::dec(iv[i])); }, {.level = 1}, [&] { return key + " printing " + std::to_string(iv[i]); });
        for (size_t i = 0; i < fv.size(); ++i) pr::check<0>(ef[i], [&](auto&& k) { k(strf::pack(np), strf::fixed(fv[i]).p(4).punct()); }, {.level = 1}, [&] { return key + " printing " + cfmt("%g", fv[i]); });
        if (mc::want_sample()) mc::sample(key + " -> " + ei[57] + " " + ef[7]);
        // without it, numbers are printed as in the C locale, whatever the current locale
        std::setlocale(LC_ALL, base);
        pr::check<0>(string("1234567 1.5 1234.5"), [&](auto&& k) { k(strf::pack(), 1234567, " ", 1.5, " ", !strf::fixed(1234.5)); }, {.level = 1}, [&] { return key + ", no facet"; });
        std::setlocale(LC_ALL, "C");
    }
}
#endif
MC_MAIN(run)
