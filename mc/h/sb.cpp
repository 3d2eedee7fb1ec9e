// Single-byte charsets: conversion to and from UTF-32 and sanitizing, against tables that come from Python.
// PART selects a quarter of the charsets.
#include "transcheck.hpp"
#include "data/sbtables.hpp"

template <class S, class D, strf::charset_id A, strf::charset_id B> struct Trio {
    using T = strf::static_transcoder<S, D, A, B>;
    Checker<S, D, T, CONTENT> c; Checker<S, D, T, CAPACITY> p; Checker<S, D, T, UNSAFE> u;
    Trio(const um::Enc& s, const um::Enc& d) : c(s, d), p(s, d), u(s, d) {}
    void content(const std::vector<std::uint32_t>& w, unsigned fm) { S b[8]; for (std::size_t i = 0; i < w.size(); ++i) b[i] = (S)w[i]; c.word(b, w.size(), fm); }
    void all(const std::vector<std::uint32_t>& w, unsigned fm) { S b[80]; for (std::size_t i = 0; i < w.size(); ++i) b[i] = (S)w[i]; c.word(b, w.size(), fm); p.word(b, w.size(), fm); u.word(b, w.size(), fm); }
};
template <class F> void words(const std::vector<std::uint32_t>& al, std::size_t L0, std::size_t L1, F f) {
    std::vector<std::uint32_t> w;
    for (std::size_t L = L0; L <= L1; ++L) {
        std::vector<std::size_t> ix(L, 0); w.resize(L);
        for (;;) {
            for (std::size_t i = 0; i < L; ++i) w[i] = al[ix[i]];
            f(w);
            std::size_t k = L; while (k > 0 && ++ix[k - 1] == al.size()) ix[--k] = 0;
            if (k == 0) break;
        }
    }
}
template <strf::charset_id Id, class C> void run(const char* name, const std::uint32_t* dec, bool full) {
    static std::vector<std::int16_t> inv; inv.assign(0x10000, -1);
    for (int b = 255; b >= 0; --b) if (dec[b] != UNDEF) inv[dec[b]] = (std::int16_t)b;
    inv[0xFFFD] = -1;
    static um::Enc e; e = um::Enc{um::SB, name, dec, inv.data()};
    const um::Enc& u32 = um::utf(um::U32);
    bool th = mc::thorough();
    auto& to = *new Trio<C, char32_t, Id, strf::csid_utf32>(e, u32);
    auto& tow = *new Trio<C, wchar_t, Id, strf::csid_utf32>(e, u32);
    auto& from = *new Trio<char32_t, C, strf::csid_utf32, Id>(u32, e);
    auto& fromw = *new Trio<wchar_t, C, strf::csid_utf32, Id>(u32, e);
    auto& san = *new Trio<C, C, Id, Id>(e, e);
    // bytes
    std::vector<std::uint32_t> undef, al = {0x00, 'A', 0x7F, 0x80, 0x9F, 0xA0, 0xA1, 0xE9, 0xFF};
    for (unsigned b = 0; b < 256; ++b) if (dec[b] == UNDEF) undef.push_back(b);
    if (!undef.empty()) { al.push_back(undef.front()); al.push_back(undef.back()); }
    auto bytes = [&](const std::vector<std::uint32_t>& w) { if (!mc::take()) return; to.all(w, 0xFF); tow.all(w, 0xFF); san.all(w, 0xFF); };
    for (unsigned b = 0; b < 256; ++b) { bytes({b}); bytes({'x', b}); bytes({b, 'x', b}); bytes({b, b, 'x', b}); }
    words(al, 0, th ? 4 : full ? 3 : 2, bytes);
    // codepoints
    std::vector<std::uint32_t> cl = {'A', 0x7F, 0x80, 0xE9, 0x4E00, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x80000041};
    cl.push_back(dec[0xFF] != UNDEF ? dec[0xFF] : dec[0xA0] != UNDEF ? dec[0xA0] : 'z');
    auto cps = [&](const std::vector<std::uint32_t>& w) { if (!mc::take()) return; from.all(w, 0xFF); fromw.all(w, 0xFF); };
    words(cl, 0, th ? 4 : full ? 3 : 2, cps);
    for (std::uint32_t cp = 0; cp < 0x110100; ++cp) {
        if (!mc::take()) continue;
        from.content({cp}, cp < 0x10000 ? 0xFF : 0xC1); if (cp < 0x10000) fromw.content({cp}, 0xC1);
    }
    std::vector<std::uint32_t> run;
    for (unsigned b = 0; b < 256; ++b) if (dec[b] != UNDEF) { cps({dec[b], 0x4E00, dec[b]}); }
    for (std::size_t len : {15u, 16u, 17u, 63u, 64u, 65u}) for (std::size_t pos = 0; pos < len; ++pos) {
        run.assign(len, 'q'); run[pos] = 0xFF; if (dec[0xFF] == UNDEF && !undef.empty()) run[pos] = undef.back(); bytes(run);
        run[pos] = pos & 1 ? 0x4E00 : 0xDFFF; cps(run);
    }
    mc::count(name);
}
template <int N, strf::charset_id Id> void do_one(const char* name, const std::uint32_t* dec) {
    if constexpr (N % 4 == PART) { run<Id, char>(name, dec, true); run<Id, char8_t>(name, dec, false); }
}
constexpr int base = __COUNTER__ + 1;
#define X(ID, NAME) do_one<__COUNTER__ - base, strf::csid_##ID>(NAME, dec_##ID);
void body() { SB_LIST(X) }
MC_MAIN(body)
