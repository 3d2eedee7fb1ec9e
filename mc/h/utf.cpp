// UTF-8/16/32 transcoders against the reference model.
//   MODE 1: content, error reports and stop reasons   (C01)
//   MODE 2: every output capacity, transcode_size, resumption   (C02)
//   MODE 3: unsafe_* on valid input, every capacity   (C03)
#include "transcheck.hpp"

template <class S, class D> struct Pair : Checker<S, D, strf::utf_to_utf<S, D>, MODE> {
    Pair() : Checker<S, D, strf::utf_to_utf<S, D>, MODE>(um::utf(um::utf_kind<S>()), um::utf(um::utf_kind<D>())) {}
};
template <class S> struct Src {
    Pair<S, char> p8; Pair<S, char8_t> p8u; Pair<S, char16_t> p16; Pair<S, char32_t> p32; Pair<S, wchar_t> pw;
    bool wide_types;      // also the other character types of the same encoding
    void word(const S* w, std::size_t n, unsigned fm) {
        if (!mc::take()) return;
        p8.word(w, n, fm); p16.word(w, n, fm); p32.word(w, n, fm);
        if (wide_types) { p8u.word(w, n, fm); pw.word(w, n, fm); }
    }
    // all words of length 0..L over the alphabet
    void words(const std::vector<std::uint32_t>& al, std::size_t L0, std::size_t L, unsigned fm) {
        S w[16];
        for (std::size_t len = L0; len <= L; ++len) {
            std::vector<std::size_t> ix(len, 0);
            for (;;) {
                for (std::size_t i = 0; i < len; ++i) w[i] = (S)al[ix[i]];
                word(w, len, fm);
                std::size_t k = len;
                while (k > 0 && ++ix[k - 1] == al.size()) ix[--k] = 0;
                if (k == 0) break;
            }
        }
    }
};

static const std::vector<std::uint32_t> A8 = {0x00,0x41,0x7F,0x80,0x8F,0x90,0x9F,0xA0,0xBF,0xC0,0xC1,0xC2,0xDF,0xE0,0xE1,0xEC,0xED,0xEE,0xEF,0xF0,0xF1,0xF3,0xF4,0xF5,0xF7,0xF8,0xFF};
static const std::vector<std::uint32_t> A8s = {0x41,0x80,0x9F,0xA0,0xBF,0xC2,0xE0,0xED,0xF0,0xF4,0xFF};
static const std::vector<std::uint32_t> A8v = {0x41,0x80,0x90,0xBF,0xDF,0xE0,0xED,0xEF,0xF1};
static const std::vector<std::uint32_t> A16 = {0,0x41,0x7F,0x80,0x7FF,0x800,0xD7FF,0xD800,0xDBFF,0xDC00,0xDFFF,0xE000,0xFFFD,0xFFFE,0xFFFF};
static const std::vector<std::uint32_t> A16s = {0x41,0x80,0x800,0xD800,0xDBFF,0xDC00,0xDFFF,0xFFFF};
static const std::vector<std::uint32_t> A32 = {0,0x41,0x7F,0x80,0x7FF,0x800,0xD7FF,0xD800,0xDBFF,0xDC00,0xDFFF,0xE000,0xFFFD,0xFFFF,0x10000,0x10FFFF,0x110000,0x7FFFFFFF,0x80000000,0xFFFFFFFF};
static const std::vector<std::uint32_t> A32s = {0x41,0x80,0x800,0xD800,0xDC00,0xFFFF,0x10000,0x110000};

template <class S> void run8() {
    auto& s = *new Src<S>; s.wide_types = false;
    bool th = mc::thorough();
    const unsigned f4 = 0x0F, f8 = 0xFF;
    S w[8];
    s.words(A8, 0, 3, f8);
    if constexpr (std::is_same_v<S, char>) {
#if MODE == 1
        s.words(A8, 4, th ? 5 : 4, f4);
        s.words(A8s, 5, th ? 7 : 6, f4);
        // every 1-, 2- and 3-byte sequence
        for (unsigned a = 0; a < 256; ++a) { w[0] = (S)a; s.word(w, 1, f8); for (unsigned b = 0; b < 256; ++b) { w[1] = (S)b; s.word(w, 2, f4); for (unsigned c = 0; c < 256; ++c) {
            if (!th && (b & 0xC0) != 0x80 && (c & 0xF) != 0xF && (c & 0xF) != 0) continue;
            w[2] = (S)c; s.word(w, 3, th ? f4 : (a ^ b ^ c) & 1 ? 0x5 : 0xA); } } }
#elif MODE == 2
        s.words(A8s, 4, th ? 6 : 5, f4);
        if (th) s.words(A8, 4, 4, f4);
        for (unsigned a = 0; a < 256; ++a) { w[0] = (S)a; s.word(w, 1, f8); for (unsigned b = 0; b < 256; ++b) { w[1] = (S)b; s.word(w, 2, f4); } }
        for (unsigned a = 0; a < 256; ++a) for (unsigned b = 0; b < 256; ++b) for (std::uint32_t c : A8) { w[0] = (S)a; w[1] = (S)b; w[2] = (S)c; s.word(w, 3, (a ^ b) & 1 ? 0x5 : 0xA); }
#endif
    }
    // every codepoint, alone and with neighbours; every continuation of a 4-byte lead
    auto enc = [&](std::uint32_t cp, S* o) { auto q = um::encode(um::utf(um::U8), cp); for (unsigned i = 0; i < q.n; ++i) o[i] = (S)q.u[i]; return q.n; };
    for (std::uint32_t cp = 0; cp < 0x110000; ++cp) {
        if (MODE != 1 && !th && cp > 0x3000 && (cp & 0x3F) != 0 && (cp & 0x3F) != 0x3F) continue;
        unsigned n = enc(cp, w); s.word(w, n, MODE == 1 && !th ? 0x03 : f4);
    }
#if MODE == 1
    if constexpr (std::is_same_v<S, char>) {
        for (unsigned a = 0xF0; a < 0xF8; ++a) for (unsigned b = 0; b < 256; ++b) for (unsigned c = 0; c < 256; ++c) for (unsigned d = 0; d < 256; ++d) {
            bool core = b >= 0x80 && b < 0xC0 && (c == 0x7F || c == 0x80 || c == 0xBF || c == 0xC0 || c == 0) ;
            bool edge = (d == 0x7F || d == 0x80 || d == 0xBF || d == 0xC0 || d == 0);
            if (!th && !(edge && core)) continue;
            w[0] = (S)a; w[1] = (S)b; w[2] = (S)c; w[3] = (S)d; s.word(w, 4, th ? 0x03 : f4);
        }
    }
#endif
    // sequences of valid characters of every length class
    std::vector<std::uint32_t> cps = {0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0xD800, 0xDC00};
    S v[64];
    std::size_t L = MODE == 1 ? 3 : th ? 4 : 3;
    for (std::size_t len = 2; len <= L; ++len) {
        std::vector<std::size_t> ix(len, 0);
        for (;;) {
            unsigned n = 0; for (auto i : ix) n += enc(cps[i], v + n);
            s.word(v, n, f4);
            std::size_t k = len; while (k > 0 && ++ix[k - 1] == cps.size()) ix[--k] = 0;
            if (k == 0) break;
        }
    }
    // long runs (a transcoder may have fast paths): every position of one odd character in a long run
    for (std::size_t len : {7u, 8u, 15u, 16u, 17u, 24u, 31u, 32u, 33u, 63u, 64u, 65u}) for (std::size_t pos = 0; pos < len; ++pos) for (std::uint32_t cp : {0x41u, 0xE9u, 0x20ACu, 0xD800u, 0x1F600u}) {
        std::vector<S> z; for (std::size_t i = 0; i < len; ++i) { if (i == pos) { S t[4]; unsigned n = enc(cp, t); z.insert(z.end(), t, t + n); z.push_back((S)0x80); } else z.push_back((S)('a' + i % 26)); }
        s.word(z.data(), z.size(), MODE == 1 ? f4 : 0x05);
        z.erase(std::find(z.begin(), z.end(), (S)0x80)); // one byte less: a truncated or a valid sequence
        s.word(z.data(), z.size(), MODE == 1 ? f4 : 0x05);
    }
}
template <class S> void run16() {
    auto& s = *new Src<S>; s.wide_types = true;
    bool th = mc::thorough(); S w[8];
    s.words(A16, 0, 3, 0xFF);
    s.words(A16, 4, MODE == 1 ? (th ? 5 : 4) : 4, 0x0F);
    s.words(A16s, 5, th ? 6 : 5, 0x0F);
    for (std::uint32_t u = 0; u < 0x10000; ++u) {
        w[0] = (S)u; s.word(w, 1, 0xFF);
        if (MODE == 1 || th || (u & 15) == 0 || (u & 15) == 15 || (u >= 0xD800 && u < 0xE000)) for (auto x : A16) { w[1] = (S)x; s.word(w, 2, 0x0F); }
        for (auto x : A16s) { w[0] = (S)x; w[1] = (S)u; if (MODE == 1 || th || (u & 15) == 0) s.word(w, 2, 0x0F); }
    }
    // every surrogate pair
    for (std::uint32_t h = 0xD800; h < 0xDC00; ++h) for (std::uint32_t l = 0xDC00; l < 0xE000; ++l) {
        if (!th && MODE != 1 && (l & 0x3F) != 0 && (l & 0x3F) != 0x3F) continue;
        w[0] = (S)h; w[1] = (S)l; s.word(w, 2, th ? 0x0F : 0x01);
    }
}
template <class S> void run32() {
    auto& s = *new Src<S>; s.wide_types = true;
    bool th = mc::thorough(); S w[8];
    s.words(A32, 0, 3, 0xFF);
    s.words(A32, 4, 4, MODE == 1 || th ? 0x0F : 0x06);
    s.words(A32s, 5, th ? 6 : 5, MODE == 1 ? 0x0F : 0x06);
    for (std::uint32_t u = 0; u < 0x120000; ++u) { if (!th && MODE != 1 && u > 0x3000 && (u & 0x3F) != 0 && (u & 0x3F) != 0x3F) continue; w[0] = (S)u; s.word(w, 1, MODE == 1 && !th ? 0x06 | 1 : 0x0F); }
    for (unsigned sh = 20; sh < 32; ++sh) for (std::uint32_t d : {0u, 1u, 0x41u, 0xD800u, 0xFFFFu}) { w[0] = (S)((1u << sh) + d); s.word(w, 1, 0xFF); w[0] = (S)((1u << sh) - 1 - d); s.word(w, 1, 0xFF); }
}
static void body() {
    run8<char>(); run8<char8_t>(); run16<char16_t>(); run32<char32_t>(); run32<wchar_t>();
}
MC_MAIN(body)
