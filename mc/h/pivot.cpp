// C06: transcoding between any two charsets, static or dynamic, directly or through UTF-32, into ranges and
// into destinations.   PART selects the pairs.
#include "transcheck.hpp"
#include "chunkdst.hpp"
#include "data/sbtables.hpp"

static um::Enc make_sb(const char* name, const std::uint32_t* dec) {
    auto* inv = new std::vector<std::int16_t>(0x10000, -1);
    for (int b = 255; b >= 0; --b) if (dec[b] != UNDEF) (*inv)[dec[b]] = (std::int16_t)b;
    (*inv)[0xFFFD] = -1;
    return um::Enc{um::SB, name, dec, inv->data()};
}
static const um::Enc& E8() { return um::utf(um::U8); } static const um::Enc& E16() { return um::utf(um::U16); } static const um::Enc& E32() { return um::utf(um::U32); }
static const um::Enc e_ascii = make_sb("ASCII", dec_ascii), e_88591 = make_sb("ISO-8859-1", dec_iso_8859_1), e_88593 = make_sb("ISO-8859-3", dec_iso_8859_3), e_w1252 = make_sb("windows-1252", dec_windows_1252), e_w1257 = make_sb("windows-1257", dec_windows_1257);

// a template template view of the static charsets

template <class SCS, class DCS> struct PC {
    using S = typename SCS::code_unit; using D = typename DCS::code_unit;
    SCS scs; DCS dcs; const um::Enc& se; const um::Enc& de; const char* tag;
    Guarded<S> gs; Guarded<D> gd;
    std::vector<std::uint32_t> out; std::vector<um::Event> ev, inv_all; Notifier nt;
    const S* src; std::size_t n; std::uint64_t salt;
    PC(SCS s, DCS d, const um::Enc& se_, const um::Enc& de_, const char* t) : scs(s), dcs(d), se(se_), de(de_), tag(t), salt(mc::hash(se.name, strlen(se.name), mc::hash(de.name, strlen(de.name), mc::hash(t, strlen(t), sizeof(S) * 16 + sizeof(D))))) {}
    std::string id(unsigned fl, long cap) { return mc::sfmt("%s(%s)->%s(%s) [%s] flags=%u cap=%ld src=%s", se.name, tname<S>(), de.name, tname<D>(), tag, fl, cap, hex(src, n).c_str()); }
    void arm() { nt.ev.clear(); nt.bad = false; nt.base = src; nt.unit = sizeof(S); nt.name = se.name; nt.dname = de.name; }
    static std::vector<um::Event> part(const std::vector<um::Event>& v, std::size_t upto, bool inv, bool dedup) {
        std::vector<um::Event> r; for (std::size_t i = 0; i < v.size() && i < upto; ++i) if (v[i].inv == inv && !(dedup && !r.empty() && r.back() == v[i])) r.push_back(v[i]);
        return r;
    }
    bool events_ok(const um::Result& m, bool dedup) {
        if (nt.bad) return false;
        auto gi = part(nt.ev, ~0ull, true, dedup), gu = part(nt.ev, ~0ull, false, dedup);
        auto mi = part(ev, m.must_events, true, dedup), mu = part(ev, m.must_events, false, dedup), xu = part(ev, ~0ull, false, dedup);
        if (gi.size() < mi.size() || gi.size() > inv_all.size() || !std::equal(gi.begin(), gi.end(), inv_all.begin())) return false;
        return gu.size() >= mu.size() && gu.size() <= xu.size() && std::equal(gu.begin(), gu.end(), xu.begin());
    }
    const S* real(const S* stale, std::int32_t dist, unsigned fl, bool unsafe) {
        if (dist == 0) return stale;
        auto f = (strf::transcode_flags)fl;
        return unsafe ? scs.to_u32().unsafe_transcode_size(stale, src + n, dist, f).src_ptr : scs.to_u32().transcode_size(stale, src + n, dist, f).src_ptr;
    }
    template <class R> void common(std::string& why, const R& r, const um::Result& m, unsigned fl, bool unsafe) {
        if ((unsigned)r.stop_reason != (unsigned)m.reason) why += mc::sfmt(" stop_reason=%u expected %u;", (unsigned)r.stop_reason, (unsigned)m.reason);
        else if (r.stale_src_ptr < src || r.stale_src_ptr > src + n || r.u32dist < 0) why += " source position out of range;";
        else { auto* p = real(r.stale_src_ptr, r.u32dist, fl, unsafe); if (p != src + m.src) why += mc::sfmt(" source position +%ld (stale +%ld, %d code points) expected +%zu;", (long)(p - src), (long)(r.stale_src_ptr - src), (int)r.u32dist, m.src); }
    }
    template <class F> void range(const char* what, unsigned fl, std::size_t cap, const um::Result& m, bool unsafe, F f) {
        D* dst = gd.end_range(cap); arm();
        auto r = f(dst, dst + cap); mc::step();
        std::string why; common(why, r, m, fl, unsafe);
        if (r.dst_ptr != dst + out.size()) why += mc::sfmt(" dst_ptr=+%ld expected +%zu;", (long)(r.dst_ptr - dst), out.size());
        else for (std::size_t i = 0; i < out.size(); ++i) if (uval(dst[i]) != out[i]) { why += " output=" + hex(dst, out.size()) + " expected " + hexu(out) + ";"; break; }
        if (!unsafe && !events_ok(m, true)) why += mc::sfmt(" error reports differ (%zu, model %zu);", nt.ev.size(), ev.size());
        if (!why.empty()) mc::fail(std::string(what) + " " + id(fl, (long)cap), std::string(what) + " " + id(fl, (long)cap) + ":" + why);
    }
    template <class F> void size(const char* what, unsigned fl, std::ptrdiff_t lim, const um::Result& m, bool unsafe, F f) {
        auto r = f(lim); mc::step(); std::string why; common(why, r, m, fl, unsafe);
        if (r.ssize != (std::ptrdiff_t)out.size()) why += mc::sfmt(" ssize=%ld expected %zu;", (long)r.ssize, out.size());
        if (!why.empty()) mc::fail(std::string(what) + " " + id(fl, (long)lim), std::string(what) + " " + id(fl, (long)lim) + ":" + why);
    }
    // into a destination with the given geometry
    template <class F> void dest(const char* what, unsigned fl, std::size_t first, std::size_t chunk, long fault, bool unsafe, F f) {
        auto at = [&](std::size_t i) { return (std::uint32_t)uval(src[i]); };
        std::vector<std::uint32_t> acc, o; std::vector<um::Event> e, all; um::Result m{0, um::completed, 0}; std::size_t pos = 0;
        for (long k = 0;; ++k) {
            m = um::transcode(se, de, [&](std::size_t i) { return at(pos + i); }, n - pos, k ? chunk : first, fl, o, e);
            acc.insert(acc.end(), o.begin(), o.end());
            for (auto& x : e) { if (x.inv) x.a += (std::uint32_t)pos; }
            std::size_t must = all.size() + m.must_events; all.insert(all.end(), e.begin(), e.end());
            pos += m.src; m.src = pos; m.must_events = must;
            if (m.reason != um::no_space) break;
            if (fault >= 0 && k >= fault) break;
        }
        ev = all; out = acc;
        ChunkDst<D> d(first, chunk, fault); arm();
        auto r = f(d); auto& got = d.finish(); mc::step();
        std::string why; common(why, r, m, fl, unsafe);
        if (r.ssize != (std::ptrdiff_t)out.size()) why += mc::sfmt(" ssize=%ld expected %zu;", (long)r.ssize, out.size());
        bool same = got.size() == out.size(); for (std::size_t i = 0; same && i < out.size(); ++i) same = uval(got[i]) == out[i];
        if (!same) why += " output=" + hex(got.data(), got.size()) + " expected " + hexu(out) + ";";
        if (d.good() != (m.reason != um::no_space)) why += " good();";
        if (!unsafe && !events_ok(m, true)) why += mc::sfmt(" error reports differ (%zu, model %zu);", nt.ev.size(), ev.size());
        if (!why.empty()) { auto k = mc::sfmt("%s first=%zu chunk=%zu fault=%ld ", what, first, chunk, fault) + id(fl, -1); mc::fail(k, k + ":" + why); }
    }
    void word(const std::vector<std::uint32_t>& w, unsigned flagmask) {
        if (!mc::take()) return;
        n = w.size(); S* p = gs.end_range(n); for (std::size_t i = 0; i < n; ++i) p[i] = (S)w[i]; src = p; const S* pe = p + n;
        auto at = [&](std::size_t i) { return (std::uint32_t)uval(src[i]); };
        for (unsigned fl = 0; fl < 8; ++fl) {
            if (!((flagmask >> fl) & 1)) continue;
            auto f = (strf::transcode_flags)fl;
            um::transcode(se, de, at, n, 100000, fl & um::LAX, out, ev); inv_all.clear(); for (auto& e : ev) if (e.inv) inv_all.push_back(e);
            bool valid = inv_all.empty();
            um::transcode(se, de, at, n, 100000, fl, out, ev); std::size_t N = out.size();
            std::vector<std::size_t> caps;
            if (n <= 6) for (std::size_t c = 0; c <= N + 1; ++c) caps.push_back(c);
            else { for (std::size_t c : {0ul, 1ul, 15ul, 16ul, 17ul, 18ul, 31ul, 32ul, 33ul, 34ul, 47ul, 48ul, 49ul}) if (c < N) caps.push_back(c); for (std::size_t c = N > 3 ? N - 3 : 0; c <= N + 1; ++c) caps.push_back(c); caps.push_back(N + 50); }
            for (auto c : caps) {
                auto m = um::transcode(se, de, at, n, c, fl, out, ev);
                range("transcode", fl, c, m, false, [&](D* a, D* b) { return strf::transcode(scs, dcs, src, pe, a, b, &nt, f); });
                range("decode_encode", fl, c, m, false, [&](D* a, D* b) { return strf::decode_encode(scs, dcs, src, pe, a, b, &nt, f); });
                size("transcode_size", fl, (std::ptrdiff_t)c, m, false, [&](std::ptrdiff_t l) { return strf::transcode_size(scs, dcs, src, pe, l, f); });
                size("decode_encode_size", fl, (std::ptrdiff_t)c, m, false, [&](std::ptrdiff_t l) { return strf::decode_encode_size(scs, dcs, src, pe, l, f); });
                if (valid) {
                    range("unsafe_transcode", fl, c, m, true, [&](D* a, D* b) { return strf::unsafe_transcode(scs, dcs, src, pe, a, b, nullptr, f); });
                    range("unsafe_decode_encode", fl, c, m, true, [&](D* a, D* b) { return strf::unsafe_decode_encode(scs, dcs, src, pe, a, b, nullptr, f); });
                    size("unsafe_transcode_size", fl, (std::ptrdiff_t)c, m, true, [&](std::ptrdiff_t l) { return strf::unsafe_transcode_size(scs, dcs, src, pe, l, f); });
                    size("unsafe_decode_encode_size", fl, (std::ptrdiff_t)c, m, true, [&](std::ptrdiff_t l) { return strf::unsafe_decode_encode_size(scs, dcs, src, pe, l, f); });
                }
                mc::state(mc::mix(mc::hash(src, n * sizeof(S), salt), fl * 1000 + c));
            }
            std::vector<std::size_t> firsts; for (std::size_t c = 0; c <= N && c <= 6; ++c) firsts.push_back(c);
            if (N > 6) for (std::size_t c : {15ul, 16ul, 17ul, N - 2, N - 1, N, N + 1}) firsts.push_back(c);
            for (auto c : firsts) for (std::size_t chunk : {64u, 67u}) for (long fault : {-1, 0, 1}) {
                if (chunk == 67 && fault == 0) continue;
                dest("transcode(dest)", fl, c, chunk, fault, false, [&](strf::destination<D>& d) { return strf::transcode(scs, dcs, src, pe, d, &nt, f); });
                dest("decode_encode(dest)", fl, c, chunk, fault, false, [&](strf::destination<D>& d) { return strf::decode_encode(scs, dcs, src, pe, d, &nt, f); });
                if (valid) dest("unsafe_transcode(dest)", fl, c, chunk, fault, true, [&](strf::destination<D>& d) { return strf::unsafe_transcode(scs, dcs, src, pe, d, nullptr, f); });
            }
        }
        if (mc::want_sample()) mc::sample(id(0, -1));
    }
    std::vector<std::uint32_t> alphabet() {
        if (se.kind == um::U8) return {0x41, 0xC3, 0xA9, 0xE2, 0x82, 0xAC, 0xED, 0xA0, 0xF0, 0x9F, 0xFF};
        if (se.kind == um::U16) return {0x41, 0xE9, 0x20AC, 0x4E00, 0xD83D, 0xDE00, 0xFFFD};
        if (se.kind == um::U32) return {0x41, 0xE9, 0x20AC, 0x4E00, 0xD800, 0x1F600, 0x110000, 0xFFFD};
        return {0x41, 0x80, 0x81, 0xA5, 0xE9, 0xFF};
    }
    void run() {
        auto al = alphabet(); std::vector<std::uint32_t> w, z;
        std::size_t L = mc::thorough() ? 4 : 3;
        for (std::size_t len = 0; len <= L; ++len) {
            std::vector<std::size_t> ix(len, 0); w.resize(len);
            for (;;) {
                for (std::size_t i = 0; i < len; ++i) w[i] = al[ix[i]];
                word(w, 0xFF);
                if (len <= (mc::thorough() ? 2u : 1u) || (len == 2 && ix[0] <= 4)) for (std::size_t pre : {1u, 13u, 14u, 15u, 16u, 17u, 29u, 30u, 31u, 32u, 33u, 47u, 48u, 63u, 64u, 65u}) for (int post : {0, 20}) {
                    z.clear(); for (std::size_t i = 0; i < pre; ++i) z.push_back('a' + i % 26); z.insert(z.end(), w.begin(), w.end()); for (int i = 0; i < post; ++i) z.push_back('A' + i % 26);
                    word(z, len <= 1 ? 0xFF : 0x4D);
                }
                // the special word everywhere, again and again
                z.clear(); for (int k = 0; k < 20; ++k) { z.insert(z.end(), w.begin(), w.end()); z.push_back('0' + k % 10); }
                if (len && len < 3) word(z, 0x05);
                std::size_t k = len; while (k > 0 && ++ix[k - 1] == al.size()) ix[--k] = 0;
                if (k == 0) break;
            }
        }
        mc::count(mc::sfmt("%s->%s %s", se.name, de.name, tag).c_str());
        munmap(gs.base, gs.page * 6); munmap(gd.base, gd.page * 6);
    }
};
template <class SCS, class DCS> void pair(SCS s, DCS d, const um::Enc& se, const um::Enc& de, const char* tag) { auto* p = new PC<SCS, DCS>(s, d, se, de, tag); p->run(); delete p; }
// static x static, and every mix with the dynamic forms
template <class SCS, class DCS> void four(SCS s, DCS d, const um::Enc& se, const um::Enc& de) {
    pair(s, d, se, de, "static"); pair(s.to_dynamic(), d.to_dynamic(), se, de, "dynamic");
    pair(s, d.to_dynamic(), se, de, "static->dynamic"); pair(s.to_dynamic(), d, se, de, "dynamic->static");
}
// the overloads that name the charsets as template arguments
template <template <class> class SC, template <class> class DC, class S, class D> void named(const um::Enc& se, const um::Enc& de) {
    if (!mc::take()) return;
    std::vector<S> v; std::vector<std::uint32_t> o; std::vector<um::Event> e;
    for (unsigned i = 0; i < 70; ++i) v.push_back((S)(i == 20 ? (se.kind == um::SB ? 0xE9 : 0x7E) : i % 26 + 'a'));
    auto* a = v.data(); auto* b = a + v.size();
    auto m = um::transcode(se, de, [&](std::size_t i) { return (std::uint32_t)uval(v[i]); }, v.size(), 1000, 0, o, e);
    (void)m; auto key = mc::sfmt("named %s->%s", se.name, de.name);
    auto ck = [&](const char* what, const D* d, std::ptrdiff_t len, const S* sp, strf::transcode_stop_reason r) {
        bool ok = len == (std::ptrdiff_t)o.size() && sp == b && r == strf::transcode_stop_reason::completed; for (std::size_t i = 0; ok && d && i < o.size(); ++i) ok = uval(d[i]) == o[i];
        mc::step(); if (!ok) mc::fail(key + what, key + " " + what + " differs from the model");
    };
    D buf[400];
    { auto r = strf::transcode<SC, DC>(a, b, buf, buf + 400); ck("transcode", buf, r.dst_ptr - buf, r.stale_src_ptr, r.stop_reason); }
    { auto r = strf::decode_encode<SC, DC>(a, b, buf, buf + 400); ck("decode_encode", buf, r.dst_ptr - buf, r.stale_src_ptr, r.stop_reason); }
    { auto r = strf::unsafe_transcode<SC, DC>(a, b, buf, buf + 400); ck("unsafe_transcode", buf, r.dst_ptr - buf, r.stale_src_ptr, r.stop_reason); }
    { auto r = strf::unsafe_decode_encode<SC, DC>(a, b, buf, buf + 400); ck("unsafe_decode_encode", buf, r.dst_ptr - buf, r.stale_src_ptr, r.stop_reason); }
    { auto r = strf::transcode_size<SC, DC<D>>(a, b, strf::ssize_max); ck("transcode_size", nullptr, r.ssize, r.stale_src_ptr, r.stop_reason); }
    { auto r = strf::decode_encode_size<SC, DC<D>>(a, b, strf::ssize_max); ck("decode_encode_size", nullptr, r.ssize, r.stale_src_ptr, r.stop_reason); }
    { auto r = strf::unsafe_transcode_size<SC, DC<D>>(a, b, strf::ssize_max); ck("unsafe_transcode_size", nullptr, r.ssize, r.stale_src_ptr, r.stop_reason); }
    { auto r = strf::unsafe_decode_encode_size<SC, DC<D>>(a, b, strf::ssize_max); ck("unsafe_decode_encode_size", nullptr, r.ssize, r.stale_src_ptr, r.stop_reason); }
    for (std::size_t first : {0u, 3u, 64u}) {
        { ChunkDst<D> d(first, 64); auto r = strf::transcode<SC, DC>(a, b, d); auto& g = d.finish(); ck("transcode(dest)", g.data(), r.ssize == (long)g.size() ? r.ssize : -1, r.stale_src_ptr, r.stop_reason); }
        { ChunkDst<D> d(first, 64); auto r = strf::decode_encode<SC, DC>(a, b, d); auto& g = d.finish(); ck("decode_encode(dest)", g.data(), r.ssize == (long)g.size() ? r.ssize : -1, r.stale_src_ptr, r.stop_reason); }
        { ChunkDst<D> d(first, 64); auto r = strf::unsafe_transcode<SC, DC>(a, b, d); auto& g = d.finish(); ck("unsafe_transcode(dest)", g.data(), r.ssize == (long)g.size() ? r.ssize : -1, r.stale_src_ptr, r.stop_reason); }
    }
}
static void body() {
    strf::utf_t<char> u8; strf::utf_t<char8_t> u8u; strf::utf_t<char16_t> u16; strf::utf_t<char32_t> u32; strf::utf_t<wchar_t> w;
    strf::iso_8859_3_t<char> i3; strf::iso_8859_1_t<char> i1; strf::windows_1252_t<char> w2; strf::windows_1257_t<char8_t> w7; strf::ascii_t<char> as;
#if PART == 0
    four(u8, i3, E8(), e_88593); four(u8u, as, E8(), e_ascii);
#elif PART == 1
    four(i3, u8, e_88593, E8()); four(u16, w2, E16(), e_w1252);
#elif PART == 2
    four(i1, w2, e_88591, e_w1252); four(i3, i3, e_88593, e_88593); four(w7, u16, e_w1257, E16());
#elif PART == 3
    four(u8, u16, E8(), E16()); four(u8, u8u, E8(), E8());
#elif PART == 4
    four(u16, u8, E16(), E8()); four(u16, w, E16(), E32());
#else
    four(w, i3, E32(), e_88593); four(i3, w, e_88593, E32()); four(u8, u32, E8(), E32()); four(u32, i3, E32(), e_88593); four(w, u32, E32(), E32());
    named<strf::utf_t, strf::iso_8859_3_t, char, char>(E8(), e_88593); named<strf::iso_8859_3_t, strf::utf_t, char, char>(e_88593, E8());
    named<strf::utf_t, strf::windows_1252_t, char16_t, char>(E16(), e_w1252); named<strf::windows_1252_t, strf::utf_t, char, char16_t>(e_w1252, E16());
    named<strf::utf_t, strf::utf_t, char, char16_t>(E8(), E16()); named<strf::utf_t, strf::utf_t, wchar_t, char>(E32(), E8()); named<strf::iso_8859_1_t, strf::windows_1252_t, char, char>(e_88591, e_w1252);
#endif
}
MC_MAIN(body)
