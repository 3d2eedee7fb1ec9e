// C05: the charset objects (static and dynamic) against the reference model.
// PART 0: UTFs; 1..3: single-byte charsets
#include "transcheck.hpp"
#include "chunkdst.hpp"
#include "data/sbtables.hpp"
#include <array>

struct Known { strf::charset_id id; um::Enc e; std::vector<std::int16_t> inv; };
static std::vector<Known>& all() { static std::vector<Known> v; return v; }
static const um::Enc* model_of(strf::charset_id id) { for (auto& k : all()) if (k.id == id) return &k.e; return nullptr; }
static void add_sb(strf::charset_id id, const char* name, const std::uint32_t* dec) {
    all().push_back({id, um::Enc{um::SB, name, dec, nullptr}, {}});
    auto& k = all().back(); k.inv.assign(0x10000, -1);
    for (int b = 255; b >= 0; --b) if (dec[b] != UNDEF) k.inv[dec[b]] = (std::int16_t)b;
    k.inv[0xFFFD] = -1;
}
static void init_all() {
    all().reserve(100);
    all().push_back({strf::csid_utf8, um::utf(um::U8), {}}); all().push_back({strf::csid_utf16, um::utf(um::U16), {}}); all().push_back({strf::csid_utf32, um::utf(um::U32), {}});
#define X(ID, NAME) add_sb(strf::csid_##ID, NAME, dec_##ID);
    SB_LIST(X)
#undef X
    for (auto& k : all()) if (!k.inv.empty()) k.e.enc = k.inv.data();
}
static bool encodable(const um::Enc& e, std::uint32_t cp) { return e.kind == um::U32 ? true : e.kind == um::SB ? um::can_encode(e, cp) : cp < 0x110000; }
static um::Seq enc_or_repl(const um::Enc& e, std::uint32_t cp) { return um::encode(e, encodable(e, cp) ? cp : e.repl()); }

static const std::vector<std::uint32_t> W8 = {0x41,0x80,0x9F,0xA0,0xBF,0xC2,0xE0,0xED,0xF0,0xF4,0xFF};
static const std::vector<std::uint32_t> W16 = {0x41,0x80,0x800,0xD800,0xDBFF,0xDC00,0xDFFF,0xFFFF};
static const std::vector<std::uint32_t> W32 = {0x41,0x80,0x800,0xD800,0xDFFF,0xFFFF,0x10000,0x10FFFF,0x110000,0xFFFFFFFF};
static std::vector<std::uint32_t> alphabet(const um::Enc& e) {
    if (e.kind == um::U8) return W8; if (e.kind == um::U16) return W16; if (e.kind == um::U32) return W32;
    std::vector<std::uint32_t> al = {0x00, 'A', 0x80, 0xA1, 0xE9, 0xFF};
    for (unsigned b = 255; b; --b) if (e.dec[b] == UNDEF) { al.push_back(b); break; }
    return al;
}
template <class F> void words(const std::vector<std::uint32_t>& al, std::size_t L0, std::size_t L1, F f) {
    std::vector<std::uint32_t> w;
    for (std::size_t L = L0; L <= L1; ++L) {
        std::vector<std::size_t> ix(L, 0); w.resize(L);
        for (;;) {
            for (std::size_t i = 0; i < L; ++i) w[i] = al[ix[i]];
            f(w);
            std::size_t k = L; while (k > 0 && ++ix[k - 1] == al.size()) ix[--k] = 0;
            if (k == 0) break;
        }
    }
}
template <class S, class D, class T> void try_transcoder(const um::Enc& s, const um::Enc& d, T t, std::size_t L) {
    auto* c = new Checker<S, D, T, CONTENT>(s, d, t); auto* p = new Checker<S, D, T, CAPACITY>(s, d, t); auto* u = new Checker<S, D, T, UNSAFE>(s, d, t);
    words(alphabet(s), 0, L, [&](const std::vector<std::uint32_t>& w) {
        S b[8]; for (std::size_t i = 0; i < w.size(); ++i) b[i] = (S)w[i];
        c->word(b, w.size(), 0xFF); p->word(b, w.size(), 0x0D); u->word(b, w.size(), 0x05);
    });
    if (s.kind != um::U32 || d.kind != um::U32) {    // a longer, valid text
        std::vector<S> z; for (int i = 0; i < 70; ++i) { auto q = um::encode(s, i % 7 == 3 && um::can_encode(s, 0xE9) ? 0xE9 : 'a' + i % 26); for (unsigned k = 0; k < q.n; ++k) z.push_back((S)q.u[k]); }
        c->word(z.data(), z.size(), 0xFF); u->word(z.data(), z.size(), 0x05);
    }
    munmap(c->gs.base, Guarded<S>::page * 6); munmap(c->gd.base, Guarded<S>::page * 6); munmap(p->gs.base, Guarded<S>::page * 6); munmap(p->gd.base, Guarded<S>::page * 6); munmap(u->gs.base, Guarded<S>::page * 6); munmap(u->gd.base, Guarded<S>::page * 6);
    delete c; delete p; delete u;
}
template <class C, class O, class CS> void find_tc(const CS& cs, const um::Enc& e) {
    std::vector<strf::charset_id> ids; for (auto& k : all()) ids.push_back(k.id);
    ids.push_back((strf::charset_id)0); ids.push_back((strf::charset_id)0x12345678);
    for (auto id : ids) {
        if (!mc::take()) continue;
        const um::Enc* o = model_of(id);
        bool possible = o && (o->kind == um::U8 || o->kind == um::SB ? sizeof(O) == 1 : o->kind == um::U16 ? sizeof(O) == 2 : sizeof(O) == 4);
        auto to = cs.find_transcoder_to(strf::tag<O>{}, id);
        auto from = cs.find_transcoder_from(strf::tag<O>{}, id);
        mc::step(2);
        auto key = mc::sfmt("find_transcoder %s<%s> %s id=%X", e.name, tname<C>(), tname<O>(), (unsigned)id);
        if (!possible) {
            if (to.transcode_func() || from.transcode_func()) mc::fail(key, key + ": a transcoder to/from an encoding that this character type cannot hold");
            continue;
        }
        if (to.transcode_func()) { mc::count("found transcoders"); try_transcoder<C, O>(e, *o, to, 2); }
        if (from.transcode_func()) { mc::count("found transcoders"); try_transcoder<O, C>(*o, e, from, 2); }
        mc::state(mc::mix((std::uint64_t)id, mc::hash(e.name, std::strlen(e.name), sizeof(O) * 8 + (to.transcode_func() != nullptr) * 2 + (from.transcode_func() != nullptr))));
    }
}

template <class C, class CS> void run(const CS& cs, const um::Enc& e, strf::charset_id id, const char* form) {
    bool th = mc::thorough();
    bool full = std::is_same_v<C, char> || e.kind != um::SB;
    std::uint64_t salt = mc::hash(e.name, std::strlen(e.name), sizeof(C) * 77 + (form[0] == 'd'));
    std::string who = mc::sfmt("%s<%s> %s", e.name, tname<C>(), form);
    // identity
    if (mc::take()) {
        std::string why;
        if (std::strcmp(cs.name(), e.name)) why += mc::sfmt(" name=%s", cs.name());
        if (cs.id() != id) why += " id";
        if (cs.replacement_char() != e.repl()) why += " replacement_char";
        if (cs.replacement_char_size() != (int)um::encode(e, e.repl()).n) why += " replacement_char_size";
        if (!why.empty()) mc::fail("identity " + who, "identity " + who + ":" + why);
        mc::step(4);
    }
    // per codepoint
    auto cp1 = [&](std::uint32_t cp) {
        if (!mc::take()) return;
        std::string why;
        um::Seq s = enc_or_repl(e, cp);
        bool ok = e.kind == um::SB ? um::can_encode(e, cp) || cp == 0xFFFD : cp < 0x110000 && !um::is_surr(cp);
        int v = cs.validate(cp), want = ok ? (int)s.n : -1;
        if (v != want || cs.validate_func()(cp) != want) why += mc::sfmt(" validate=%d (function pointer: %d) expected %d;", v, cs.validate_func()(cp), want);
        if (cs.encoded_char_size(cp) != (int)s.n) why += mc::sfmt(" encoded_char_size=%d expected %u;", cs.encoded_char_size(cp), s.n);
        for (int f = 0; f < 2; ++f) {
            C b[8] = {9, 9, 9, 9, 9, 9, 9, 9};
            C* r = f ? cs.encode_char_func()(b, cp) : cs.encode_char(b, cp);
            bool bad = r != b + s.n; for (unsigned i = 0; i < 8; ++i) if (uval(b[i]) != (i < s.n ? s.u[i] : 9u)) bad = true;
            if (bad) why += mc::sfmt(" encode_char%s wrote %s, returned +%ld;", f ? "_func" : "", hex(b, 8).c_str(), (long)(r - b));
        }
        mc::step(6); mc::state(mc::mix(salt, cp));
        if (mc::want_sample()) mc::sample(mc::sfmt("%s U+%X validate=%d size=%d", who.c_str(), cp, v, cs.encoded_char_size(cp)));
        if (!why.empty()) mc::fail(mc::sfmt("codepoint %s U+%X", who.c_str(), cp), mc::sfmt("%s U+%X:", who.c_str(), cp) + why);
    };
    for (std::uint32_t cp = 0; cp < (full || th ? 0x110100u : 0x10000u); ++cp) cp1(cp);
    for (std::uint32_t cp : {0x1FFFFFu, 0x200041u, 0x7FFFFFFFu, 0x80000041u, 0xFFFFFFFFu, 0x1000041u, 0x10000E9u}) cp1(cp);
    // fills
    std::vector<std::uint32_t> fc = {'A', 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0x20AC, 0x4E00, 0xD800, 0xDFFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x110000, 0xFFFFFFFF};
    if (!full && !th) fc = {'A', 0xE9, 0x4E00};
    std::vector<std::size_t> counts; for (std::size_t i = 0; i <= (e.kind == um::SB && !th ? 20 : 40); ++i) counts.push_back(i);
    for (std::size_t i : {63, 64, 65, 66, 127, 128, 129, 200, 333}) counts.push_back(i);
    std::vector<std::size_t> firsts; for (std::size_t i = 0; i <= 13; ++i) firsts.push_back(i); for (std::size_t i : {63, 64, 65, 400}) firsts.push_back(i);
    for (auto cp : fc) for (auto n : counts) {
        if (!mc::take()) continue;
        um::Seq s = enc_or_repl(e, cp);
        std::basic_string<C> want; for (std::size_t i = 0; i < n; ++i) for (unsigned k = 0; k < s.n; ++k) want += (C)s.u[k];
        for (auto first : firsts) for (std::size_t chunk : {8u, 9u, 11u, 64u}) for (int f = 0; f < 2; ++f) for (long fault : {-1, 0, 1, 2}) {
            if (fault > 0 && (chunk == 9 || chunk == 11)) continue;
            ChunkDst<C, 3> d(first, chunk, fault);
            if (f) cs.encode_fill_func()(d, (std::ptrdiff_t)n, cp); else cs.encode_fill(d, (std::ptrdiff_t)n, cp);
            auto& got = d.finish(); mc::step();
            // model: whole characters, a refill only when the next character does not fit
            std::size_t room = first, done = 0; long refills = 0; bool good = true;
            for (; done < n && good; ++done) {
                if (room < s.n) { if (fault >= 0 && refills >= fault) { good = false; break; } ++refills; room = chunk; }
                room -= s.n;
            }
            bool ok = d.good() == good && got.size() == done * s.n && want.compare(0, got.size(), got) == 0;
            if (!ok) { mc::fail(mc::sfmt("fill %s U+%X x%zu", who.c_str(), cp, n), mc::sfmt("encode_fill%s %s U+%X x%zu first=%zu chunk=%zu fault=%ld good=%d: wrote ", f ? "_func" : "", who.c_str(), cp, n, first, chunk, fault, (int)d.good()) + hex(got.data(), got.size()) + " expected " + hex(want.data(), want.size())); goto next; }
        }
        mc::state(mc::mix(salt, mc::mix(cp, n)));
    next:;
    }
    if (mc::take()) for (std::size_t first = 0; first < 10; ++first) for (int f = 0; f < 2; ++f) {
        ChunkDst<C, 3> d(first, 8);
        if (f) cs.write_replacement_char_func()(d); else cs.write_replacement_char(d);
        auto& got = d.finish(); um::Seq s = um::encode(e, e.repl()); mc::step();
        bool ok = got.size() == s.n; for (unsigned i = 0; ok && i < s.n; ++i) ok = uval(got[i]) == s.u[i];
        if (!ok) mc::fail("replacement " + who, mc::sfmt("write_replacement_char %s first=%zu wrote ", who.c_str(), first) + hex(got.data(), got.size()));
    }
    // decoding units
    std::uint32_t nu = sizeof(C) == 1 ? 0x100 : sizeof(C) == 2 ? 0x10000 : 0x110200;
    auto unit = [&](std::uint32_t u) {
        if (!mc::take()) return;
        std::uint32_t want = e.kind == um::U8 ? (u < 0x80 ? u : 0xFFFD) : e.kind == um::SB ? (e.dec[u] == UNDEF ? 0xFFFD : e.dec[u]) : u >= 0x110000 ? 0xFFFD : u;
        std::uint32_t got = cs.decode_unit((C)u); mc::step();
        if (got != want) mc::fail(mc::sfmt("decode_unit %s %X", who.c_str(), u), mc::sfmt("decode_unit %s %X gives U+%X expected U+%X", who.c_str(), u, got, want));
    };
    for (std::uint32_t u = 0; u < nu; ++u) unit(u);
    if (sizeof(C) == 4) { unit(0x7FFFFFFF); unit(0x80000000); unit(0x80000041); unit(0xFFFFFFFF); }
    // counting
    static Guarded<C>& gm = *new Guarded<C>;
    auto count = [&](const std::vector<std::uint32_t>& w) {
        if (!mc::take()) return;
        std::size_t n = w.size(); C* p = gm.end_range(n); for (std::size_t i = 0; i < n; ++i) p[i] = (C)w[i];
        auto at = [&](std::size_t i) { return w[i]; };
        std::vector<std::size_t> ends{0}; bool valid = true;
        for (std::size_t i = 0; i < n;) { auto it = um::decode1(e, at, i, n, false); if (!it.ok && e.kind != um::SB) valid = false; i += it.len; ends.push_back(i); }
        for (std::size_t m = 0; m <= ends.size() + 1; ++m) {
            std::ptrdiff_t max = m == ends.size() + 1 ? strf::ssize_max : (std::ptrdiff_t)m;
            std::size_t c = std::min<std::size_t>(ends.size() - 1, (std::size_t)max), pos = ends[c];
            for (int f = 0; f < (valid ? 2 : 1); ++f) {
                auto r = f ? cs.count_codepoints_fast(p, p + n, max) : cs.count_codepoints(p, p + n, max); mc::step();
                if (r.count != (std::ptrdiff_t)c || r.ptr != p + pos)
                    mc::fail(mc::sfmt("count %s max=%ld src=%s", who.c_str(), (long)max, hex(p, n).c_str()), mc::sfmt("count_codepoints%s %s max=%ld src=%s gives {%ld,+%ld} expected {%zu,+%zu}", f ? "_fast" : "", who.c_str(), (long)max, hex(p, n).c_str(), (long)r.count, (long)(r.ptr - p), c, pos));
            }
        }
        mc::state(mc::hash(p, n * sizeof(C), salt));
    };
    auto al = alphabet(e);
    words(al, 0, e.kind == um::SB ? 3 : th ? 6 : 5, count);
    for (std::size_t len : {7u, 8u, 9u, 15u, 16u, 17u, 31u, 32u, 33u, 64u, 65u}) for (std::size_t pos = 0; pos < len; ++pos) for (std::uint32_t cp : {0xE9u, 0x20ACu, 0x1F600u}) {
        if (!um::can_encode(e, cp)) continue;
        std::vector<std::uint32_t> w; for (std::size_t i = 0; i < len; ++i) { auto q = um::encode(e, i == pos ? cp : 'a' + i % 26); w.insert(w.end(), q.u, q.u + q.n); }
        count(w);
        w.pop_back(); count(w);
    }
    // the transcoders it hands out
    if (mc::take()) try_transcoder<char32_t, C>(um::utf(um::U32), e, cs.from_u32(), 3);
    if (mc::take()) try_transcoder<C, char32_t>(e, um::utf(um::U32), cs.to_u32(), 3);
    if (mc::take()) try_transcoder<C, C>(e, e, cs.sanitizer(), 3);
    mc::count(who.c_str());
}
template <class C, class CS> void both(CS cs, strf::charset_id id) {
    const um::Enc& e = *model_of(id);
    run<C>(cs, e, id, "static");
    auto dyn = cs.to_dynamic();
    run<C>(dyn, e, id, "dynamic");
    if (mc::take()) {      // identity of dynamic charsets
        strf::dynamic_charset<C> d2{cs};
        auto other = strf::dynamic_charset<C>{strf::static_charset<C, sizeof(C) == 1 ? strf::csid_iso_8859_3 : strf::get_csid_utf<C>()>{}};
        bool same = id == other.id(); mc::step(6);
        if (!(d2 == dyn) || d2 != dyn || (d2 == other) != same || (d2 != other) == same || d2.id() != id) mc::fail(std::string("dynamic equality ") + e.name, std::string("dynamic_charset equality is wrong for ") + e.name);
        auto od = other; d2.swap(od);
        if (d2.id() != other.id() || od.id() != id || !(od.to_dynamic() == dyn)) mc::fail(std::string("dynamic swap ") + e.name, std::string("dynamic_charset swap is wrong for ") + e.name);
    }
    if constexpr (std::is_same_v<C, char> || PART == 0) {
        find_tc<C, char>(dyn, e); find_tc<C, char8_t>(dyn, e); find_tc<C, char16_t>(dyn, e); find_tc<C, wchar_t>(dyn, e);
    }
}
template <int N, strf::charset_id Id> void do_one() {
    if constexpr (PART > 0 && N % 3 == PART - 1) { both<char>(strf::static_charset<char, Id>{}, Id); both<char8_t>(strf::static_charset<char8_t, Id>{}, Id); }
}
constexpr int base = __COUNTER__ + 1;
static void body() {
    init_all();
    if constexpr (PART == 0) {
        both<char>(strf::utf_t<char>{}, strf::csid_utf8); both<char8_t>(strf::utf_t<char8_t>{}, strf::csid_utf8);
        both<char16_t>(strf::utf_t<char16_t>{}, strf::csid_utf16);
        both<char32_t>(strf::utf_t<char32_t>{}, strf::csid_utf32); both<wchar_t>(strf::utf_t<wchar_t>{}, strf::csid_utf32);
    }
#define X(ID, NAME) do_one<__COUNTER__ - base, strf::csid_##ID>();
    SB_LIST(X)
}
MC_MAIN(body)
