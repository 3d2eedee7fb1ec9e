// C22: joins, ranges, tr-strings and user-defined printables nested in each other print the concatenation of their parts.
#include <string_view>
#include <string>
#include <list>
#include <deque>
#include <array>
#include <map>
#include <set>
#include "print.hpp"
#include "any.hpp"
#include "utfmodel.hpp"
#include "transcheck.hpp"
template <class C> struct T {
    using S = std::basic_string<C>; using N = Node<C>;
    std::vector<std::unique_ptr<N>> pool;
    N* mk(Kind k) { pool.emplace_back(new N{k}); return pool.back().get(); }
    static S u(char32_t c) { return pr::enc<C>(std::u32string(1, c)); }
    static S A(const std::string& s) { return pr::asc<C>(s.c_str()); }
    static S rep(const S& x, std::int64_t n) { S s; for (; n > 0; --n) s += x; return s; }
    static constexpr int nleaf = 9;
    N* leaf(int k) {
        N* n;
        switch (k) {
        case 0: n = mk(KInt); n->i = -42; n->text = A("-42"); n->w = 3 << 16; break;
        case 1: n = mk(KStr); n->s = n->text = A("ab"); n->w = 2 << 16; break;
        case 2: n = mk(KStr); break;
        case 3: n = mk(KChar); n->c = U'\u4E00'; n->text = u(n->c); n->w = 2 << 16; break;
        case 4: n = mk(KRight); n->s = A("z"); n->af.fill = U'\u20AC'; n->af.width = 4; n->af.alignment = strf::text_alignment::right; n->text = rep(u(U'\u20AC'), 3) + A("z"); n->w = 4 << 16; break;
        case 5: n = mk(KStr); n->s = n->text = S(70, (C)'s'); n->w = 70 << 16; break;
        case 6: n = mk(KDouble); n->d = 0.5; n->text = A("0.5"); n->w = 3 << 16; break;
        case 7: n = mk(KConv); n->s = A("q"); if (sizeof(C) == 1) n->s += (C)0xE9; else n->s += (C)0xDC00; n->text = A("q") + u(U'\uFFFD'); n->w = 2 << 16; break;
        default: n = mk(KIntSep); n->iv = {7, 0, 19}; n->s = A("; "); n->af.fill = U'.'; n->af.width = 2; n->af.alignment = strf::text_alignment::left; n->text = A("7.; 0.; 19"); n->w = 10 << 16; break;
        }
        return n;
    }
    static constexpr int ncomp = 19;
    // composite k over children; null if that combination does not exist
    N* comp(int k, std::vector<Any<C>> ch) {
        S t; std::int64_t w = 0; for (auto& c : ch) { t += c.n->text; w += c.n->w; }
        N* n = nullptr;
        if (k == 0) { n = mk(KJoin); n->text = t; n->w = w; }
        else if (k <= 10) {        // aligned
            n = mk(KAlign);
            static const struct { int al; int d; char32_t f; } v[] = {{0, 3 << 16, U'*'}, {1, 3 << 16, U'*'}, {2, 3 << 16, U'*'}, {2, 0x18000, U'\U0001F600'}, {1, 0x8000, U'\u00E9'}, {1, 0x8001, U'\u20AC'}, {0, -0x10000, U'x'}, {1, 0, U'y'}, {2, 65 << 16, U' '}, {0, 130 << 16, U'_'}};
            auto& a = v[k - 1];
            n->af.alignment = a.al == 0 ? strf::text_alignment::left : a.al == 1 ? strf::text_alignment::right : strf::text_alignment::center;
            n->af.width = strf::width_t::from_underlying((std::int32_t)(w + a.d)); n->af.fill = a.f;
            std::int64_t fc = a.d > 0 ? (a.d + 0x7FFF) >> 16 : 0, lf = a.al == 0 ? 0 : a.al == 1 ? fc : fc / 2;
            n->text = rep(u(a.f), lf) + t + rep(u(a.f), fc - lf); n->w = w + (fc << 16);
        } else if (k <= 14) {      // ranges
            n = mk(k == 11 ? KRange : k == 12 ? KSep : k == 13 ? KOpRange : KOpSep);
            if (k == 12 || k == 14) { n->s = k == 12 ? A(", ") : u(U'\u4E00') + S(66, (C)'-');
                S x; std::int64_t sw = k == 12 ? 2 << 16 : 68 << 16; w = 0;
                for (size_t i = 0; i < ch.size(); ++i) { if (i) { x += n->s; w += sw; } x += ch[i].n->text; w += ch[i].n->w; } t = x; }
            n->text = t; n->w = w;
        } else if (k == 15) { n = mk(KSep); S x; w = 0; for (auto& c : ch) { x += c.n->text; w += c.n->w; } n->text = x; n->w = w; }       // empty separator
        else {
            n = mk(KTr); w = 0; S x;
            auto arg = [&](size_t i) { if (i < ch.size()) { x += ch[i].n->text; w += ch[i].n->w; } else { x += u(U'\uFFFD'); w += 1 << 16; } };
            auto lit = [&](const char* p) { x += A(p); w += (std::int64_t)std::strlen(p) << 16; };
            if (k == 16) { n->s = A("<{}|{{{}>"); lit("<"); arg(0); lit("|"); lit("{"); arg(1); lit(">"); }
            else if (k == 17) { n->s = A("{1}{0}{0}{-c}{2"); arg(1); arg(0); arg(0); arg(2); }
            else { n->s = A("x{a}y{b}{c}{"); lit("x"); arg(0); lit("y"); arg(1); arg(2); arg(3); }
            n->text = x; n->w = w;
        }
        n->ch = std::move(ch);
        return n;
    }
    std::string desc(const N* n) {
        static const char* names[] = {"int", "str", "char32", "right", "sani", "double", "bool", "join", "align", "range", "separated_range", "tr", "range(op)", "separated_range(op)", "fmt_range", "fmt_separated_range"};
        std::string s = names[n->kind];
        if (n->kind == KAlign || n->kind == KRight) s += mc::sfmt("[%c%g U+%X]", n->af.alignment == strf::text_alignment::left ? '<' : n->af.alignment == strf::text_alignment::right ? '>' : '^', n->af.width.underlying_value() / 65536.0, (unsigned)n->af.fill);
        if (n->ch.empty() && n->kind < KJoin) return s + "'" + mc::show(n->text.substr(0, 8)) + "'";
        s += "("; for (size_t i = 0; i < n->ch.size(); ++i) s += (i ? ", " : "") + desc(n->ch[i].n); return s + ")";
    }
    void test(N* n, int level) {
        auto key = [&] { return desc(n); };
        pr::Opt o; o.level = level; o.w64 = n->w;
        Any<C> a{n};
        pr::check<3>(n->text, [&](auto&& k) { k(strf::pack(), a); }, o, key);
    }
    void test2(N* n, N* m, int level) {         // two in one call
        pr::Opt o; o.level = level; o.w64 = n->w + m->w; Any<C> a{n}, b{m};
        pr::check<2>(n->text + m->text, [&](auto&& k) { k(strf::pack(), a, b); }, o, [&] { return desc(n) + ", " + desc(m); });
    }
    // all trees of exactly `size` nodes, as callbacks
    template <class F> void trees(int size, F&& f) {
        if (size == 1) { for (int k = 0; k < nleaf; ++k) f(leaf(k)); for (int k : {0, 1, 3, 11, 12, 17}) f(comp(k, {})); return; }
        for (int k = 0; k < ncomp; ++k) forest(size - 1, 4, {}, [&](const std::vector<Any<C>>& ch) { f(comp(k, ch)); });
    }
    template <class F> void forest(int size, int maxn, std::vector<Any<C>> pre, F&& f) {
        if (size == 0) { if (!pre.empty()) f(pre); return; }
        if (maxn == 0) return;
        for (int s = 1; s <= size; ++s) trees_fn(s, [&](N* n) { auto v = pre; v.push_back({n}); forest_fn(size - s, maxn - 1, v, f); });
    }
    void trees_fn(int size, const std::function<void(N*)>& f) { trees(size, f); }
    void forest_fn(int size, int maxn, std::vector<Any<C>> pre, const std::function<void(const std::vector<Any<C>>&)>& f) { forest(size, maxn, pre, f); }
    void run(int full) {
        for (int size = 1; size <= full; ++size) {
            unsigned long cnt = 0;
            for (int k = size == 1 ? -1 : 0; k < (size == 1 ? 0 : ncomp); ++k) {
                auto go = [&](N* n) { size_t mark = pool.size(); ++cnt; if (mc::take()) { test(n, size <= 2 ? 2 : 1); if (size <= 2) for (int j = 0; j < 3; ++j) test2(n, leaf(j * 3), 1); mc::alive(); } (void)mark; };
                if (k < 0) trees(1, go);
                else if (size <= 3) forest(size - 1, 4, {}, [&](const std::vector<Any<C>>& ch) { size_t mark = pool.size(); go(comp(k, ch)); pool.resize(mark); });
                else forest_pruned(size - 1, 4, {}, [&](const std::vector<Any<C>>& ch) { if (!mc::take()) return; size_t mark = pool.size(); test(comp(k, ch), 1); pool.resize(mark); mc::alive(); });
                pool.clear();
            }
        }
    }
    // as forest(), releasing nodes as it goes
    void forest_pruned(int size, int maxn, std::vector<Any<C>> pre, const std::function<void(const std::vector<Any<C>>&)>& f) {
        if (size == 0) { if (!pre.empty()) f(pre); return; }
        if (maxn == 0) return;
        for (int s = 1; s <= size; ++s) trees_pruned(s, [&](N* n) { auto v = pre; v.push_back({n}); size_t mark = pool.size(); forest_pruned(size - s, maxn - 1, v, f); pool.resize(mark); });
    }
    void trees_pruned(int size, const std::function<void(N*)>& f) {
        auto one = [&](N* n) { f(n); };
        if (size == 1) { for (int k = 0; k < nleaf; ++k) { if (mc::thorough() || k != 6) { size_t m = pool.size(); one(leaf(k)); pool.resize(m); } } for (int k : {0, 1, 12}) { size_t m = pool.size(); one(comp(k, {})); pool.resize(m); } return; }
        for (int k = 0; k < ncomp; ++k) forest_pruned(size - 1, 4, {}, [&](const std::vector<Any<C>>& ch) { size_t m = pool.size(); one(comp(k, ch)); pool.resize(m); });
    }
    // ranges of every kind of container, iterator and element, of every length
    template <class E> void st(const S& exp, std::int64_t w, const E& e, const std::string& what, int level = 2) {
        if (!mc::take()) return;
        pr::Opt o; o.level = level; o.w64 = w << 16;
        pr::check<3>(exp, e, o, [&] { return what; });
        mc::alive();
    }
    template <class R, class TX> void ranges(const R& r, const char* rn, TX text) {       // text(elem) -> pair(text, width)
        std::vector<std::pair<S, long>> el; for (const auto& x : r) el.push_back(text(x));
        static const char* seps[] = {"", ",", " - ", "0123456789012345678901234567890123456789012345678901234567890123456789"};
        auto cat = [&](const S& sep, long sw, auto tf) { std::pair<S, long> z{S(), 0}; for (size_t i = 0; i < el.size(); ++i) { if (i) { z.first += sep; z.second += sw; } auto p = tf(el[i]); z.first += p.first; z.second += p.second; } return z; };
        auto same = [](auto& x) { return x; };
        auto op = [](const auto& x) { return strf::join((C)'[', x, (C)']'); };
        auto bracket = [](auto& x) { return std::pair<S, long>{(C)'[' + x.first + (C)']', x.second + 2}; };
        std::string w = mc::sfmt("%s of %zu ", rn, el.size());
        auto z = cat(S(), 0, same); st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::range(r)); }, w + "range");
        st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::range(r.begin(), r.end())); }, w + "range(begin, end)", 1);
        st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::fmt_range(r)); }, w + "fmt_range", 1);
        z = cat(S(), 0, bracket); st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::range(r, op)); }, w + "range(op)");
        st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::range(r.begin(), r.end(), op)); }, w + "range(begin, end, op)", 1);
        for (const char* sp : seps) {
            S sep = A(sp); long sw = (long)sep.size();
            z = cat(sep, sw, same); st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::separated_range(r, sep.c_str())); }, w + "separated_range " + sp);
            st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::separated_range(r.begin(), r.end(), sep.c_str())); }, w + "separated_range(begin, end) " + sp, 1);
            st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::fmt_separated_range(r, sep.c_str())); }, w + "fmt_separated_range " + sp, 1);
            z = cat(sep, sw, bracket); st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::separated_range(r, sep.c_str(), op)); }, w + "separated_range(op) " + sp);
            st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::separated_range(r.begin(), r.end(), sep.c_str(), op)); }, w + "separated_range(begin, end, op) " + sp, 1);
            st(z.first + A("|") + z.first, z.second * 2 + 1, [&](auto&& k) { k(strf::pack(), strf::join(strf::separated_range(r, sep.c_str(), op), (C)'|', strf::separated_range(r, sep.c_str(), op))); }, w + "join of separated_range(op) " + sp, 1);
            {   // fill around each element
                auto fl = [&](auto& x) { long fc = std::max(0L, 5 - x.second); return std::pair<S, long>{x.first + rep(u(U'\u00E9'), fc), x.second + fc}; };
                z = cat(sep, sw, fl); st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::fmt_separated_range(r, sep.c_str()).fill(U'\u00E9') < 5); }, w + "fmt_separated_range < 5 " + sp, 1);
                z = cat(S(), 0, fl); if (!*sp) st(z.first, z.second, [&](auto&& k) { k(strf::pack(), strf::fmt_range(r).fill(U'\u00E9') < 5); }, w + "fmt_range < 5", 1);
            }
        }
    }
    void statics() {
        auto itx = [](int x) { S t = A(std::to_string(x)); return std::pair<S, long>{t, (long)t.size()}; };
        auto stx = [](const S& x) { return std::pair<S, long>{x, (long)x.size()}; };
        for (int n : {0, 1, 2, 3, 7, 40}) {
            std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i * i * i * 7 - 3);
            ranges(v, "vector<int>", itx);
            ranges(std::list<int>(v.begin(), v.end()), "list<int>", itx);
            ranges(std::deque<int>(v.begin(), v.end()), "deque<int>", itx);
            ranges(std::set<int>(v.begin(), v.end()), "set<int>", itx);
            std::vector<S> sv; for (int i = 0; i < n; ++i) sv.push_back(S((size_t)(i * 31 % 71), (C)('a' + i % 26)));
            ranges(sv, "vector<string>", stx);
            std::vector<std::pair<int, int>> m; for (int i = 0; i < n; ++i) m.push_back({i, -i});      // an operation giving formatted values
            auto op = [](const std::pair<int, int>& p) { return strf::join(strf::right(p.first, 3, U'0'), (C)':', p.second); };
            S exp; for (int i = 0; i < n; ++i) { std::string a = std::to_string(i); exp += A((i ? "," : "") + std::string(a.size() < 3 ? 3 - a.size() : 0, '0') + a + ":" + std::to_string(-i)); }
            S comma = A(",");
            st(exp, (long)exp.size(), [&](auto&& k) { k(strf::pack(), strf::separated_range(m, comma.c_str(), op)); }, mc::sfmt("pairs %d", n));
            auto op2 = [](int x) { return *strf::hex((unsigned)x).p(4); };
            exp.clear(); for (int i = 0; i < n; ++i) { char b[20]; std::snprintf(b, 20, "0x%04x", (unsigned)v[i]); exp += A(b); }
            st(exp, (long)exp.size(), [&](auto&& k) { k(strf::pack(), strf::range(v, op2)); }, mc::sfmt("hex %d", n));
            exp.clear(); for (int i = 0; i < n; ++i) { char b[20]; std::snprintf(b, 20, "%+05d", v[i]); exp += A(b); if (i + 1 < n) exp += comma; }
            st(exp, (long)exp.size(), [&](auto&& k) { k(strf::pack(), +strf::fmt_separated_range(v, comma.c_str()).pad0(5)); }, mc::sfmt("+fmt_separated_range.pad0(5) %d", n));
            exp.clear(); for (int i = 0; i < n; ++i) { char b[20]; std::snprintf(b, 20, "%#x", (unsigned)v[i]); exp += A(v[i] ? b : "0x0"); }
            std::vector<unsigned> uv(v.begin(), v.end());
            st(exp, (long)exp.size(), [&](auto&& k) { k(strf::pack(), *strf::fmt_range(uv).hex()); }, mc::sfmt("*fmt_range.hex %d", n));
            std::vector<double> dv; exp.clear(); for (int i = 0; i < n; ++i) { dv.push_back(i / 4.0); char b[40]; std::snprintf(b, 40, "%8.3f", i / 4.0); exp += A(b); }
            st(exp, (long)exp.size(), [&](auto&& k) { k(strf::pack(), strf::fmt_range(dv).fixed().p(3) > 8); }, mc::sfmt("fmt_range.fixed.p(3) > 8 %d", n));
            exp.clear(); for (auto& s : sv) { S c = s.substr(0, 4); exp += c + S(6 - c.size(), (C)'~'); }
            st(exp, (long)exp.size(), [&](auto&& k) { k(strf::pack(), strf::fmt_range(sv).fill(U'~').p(4) < 6); }, mc::sfmt("fmt_range(strings).p(4) < 6, %d", n));
        }
        int a3[] = {4, 55, 666}; const int ca[] = {-1}; std::array<char32_t, 2> ac = {U'\u4E00', U'b'};
        S sep = A("/");
        st(A("455666"), 6, [&](auto&& k) { k(strf::pack(), strf::range(a3)); }, "range(array)");
        st(A("4/55/666"), 8, [&](auto&& k) { k(strf::pack(), strf::separated_range(a3, sep.c_str())); }, "separated_range(array)");
        st(A("  4 55666"), 9, [&](auto&& k) { k(strf::pack(), strf::fmt_range(a3) > 3); }, "fmt_range(array) > 3");
        st(A("  4/ 55/666"), 11, [&](auto&& k) { k(strf::pack(), strf::fmt_separated_range(a3, sep.c_str()) > 3); }, "fmt_separated_range(array) > 3");
        st(A("-1"), 2, [&](auto&& k) { k(strf::pack(), strf::separated_range(ca, sep.c_str())); }, "separated_range(const array)");
        st(u(U'\u4E00') + A("b"), 3, [&](auto&& k) { k(strf::pack(), strf::range(ac)); }, "range(array<char32_t>)");
        st(u(U'\u4E00') + A("/b"), 4, [&](auto&& k) { k(strf::pack(), strf::separated_range(ac, sep.c_str())); }, "separated_range(array<char32_t>)");
        st(A("[4][55][666]"), 12, [&](auto&& k) { k(strf::pack(), strf::range(a3, [](int x) { return strf::join((C)'[', x, (C)']'); })); }, "range(array, op)");
        st(A("[4]/[55]/[666]"), 14, [&](auto&& k) { k(strf::pack(), strf::separated_range(a3, sep.c_str(), [](int x) { return strf::join((C)'[', x, (C)']'); })); }, "separated_range(array, op)");
        st(A("1/2/3123"), 8, [&](auto&& k) { std::initializer_list<int> il = {1, 2, 3}; k(strf::pack(), strf::separated_range(il, sep.c_str()), strf::range(il)); }, "initializer_list");
        static const std::initializer_list<int> il = {1, 2, 30}; auto br = [](int x) { return strf::join((C)'[', x, (C)']'); }; S longsep((size_t)300, (C)'-');
        st(A("  1  2 30"), 9, [&](auto&& k) { k(strf::pack(), strf::fmt_range(il) > 3); }, "fmt_range(initializer_list) > 3");
        st(A("  1/  2/ 30"), 11, [&](auto&& k) { k(strf::pack(), strf::fmt_separated_range(il, sep.c_str()) > 3); }, "fmt_separated_range(initializer_list) > 3");
        st(A("[1][2][30]"), 10, [&](auto&& k) { k(strf::pack(), strf::range(il, br)); }, "range(initializer_list, op)");
        st(A("[1]/[2]/[30]"), 12, [&](auto&& k) { k(strf::pack(), strf::separated_range(il, sep.c_str(), br)); }, "separated_range(initializer_list, op)");
        st(A("1") + longsep + A("2") + longsep + A("30"), 604, [&](auto&& k) { k(strf::pack(), strf::separated_range(il, longsep.c_str())); }, "separated_range(initializer_list), long separator");
        st(A("1") + longsep + A("2") + longsep + A("30"), 604, [&](auto&& k) { k(strf::pack(), strf::fmt_separated_range(il, longsep.c_str())); }, "fmt_separated_range(initializer_list), long separator");
        st(A("4") + longsep + A("55") + longsep + A("666"), 606, [&](auto&& k) { k(strf::pack(), strf::separated_range(a3, longsep.c_str())); }, "separated_range(array), long separator");
        st(A("4") + longsep + A("55") + longsep + A("666"), 606, [&](auto&& k) { k(strf::pack(), strf::fmt_separated_range(a3, longsep.c_str())); }, "fmt_separated_range(array), long separator");
        st(A("4") + longsep + A("55") + longsep + A("666"), 606, [&](auto&& k) { k(strf::pack(), strf::separated_range(&a3[0], a3 + 3, longsep.c_str())); }, "separated_range(begin, end), long separator");
        st(A("[4]") + longsep + A("[55]") + longsep + A("[666]"), 612, [&](auto&& k) { k(strf::pack(), strf::separated_range(a3, longsep.c_str(), br)); }, "separated_range(array, op), long separator");
        st(A("falsetrue"), 9, [&](auto&& k) { static const bool bs[] = {false, true}; k(strf::pack(), strf::range(bs)); }, "range of bool");
    }
};
template <class C> void run(int n, bool st) { auto* t = new T<C>; t->run(n); if (st) t->statics(); }
static void body() {
#if PART == 0
    run<char>(mc::thorough() ? 5 : 4, true);
#elif PART == 1
    run<char16_t>(4, true);
#elif PART == 2
    run<char32_t>(4, false); run<char8_t>(3, false);
#else
    run<wchar_t>(4, true);
#endif
}
MC_MAIN(body)
