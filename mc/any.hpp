// Any<C>: a user-defined printable (a node of a tree built at run time) whose printers are the library's own.
// It lets arbitrary nestings of joins, ranges and tr-strings be enumerated.
#ifndef ANY_HPP
#define ANY_HPP
#include <string_view>
#include <strf.hpp>
#include <functional>
#include <memory>
#include <vector>
template <class C> struct Node;
template <class C> struct Any { const Node<C>* n; };
template <class C> struct AnyPrinter { std::shared_ptr<void> hold; void (*f)(void*, strf::destination<C>&); void operator()(strf::destination<C>& d) const { f(hold.get(), d); } };
enum Kind { KInt, KStr, KChar, KRight, KConv, KDouble, KBool, KJoin, KAlign, KRange, KSep, KTr, KOpRange, KOpSep, KIntRange, KIntSep };
template <class C> struct Node {
    Kind kind; std::basic_string<C> s;      // text, separator or tr-string
    std::vector<Any<C>> ch; std::vector<int> iv;
    int i = 0; double d = 0; char32_t c = 0; strf::alignment_format af{};
    // expectation
    std::basic_string<C> text; std::int64_t w = 0;
};
template <class C, class F> inline auto visit(const Node<C>& n, F&& f) {
    auto id = [](const Any<C>& a) { return Any<C>{a.n}; };
    auto J = [&](auto&& maker) {
        switch (n.ch.size()) {
        case 0: return f(maker());
        case 1: return f(maker(n.ch[0]));
        case 2: return f(maker(n.ch[0], n.ch[1]));
        case 3: return f(maker(n.ch[0], n.ch[1], n.ch[2]));
        default: return f(maker(n.ch[0], n.ch[1], n.ch[2], n.ch[3]));
        }
    };
    switch (n.kind) {
    case KInt: return f(n.i);
    case KDouble: return f(n.d);
    case KBool: return f(n.i != 0);
    case KStr: return f(n.s);
    case KChar: return f(n.c);
    case KRight: return f(strf::fmt(n.s).set_alignment_format(n.af));
    case KConv: return f(strf::sani(n.s));
    case KJoin: return J([](const auto&... a) { return strf::join(a...); });
    case KAlign: return J([&](const auto&... a) { return strf::join(a...).set_alignment_format(n.af); });
    case KRange: return f(strf::range(n.ch));
    case KSep: return f(strf::separated_range(n.ch, n.s.c_str()));
    case KOpRange: return f(strf::range(n.ch, id));
    case KOpSep: return f(strf::separated_range(n.ch, n.s.c_str(), id));
    case KIntRange: return f(strf::fmt_range(n.iv).set_alignment_format(n.af));
    case KIntSep: return f(strf::fmt_separated_range(n.iv, n.s.c_str()).set_alignment_format(n.af));
    default: return J([&](const auto&... a) { return strf::tr(n.s, a...); });
    }
}
namespace strf {
template <class C> struct printable_def<Any<C>> {
    using representative = Any<C>; using forwarded_type = Any<C>; using is_overridable = std::false_type;
    template <class CharT, class Pre, class FP> static AnyPrinter<C> make_printer(strf::tag<CharT>, Pre* pre, const FP& fp, Any<C> a) {
        return visit(*a.n, [&](const auto& x) {
            using P = decltype(strf::make_printer<C>(pre, fp, x));
            struct H { P p; };
            auto h = std::shared_ptr<H>(new H{strf::make_printer<C>(pre, fp, x)});
            return AnyPrinter<C>{h, [](void* v, strf::destination<C>& d) { static_cast<H*>(v)->p(d); }};
        });
    }
};
}
#endif
