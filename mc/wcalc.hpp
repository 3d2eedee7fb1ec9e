#ifndef WCALC_HPP
#define WCALC_HPP
#include <strf.hpp>
// one width calculator facet that is any of the library's four at run time
struct WC {
    using category = strf::width_calculator_c;
    int mode;
    template <class CS, class C> strf::width_t char_width(const CS& cs, C c) const { return mode == 0 ? strf::std_width_calc.char_width(cs, c) : mode == 1 ? strf::fast_width.char_width(cs, c) : mode == 2 ? strf::width_as_u32len.char_width(cs, c) : strf::width_as_fast_u32len.char_width(cs, c); }
    template <class CS, class C> strf::width_t str_width(const CS& cs, strf::width_t l, const C* b, const C* e) const {
        return mode == 0 ? strf::std_width_calc.str_width(cs, l, b, e) : mode == 1 ? strf::fast_width.str_width(cs, l, b, e) : mode == 2 ? strf::width_as_u32len.str_width(cs, l, b, e) : strf::width_as_fast_u32len.str_width(cs, l, b, e); }
    template <class CS, class C> auto str_width_and_pos(const CS& cs, strf::width_t l, const C* b, const C* e) const {
        return mode == 0 ? strf::std_width_calc.str_width_and_pos(cs, l, b, e) : mode == 1 ? strf::fast_width.str_width_and_pos(cs, l, b, e) : mode == 2 ? strf::width_as_u32len.str_width_and_pos(cs, l, b, e) : strf::width_as_fast_u32len.str_width_and_pos(cs, l, b, e); }
};
#endif
