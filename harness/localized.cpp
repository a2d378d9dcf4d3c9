// Entry points for numbers read with the localized option: integers.
// vp-flags: -fno-access-control
// vp-unroll
// vp-noinline: parse_integer_value
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
template <typename CH>
using vp_sub = ranges::subrange<const CH*>;
extern "C" void vp_ev_digits(const void*, size_t, size_t);
#define VP_THSEP(S, CH)                                                                                            \
    VP vp_res<CH> vp_thsep_##S(impl::localized_number_formatting_options<CH>* lo, const CH* b, size_t n, int base, CH sep) \
    {                                                                                                              \
        lo->thousands_sep = sep;                                                                                   \
        auto r = impl::parse_integer_digits_with_thsep(vp_sub<CH>{b, b + n}, base, *lo);                           \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        vp_ev_digits(std::get<1>(*r).data(), std::get<1>(*r).size(), std::get<2>(*r).size());                      \
        return {detail::to_address(std::get<0>(*r)), 0};                                                           \
    }
VP_THSEP(c, char)
VP_THSEP(w, wchar_t)
