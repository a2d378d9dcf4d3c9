// Entry points for the removal of separators from the text of a floating-point number.
// vp-flags: -fno-access-control
// vp-unroll
// vp-noinline: ~26make_into_allocated_string
// vp-noinline: ~^_ZSt4findI
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
#define VP_SEP(S, CH)                                                                                              \
    VP void vp_handle_##S(impl::float_reader<CH>* rd, CH sep, CH dp)                                               \
    {                                                                                                              \
        rd->m_locale_options.thousands_sep = sep;                                                                  \
        rd->m_locale_options.decimal_point = dp;                                                                   \
        rd->handle_separators();                                                                                   \
    }                                                                                                              \
    VP void vp_erase_##S(impl::float_reader<CH>* rd, std::basic_string<CH>* str, CH sep)                           \
    {                                                                                                              \
        rd->m_locale_options.thousands_sep = sep;                                                                  \
        rd->erase_thousands_separators(*str);                                                                      \
    }
VP_SEP(c, char)
VP_SEP(w, wchar_t)
