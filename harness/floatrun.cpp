// Entry points for the digit runs of the floating-point reader over contiguous text.
// vp-flags: -fno-access-control
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
template <typename CH>
using vp_sub = ranges::subrange<const CH*>;
#define VP_RUN(S, CH)                                                                                              \
    VP vp_res<CH> vp_dec_##S(impl::float_reader<CH>* rd, const CH* b, size_t n, CH sep, bool allowed)              \
    {                                                                                                              \
        rd->m_locale_options.thousands_sep = sep;                                                                  \
        auto r = rd->read_dec_digits(vp_sub<CH>{b, b + n}, allowed);                                               \
        if (!r) return {nullptr, r.error() == impl::parse_error::eof ? 1 : 3};                                     \
        return {detail::to_address(*r), 0};                                                                        \
    }                                                                                                              \
    VP vp_res<CH> vp_hexd_##S(impl::float_reader<CH>* rd, const CH* b, size_t n, CH sep, bool allowed)             \
    {                                                                                                              \
        rd->m_locale_options.thousands_sep = sep;                                                                  \
        auto r = rd->read_hex_digits(vp_sub<CH>{b, b + n}, allowed);                                               \
        if (!r) return {nullptr, r.error() == impl::parse_error::eof ? 1 : 3};                                     \
        return {detail::to_address(*r), 0};                                                                        \
    }                                                                                                              \
    VP const CH* vp_exp_##S(impl::float_reader<CH>* rd, const CH* b, size_t n, bool hex)                           \
    {                                                                                                              \
        return detail::to_address(rd->read_exponent(vp_sub<CH>{b, b + n}, hex ? std::string_view{"pP"} : std::string_view{"eE"})); \
    }
VP_RUN(c, char)
VP_RUN(w, wchar_t)
