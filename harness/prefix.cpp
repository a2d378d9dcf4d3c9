// Entry points for what stands in front of the digits of a number: sign, base prefix.
// vp-unroll
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
// out[0]: base, out[1]: sign, out[2]: a lone zero of an octal or detected base; code 1: end of input
#define VP_PREFIX(NAME, CH)                                                                                        \
    VP vp_res<CH> vp_prefix_##NAME(const CH* b, size_t n, int base, int* out)                                      \
    {                                                                                                              \
        auto r = impl::parse_integer_prefix(std::basic_string_view<CH>{b, n}, base);                               \
        if (!r) return {nullptr, 1};                                                                               \
        out[0] = r->parsed_base;                                                                                   \
        out[1] = r->sign == impl::sign_type::minus_sign ? 0 : 1;                                                   \
        out[2] = r->is_zero;                                                                                       \
        return {detail::to_address(r->iterator), 0};                                                               \
    }
VP_PREFIX(c, char)
VP_PREFIX(w, wchar_t)
#define VP_SIGN(NAME, CH)                                                                                          \
    VP vp_res<CH> vp_sign_##NAME(const CH* b, size_t n, int* out)                                                  \
    {                                                                                                              \
        auto r = impl::parse_numeric_sign(std::basic_string_view<CH>{b, n});                                       \
        if (!r) return {nullptr, 1};                                                                               \
        out[0] = static_cast<int>(r->second);                                                                      \
        return {detail::to_address(r->first), 0};                                                                  \
    }
VP_SIGN(c, char)
VP_SIGN(w, wchar_t)
VP uint8_t vp_char_to_int_c(char c) { return impl::char_to_int(c); }
VP uint8_t vp_char_to_int_w(wchar_t c) { return impl::char_to_int(c); }
VP int vp_specs_base(int which, unsigned char arb)
{
    using p = detail::presentation_type;
    constexpr p tab[] = {p::none, p::int_decimal, p::int_unsigned_decimal, p::int_generic, p::int_binary, p::int_octal, p::int_hex, p::int_arbitrary_base};
    detail::format_specs s;
    s.type = tab[which];
    s.arbitrary_base = arb;
    return s.get_base();
}
