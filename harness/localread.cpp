// Entry points for the whole integer reader with the localized option; the digits and the value by their contracts.
// vp-flags: -fno-access-control
// vp-unroll
// vp-noinline: parse_integer_value
// vp-noinline: parse_integer_digits_with_thsep
// vp-noinline: ~localized_number_formatting_optionsI.*C[12]E
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
#define VP_READ(NAME, CH, T)                                                                                       \
    VP vp_res<CH> vp_lread_##NAME(const CH* b, size_t n, T* out, int which, unsigned char arb)                     \
    {                                                                                                              \
        using p = detail::presentation_type;                                                                       \
        constexpr p tab[] = {p::none, p::int_decimal, p::int_unsigned_decimal, p::int_generic,                     \
                             p::int_binary, p::int_octal, p::int_hex, p::int_arbitrary_base};                      \
        detail::format_specs s;                                                                                    \
        s.type = tab[which];                                                                                       \
        s.arbitrary_base = arb;                                                                                    \
        s.localized = true;                                                                                        \
        auto r = impl::reader_impl_for_int<CH>{}.read_specs(std::basic_string_view<CH>{b, n}, s, *out, {});        \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        return {detail::to_address(*r), 0};                                                                        \
    }
VP_READ(c_i32, char, int)
VP_READ(c_u64, char, unsigned long)
VP_READ(w_i32, wchar_t, int)
