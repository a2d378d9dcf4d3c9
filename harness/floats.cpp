// Entry points for the floating-point reader over contiguous text.
// vp-flags: -fno-access-control
// vp-unroll
// vp-noinline: ~17handle_separators
// vp-noinline: ~contiguous_range_factory.*6assign
// vp-inline: ~14trivial_invoke.*map_parse_error_to_scan_error
// vp-noinline: ~15read_dec_digits
// vp-noinline: ~15read_hex_digits
// vp-noinline: ~13read_exponent
// vp-noinline: ~13dispatch_implI
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
using K = impl::float_reader_base::float_kind;
static inline int vp_kind(K k)
{
    switch (k) {
        case K::tbd: return 0;
        case K::generic: return 1;
        case K::fixed: return 2;
        case K::scientific: return 3;
        case K::hex_without_prefix: return 4;
        case K::hex_with_prefix: return 5;
        case K::inf_short: return 6;
        case K::inf_long: return 7;
        case K::nan_simple: return 8;
        case K::nan_with_payload: return 9;
    }
    return 99;
}
static constexpr K vp_kinds[] = {K::tbd, K::generic, K::fixed, K::scientific, K::hex_without_prefix, K::hex_with_prefix, K::inf_short, K::inf_long, K::nan_simple, K::nan_with_payload};
using FB = impl::float_reader_base;
// bit 0: hexadecimal, 1: scientific, 2: fixed, 3: thousands separators
static inline unsigned vp_options(unsigned o)
{
    return (o & 1 ? FB::allow_hex : 0u) | (o & 2 ? FB::allow_scientific : 0u) | (o & 4 ? FB::allow_fixed : 0u) | (o & 8 ? FB::allow_thsep : 0u);
}
template <typename CH>
using vp_sub = ranges::subrange<const CH*>;
#define VP_FLOAT(S, CH)                                                                                            \
    VP vp_res<CH> vp_regular_##S(impl::float_reader<CH>* rd, const CH* b, size_t n, unsigned opt, CH sep, CH dp, int* kind) \
    {                                                                                                              \
        rd->m_options = vp_options(opt);                                                                           \
        rd->m_locale_options.thousands_sep = sep;                                                                  \
        rd->m_locale_options.decimal_point = dp;                                                                   \
        rd->m_kind = K::generic;                                                                                   \
        auto r = rd->read_regular_float(vp_sub<CH>{b, b + n});                                                     \
        *kind = vp_kind(rd->m_kind);                                                                               \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        return {detail::to_address(*r), 0};                                                                        \
    }                                                                                                              \
    VP vp_res<CH> vp_hex_##S(impl::float_reader<CH>* rd, const CH* b, size_t n, CH sep, CH dp)                     \
    {                                                                                                              \
        rd->m_locale_options.thousands_sep = sep;                                                                  \
        rd->m_locale_options.decimal_point = dp;                                                                   \
        auto r = rd->read_hexfloat(vp_sub<CH>{b, b + n});                                                          \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        return {detail::to_address(*r), 0};                                                                        \
    }                                                                                                              \
    VP vp_res<CH> vp_inf_##S(impl::float_reader<CH>* rd, const CH* b, size_t n, int* kind)                         \
    {                                                                                                              \
        rd->m_kind = K::tbd;                                                                                       \
        auto r = rd->read_inf(vp_sub<CH>{b, b + n});                                                               \
        *kind = vp_kind(rd->m_kind);                                                                               \
        if (!r) return {nullptr, 1};                                                                               \
        return {detail::to_address(*r), 0};                                                                        \
    }                                                                                                              \
    VP vp_res<CH> vp_nan_##S(impl::float_reader<CH>* rd, const CH* b, size_t n, int* kind)                         \
    {                                                                                                              \
        rd->m_kind = K::tbd;                                                                                       \
        auto r = rd->read_nan(vp_sub<CH>{b, b + n});                                                               \
        *kind = vp_kind(rd->m_kind);                                                                               \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        return {detail::to_address(*r), 0};                                                                        \
    }
VP_FLOAT(c, char)
VP_FLOAT(w, wchar_t)
VP unsigned vp_float_options(int which, bool loc)
{
    using p = detail::presentation_type;
    constexpr p tab[] = {p::none, p::float_fixed, p::float_scientific, p::float_hex, p::float_general};
    detail::format_specs s;
    s.type = tab[which];
    s.localized = loc;
    auto o = impl::reader_impl_for_float<char>::get_options(s);
    return (o & FB::allow_hex ? 1u : 0u) | (o & FB::allow_scientific ? 2u : 0u) | (o & FB::allow_fixed ? 4u : 0u) | (o & FB::allow_thsep ? 8u : 0u);
}
// conversion: strtod is seen through vp_ev_strtod
#define VP_CONV(S, CH, T)                                                                                          \
    extern "C" T vp_ev_strtod_##S(const CH*, CH**);                                                                \
    VP int vp_parse_##S(const CH* b, int kind, unsigned opt, T* value, long* count)                                \
    {                                                                                                              \
        impl::strtod_impl_base<T> p{impl::impl_base{vp_kinds[kind], vp_options(opt)}};                             \
        auto r = p.parse(*value, b, [](const CH* q, CH** e) { return vp_ev_strtod_##S(q, e); });                   \
        if (!r) return vp_code(r.error());                                                                         \
        *count = *r;                                                                                               \
        return 0;                                                                                                  \
    }                                                                                                              \
    VP int vp_value_##S(impl::float_reader<CH>* rd, int sign, T* value, long* count)                               \
    {                                                                                                              \
        rd->m_kind = K::generic;                                                                                   \
        rd->m_sign = sign == 0 ? impl::sign_type::minus_sign : sign == 1 ? impl::sign_type::plus_sign : impl::sign_type::default_sign; \
        auto r = rd->parse_value_impl(*value);                                                                     \
        if (!r) return vp_code(r.error());                                                                         \
        *count = *r;                                                                                               \
        return 0;                                                                                                  \
    }
VP_CONV(cd, char, double)
VP_CONV(cf, char, float)
VP_CONV(cl, char, long double)
VP_CONV(wd, wchar_t, double)
