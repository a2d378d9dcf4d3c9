// Entry points for the floating-point reader: choice of syntax and of conversion.
// vp-flags: -fno-access-control
// vp-unroll
// vp-noinline: ~17handle_separators
// vp-noinline: ~contiguous_range_factory.*6assign
// vp-noinline: ~18read_regular_float
// vp-noinline: ~13read_hexfloat
// vp-noinline: ~8read_infI
// vp-noinline: ~8read_nanI
// vp-noinline: ~11strtod_implI.*cl
// vp-inline: ~14trivial_invoke.*map_parse_error_to_scan_error
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
using K = impl::float_reader_base::float_kind;
static inline int vp_kind(K k)
{
    switch (k) {
        case K::tbd: return 0;
        case K::generic: return 1;
        case K::fixed: return 2;
        case K::scientific: return 3;
        case K::hex_without_prefix: return 4;
        case K::hex_with_prefix: return 5;
        case K::inf_short: return 6;
        case K::inf_long: return 7;
        case K::nan_simple: return 8;
        case K::nan_with_payload: return 9;
    }
    return 99;
}
static constexpr K vp_kinds[] = {K::tbd, K::generic, K::fixed, K::scientific, K::hex_without_prefix, K::hex_with_prefix, K::inf_short, K::inf_long, K::nan_simple, K::nan_with_payload};
using FB = impl::float_reader_base;
static inline unsigned vp_options(unsigned o)
{
    return (o & 1 ? FB::allow_hex : 0u) | (o & 2 ? FB::allow_scientific : 0u) | (o & 4 ? FB::allow_fixed : 0u) | (o & 8 ? FB::allow_thsep : 0u);
}
extern "C" void vp_ev_kind(const void*);
extern "C" void vp_ev_raw(int);
#define VP_SRC(S, CH)                                                                                              \
    VP vp_res<CH> vp_source_##S(impl::float_reader<CH>* rd, const CH* b, size_t n, unsigned opt, CH sep, CH dp, int* kind, int* sign) \
    {                                                                                                              \
        rd->m_options = vp_options(opt);                                                                           \
        rd->m_locale_options.thousands_sep = sep;                                                                  \
        rd->m_locale_options.decimal_point = dp;                                                                   \
        rd->m_kind = K::tbd;                                                                                       \
        vp_ev_kind(&rd->m_kind);                                                                                   \
        auto r = rd->read_source_impl(std::basic_string_view<CH>{b, n});                                           \
        *kind = vp_kind(rd->m_kind);                                                                               \
        *sign = rd->m_sign == impl::sign_type::minus_sign ? 0 : rd->m_sign == impl::sign_type::plus_sign ? 1 : 2;  \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        return {detail::to_address(*r), 0};                                                                        \
    }
VP_SRC(c, char)
VP_SRC(w, wchar_t)
#define VP_DISP(S, CH, T)                                                                                          \
    VP int vp_dispatch_##S(const CH* b, size_t n, int kind, unsigned opt, size_t payload, T* value, long* count)   \
    {                                                                                                              \
        impl::contiguous_range_factory<CH> in{impl::string_view_wrapper<CH>{std::basic_string_view<CH>{b, n}}};    \
        impl::contiguous_range_factory<CH> nan{impl::string_view_wrapper<CH>{std::basic_string_view<CH>{b, payload}}}; \
        vp_ev_raw(static_cast<int>(vp_kinds[kind]));                                                               \
        auto r = impl::dispatch_impl<CH>({in, vp_kinds[kind], vp_options(opt)}, nan, *value);                      \
        if (!r) return vp_code(r.error());                                                                         \
        *count = *r;                                                                                               \
        return 0;                                                                                                  \
    }
VP_DISP(cd, char, double)
VP_DISP(cf, char, float)
VP_DISP(cl, char, long double)
VP_DISP(wd, wchar_t, double)
