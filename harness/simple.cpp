// Entry points for boolean, character and code point fields over contiguous sources.
// vp-unroll
// vp-inline-strings
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
#define VP_BOOL(NAME, CH)                                                                                          \
    VP vp_res<CH> vp_bool_##NAME(const CH* b, size_t n, bool* out)                                                 \
    {                                                                                                              \
        auto r = impl::reader_impl_for_bool<CH>{}.read_default(std::basic_string_view<CH>{b, n}, *out, {});        \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        return {detail::to_address(*r), 0};                                                                        \
    }                                                                                                              \
    VP vp_res<CH> vp_bools_##NAME(const CH* b, size_t n, bool* out, int which)                                     \
    {                                                                                                              \
        using p = detail::presentation_type;                                                                       \
        constexpr p tab[] = {p::none, p::string, p::int_decimal, p::int_unsigned_decimal, p::int_generic,          \
                             p::int_binary, p::int_octal, p::int_hex};                                             \
        impl::bool_reader<CH> rd{impl::reader_impl_for_bool<CH>::get_options([&] {                                 \
            detail::format_specs s;                                                                                \
            s.type = tab[which];                                                                                   \
            return s;                                                                                              \
        }())};                                                                                                     \
        auto r = rd.read_classic(std::basic_string_view<CH>{b, n}, *out);                                          \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        return {detail::to_address(*r), 0};                                                                        \
    }
VP_BOOL(c, char)
VP_BOOL(w, wchar_t)
#define VP_CHAR(NAME, READER, CH, T)                                                                               \
    VP vp_res<CH> vp_##NAME(const CH* b, size_t n, T* out)                                                         \
    {                                                                                                              \
        auto r = impl::READER<CH>{}.read_default(std::basic_string_view<CH>{b, n}, *out, {});                      \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        return {detail::to_address(*r), 0};                                                                        \
    }
VP_CHAR(char_c, reader_impl_for_char, char, char)
VP_CHAR(wchar_c, reader_impl_for_wchar, char, wchar_t)
VP_CHAR(wchar_w, reader_impl_for_wchar, wchar_t, wchar_t)
VP_CHAR(cp_c, reader_impl_for_code_point, char, char32_t)
VP_CHAR(cp_w, reader_impl_for_code_point, wchar_t, char32_t)
