// Entry points for matching source text against a character set (contiguous sources).
// vp-flags: -fno-access-control
// vp-inline-strings
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
// vp-noinline: _M_realloc_insert
// vp-noinline: _M_realloc_append
using vp_pair = std::pair<char32_t, char32_t>;
struct vp_rep {
    const vp_pair *b, *e, *cap;
};
static inline void vp_fill(std::vector<vp_pair>& v, const vp_pair* b, const vp_pair* e, const vp_pair* cap)
{
    static_assert(sizeof(v) == sizeof(vp_rep));
    vp_rep r{b, e, cap};
    __builtin_memcpy(static_cast<void*>(&v), &r, sizeof r);
}
template <bool Single>
static inline const vp_pair* vp_add(const vp_pair* b, size_t m, size_t room, char32_t lo, char32_t hi)
{
    union U {
        impl::nonascii_specs_handler h;
        U() : h() {}
        ~U() {}
    } u;
    vp_fill(u.h.extra_ranges, b, b + m, b + room);
    if constexpr (Single) u.h.on_charset_single(lo);
    else u.h.on_charset_range(lo, hi);
    vp_rep r;
    __builtin_memcpy(&r, static_cast<void*>(&u.h.extra_ranges), sizeof r);
    return r.e;
}
VP const vp_pair* vp_na_add(const vp_pair* b, size_t m, size_t room, char32_t lo, char32_t hi) { return vp_add<false>(b, m, room, lo, hi); }
VP const vp_pair* vp_na_add1(const vp_pair* b, size_t m, size_t room, char32_t lo) { return vp_add<true>(b, m, room, lo, 0); }
#define VP_SET(S, CH)                                                                                              \
    VP bool vp_na_has_##S(const vp_pair* b, size_t m, char32_t c)                                                  \
    {                                                                                                              \
        using helper = impl::character_set_reader_impl<CH>::specs_helper;                                          \
        detail::format_specs s;                                                                                    \
        union U {                                                                                                  \
            helper h;                                                                                              \
            U(const detail::format_specs& x) : h(x) {}                                                             \
            ~U() {}                                                                                                \
        } u{s};                                                                                                    \
        vp_fill(u.h.nonascii.extra_ranges, b, b + m, b + m);                                                       \
        return u.h.is_char_set_in_extra_literals(c);                                                               \
    }                                                                                                              \
    VP bool vp_lit_has_##S(const uint8_t* lit, char32_t c)                                                         \
    {                                                                                                              \
        detail::format_specs s;                                                                                    \
        for (size_t i = 0; i < s.charset_literals.size(); ++i) s.charset_literals[i] = lit[i];                     \
        impl::character_set_reader_impl<CH>::specs_helper h{s};                                                    \
        impl::character_set_reader_impl<CH>::read_source_callback cb{h};                                           \
        return cb.on_classic_with_extra_ranges(c);                                                                 \
    }                                                                                                              \
    VP vp_res<CH> vp_set_read_##S(const CH* b, size_t n, const uint8_t* lit, bool inverted)                        \
    {                                                                                                              \
        detail::format_specs s;                                                                                    \
        for (size_t i = 0; i < s.charset_literals.size(); ++i) s.charset_literals[i] = lit[i];                     \
        s.charset_is_inverted = inverted;                                                                          \
        s.charset_has_nonascii = false;                                                                            \
        auto r = impl::character_set_reader_impl<CH>{}.read_source_impl(std::basic_string_view<CH>{b, n}, {s});    \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        return {detail::to_address(*r), 0};                                                                        \
    }                                                                                                              \
    extern "C" bool vp_ev_unit_##S(CH);                                                                            \
    extern "C" bool vp_ev_point_##S(char32_t);                                                                     \
    VP const CH* vp_until_unit_##S(const CH* b, size_t n)                                                          \
    {                                                                                                              \
        return detail::to_address(impl::read_until_code_unit(std::basic_string_view<CH>{b, n}, [](CH c) { return vp_ev_unit_##S(c); })); \
    }                                                                                                              \
    VP const CH* vp_while_unit_##S(const CH* b, size_t n)                                                          \
    {                                                                                                              \
        return detail::to_address(impl::read_while_code_unit(std::basic_string_view<CH>{b, n}, [](CH c) { return vp_ev_unit_##S(c); })); \
    }                                                                                                              \
    VP const CH* vp_until_point_##S(const CH* b, size_t n)                                                         \
    {                                                                                                              \
        return detail::to_address(impl::read_until_code_point(std::basic_string_view<CH>{b, n}, [](char32_t c) { return vp_ev_point_##S(c); })); \
    }                                                                                                              \
    VP const CH* vp_while_point_##S(const CH* b, size_t n)                                                         \
    {                                                                                                              \
        return detail::to_address(impl::read_while_code_point(std::basic_string_view<CH>{b, n}, [](char32_t c) { return vp_ev_point_##S(c); })); \
    }
VP_SET(c, char)
VP_SET(w, wchar_t)
