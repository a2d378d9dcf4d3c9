// Entry points for format specs (what stands between ':' and '}' of a field) and character sets; the handler records.
// vp-noinline: parse_simple_int
// vp-noinline: parse_align
// vp-noinline: parse_width
// vp-noinline: parse_precision
// vp-noinline: parse_presentation_set
// vp-noinline: parse_presentation_regex
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
// enumerators by name, so that the contracts do not depend on their order
using PT = detail::presentation_type;
static inline int vp_t(PT t)
{
    switch (t) {
        case PT::none: return 0;
        case PT::int_binary: return 1;
        case PT::int_decimal: return 2;
        case PT::int_generic: return 3;
        case PT::int_unsigned_decimal: return 4;
        case PT::int_octal: return 5;
        case PT::int_hex: return 6;
        case PT::int_arbitrary_base: return 7;
        case PT::float_hex: return 8;
        case PT::float_scientific: return 9;
        case PT::float_fixed: return 10;
        case PT::float_general: return 11;
        case PT::string: return 12;
        case PT::string_set: return 13;
        case PT::regex: return 14;
        case PT::regex_escaped: return 15;
        case PT::character: return 16;
        case PT::escaped_character: return 17;
        case PT::pointer: return 18;
        default: return 99;
    }
}
static inline PT vp_pt(int t)
{
    switch (t) {
        case 0: return PT::none;
        case 1: return PT::int_binary;
        case 2: return PT::int_decimal;
        case 3: return PT::int_generic;
        case 4: return PT::int_unsigned_decimal;
        case 5: return PT::int_octal;
        case 6: return PT::int_hex;
        case 7: return PT::int_arbitrary_base;
        case 8: return PT::float_hex;
        case 9: return PT::float_scientific;
        case 10: return PT::float_fixed;
        case 11: return PT::float_general;
        case 12: return PT::string;
        case 13: return PT::string_set;
        case 14: return PT::regex;
        case 15: return PT::regex_escaped;
        case 16: return PT::character;
        case 17: return PT::escaped_character;
        case 18: return PT::pointer;
        default: return PT::none;
    }
}
static inline int vp_a(detail::align_type a)
{
    switch (a) {
        case detail::align_type::left: return 1;
        case detail::align_type::right: return 2;
        case detail::align_type::center: return 3;
        default: return 0;
    }
}
static inline unsigned vp_f(detail::regex_flags f)
{
    using F = detail::regex_flags;
    return ((f & F::multiline) != F::none ? 1u : 0u) | ((f & F::singleline) != F::none ? 2u : 0u) | ((f & F::nocase) != F::none ? 4u : 0u) | ((f & F::nocapture) != F::none ? 8u : 0u);
}
#define VP_SPECS(S, CH)                                                                                            \
    extern "C" {                                                                                                   \
    void vp_ev_align_##S(int);                                                                                     \
    void vp_ev_fill_##S(const CH*, size_t);                                                                        \
    void vp_ev_width_##S(int);                                                                                     \
    void vp_ev_prec_##S(int);                                                                                      \
    void vp_ev_type_##S(int);                                                                                      \
    void vp_ev_local_##S();                                                                                        \
    void vp_ev_single_##S(unsigned);                                                                               \
    void vp_ev_range_##S(unsigned, unsigned);                                                                      \
    void vp_ev_invert_##S();                                                                                       \
    void vp_ev_set_##S(const CH*, size_t);                                                                         \
    void vp_ev_regex_##S(const CH*, size_t);                                                                       \
    void vp_ev_flags_##S(unsigned);                                                                                \
    void vp_ev_error_##S();                                                                                        \
    bool vp_ev_failed_##S();                                                                                       \
    }                                                                                                              \
    struct vp_rec_##S {                                                                                            \
        void on_align(detail::align_type a) { vp_ev_align_##S(vp_a(a)); }                                           \
        void on_fill(std::basic_string_view<CH> f) { vp_ev_fill_##S(f.data(), f.size()); }                         \
        void on_width(int n) { vp_ev_width_##S(n); }                                                               \
        void on_precision(int n) { vp_ev_prec_##S(n); }                                                            \
        void on_type(detail::presentation_type t) { vp_ev_type_##S(vp_t(t)); }                                      \
        void on_localized() { vp_ev_local_##S(); }                                                                 \
        void on_charset_single(char32_t c) { vp_ev_single_##S(c); }                                                \
        void on_charset_range(char32_t a, char32_t b) { vp_ev_range_##S(a, b); }                                   \
        void on_charset_inverted() { vp_ev_invert_##S(); }                                                         \
        void on_character_set_string(std::basic_string_view<CH> f) { vp_ev_set_##S(f.data(), f.size()); }          \
        void on_regex_pattern(std::basic_string_view<CH> f) { vp_ev_regex_##S(f.data(), f.size()); }               \
        void on_regex_flags(detail::regex_flags f) { vp_ev_flags_##S(vp_f(f)); }                               \
        void on_error(const char*) { vp_ev_error_##S(); }                                                          \
        scan_expected<void> get_error() const                                                                      \
        {                                                                                                          \
            if (vp_ev_failed_##S()) return unexpected(scan_error{scan_error::invalid_format_string, ""});          \
            return {};                                                                                             \
        }                                                                                                          \
    };                                                                                                             \
    VP const CH* vp_specs_##S(const CH* f, size_t n)                                                               \
    {                                                                                                              \
        vp_rec_##S h;                                                                                              \
        return detail::parse_format_specs(f, f + n, h);                                                            \
    }                                                                                                              \
    VP const CH* vp_align_##S(const CH* f, size_t n)                                                               \
    {                                                                                                              \
        vp_rec_##S h;                                                                                              \
        return detail::parse_align(f, f + n, h);                                                                   \
    }                                                                                                              \
    VP const CH* vp_width_##S(const CH* f, size_t n)                                                               \
    {                                                                                                              \
        vp_rec_##S h;                                                                                              \
        return detail::parse_width(f, f + n, h);                                                                   \
    }                                                                                                              \
    VP const CH* vp_prec_##S(const CH* f, size_t n)                                                                \
    {                                                                                                              \
        vp_rec_##S h;                                                                                              \
        return detail::parse_precision(f, f + n, h);                                                               \
    }                                                                                                              \
    VP const CH* vp_set_##S(const CH* f, size_t n, size_t* size)                                                   \
    {                                                                                                              \
        vp_rec_##S h;                                                                                              \
        const CH* p = f;                                                                                           \
        auto r = detail::parse_presentation_set(p, f + n, h);                                                      \
        *size = r.size();                                                                                          \
        if (!r.empty() && r.data() != f) *size = 0;                                                                \
        return p;                                                                                                  \
    }                                                                                                              \
    VP const CH* vp_regex_##S(const CH* f, size_t n, const CH** p)                                                 \
    {                                                                                                              \
        vp_rec_##S h;                                                                                              \
        *p = f;                                                                                                    \
        return detail::parse_presentation_regex(*p, f + n, h);                                                     \
    }
VP_SPECS(c, char)
VP_SPECS(w, wchar_t)
// the setter that stores what the format says
struct vp_wp {
    int width, prec, code;
};
VP vp_wp vp_store_width(int w, int p, int v)
{
    detail::format_specs f{};
    f.width = w;
    f.precision = p;
    detail::specs_setter s{f};
    s.on_width(v);
    auto e = s.get_error();
    return {f.width, f.precision, e ? 0 : vp_code(e.error())};
}
VP vp_wp vp_store_prec(int w, int p, int v)
{
    detail::format_specs f{};
    f.width = w;
    f.precision = p;
    detail::specs_setter s{f};
    s.on_precision(v);
    auto e = s.get_error();
    return {f.width, f.precision, e ? 0 : vp_code(e.error())};
}
struct vp_bits {
    const unsigned char* literals;
    bool nonascii;
};
VP vp_bits vp_store_single(detail::format_specs* p, unsigned c)
{
    p->charset_has_nonascii = false;
    detail::specs_setter s{*p};
    s.on_charset_single((char32_t)c);
    return {p->charset_literals.data(), p->charset_has_nonascii};
}
VP vp_bits vp_store_range(detail::format_specs* p, unsigned a, unsigned b)
{
    p->charset_has_nonascii = false;
    detail::specs_setter s{*p};
    s.on_charset_range((char32_t)a, (char32_t)b);
    return {p->charset_literals.data(), p->charset_has_nonascii};
}
struct vp_eh {
    bool bad{false};
    void on_error(const char*) { bad = true; }
};
#define VP_CHECK(NAME)                                                                                             \
    VP bool vp_check_##NAME(int type, int prec, bool loc, size_t len)                                              \
    {                                                                                                              \
        detail::format_specs s{};                                                                                  \
        s.type = vp_pt(type);                                                                  \
        s.precision = prec;                                                                                        \
        s.localized = loc;                                                                                         \
        s.charset_string_size = len;                                                                               \
        vp_eh h;                                                                                                   \
        detail::check_##NAME##_type_specs(s, h);                                                                   \
        return h.bad;                                                                                              \
    }
VP_CHECK(int)
VP_CHECK(char)
VP_CHECK(code_point)
VP_CHECK(float)
VP_CHECK(string)
VP_CHECK(pointer)
VP_CHECK(bool)
VP_CHECK(regex)
