// Entry points for the walk over a format string; what the handler does with each item is left open.
// vp-noinline: parse_simple_int
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
#define VP_WALK(S, CH)                                                                                             \
    extern "C" {                                                                                                   \
    void vp_ev_text_##S(const CH*, const CH*);                                                                     \
    size_t vp_ev_auto_##S();                                                                                       \
    size_t vp_ev_manual_##S(size_t);                                                                               \
    void vp_ev_field_##S(size_t, const CH*);                                                                       \
    const CH* vp_ev_specs_##S(size_t, const CH*, const CH*);                                                       \
    void vp_ev_error_##S();                                                                                        \
    bool vp_ev_failed_##S();                                                                                       \
    void vp_ev_done_##S();                                                                                         \
    }                                                                                                              \
    struct vp_walker_##S {                                                                                         \
        void on_literal_text(const CH* b, const CH* e) { vp_ev_text_##S(b, e); }                                   \
        size_t on_arg_id() { return vp_ev_auto_##S(); }                                                            \
        size_t on_arg_id(size_t id) { return vp_ev_manual_##S(id); }                                               \
        void on_replacement_field(size_t id, const CH* b) { vp_ev_field_##S(id, b); }                              \
        const CH* on_format_specs(size_t id, const CH* b, const CH* e) { return vp_ev_specs_##S(id, b, e); }       \
        void on_error(const char*) { vp_ev_error_##S(); }                                                          \
        scan_expected<void> get_error() const                                                                      \
        {                                                                                                          \
            if (vp_ev_failed_##S()) return unexpected(scan_error{scan_error::invalid_format_string, ""});          \
            return {};                                                                                             \
        }                                                                                                          \
        void check_args_exhausted() { vp_ev_done_##S(); }                                                          \
    };                                                                                                             \
    VP int vp_walk_##S(const CH* f, size_t n)                                                                      \
    {                                                                                                              \
        vp_walker_##S h;                                                                                           \
        auto r = detail::parse_format_string<false>(std::basic_string_view<CH>{f, n}, h);                          \
        return r ? 0 : vp_code(r.error());                                                                         \
    }                                                                                                              \
    VP vp_res<CH> vp_simple_int_##S(const CH* b, size_t n)                                                         \
    {                                                                                                              \
        const CH* p = b;                                                                                           \
        int v = detail::parse_simple_int(p, b + n);                                                                \
        return {p, v};                                                                                             \
    }
VP_WALK(c, char)
VP_WALK(w, wchar_t)
