// Entry points for literal text of a format string against a contiguous source.
// vp-noinline: read_while_classic_space
// vp-inline-strings
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
#define VP_LIT(S, CH)                                                                                              \
    VP vp_res<CH> vp_literal_##S(const CH* s, size_t n, const CH* f, size_t m)                                     \
    {                                                                                                              \
        format_handler<true, CH> h{ranges::subrange<const CH*>{s, s + n}, std::basic_string_view<CH>{f, m}, {}, {}, 0}; \
        h.on_literal_text(f, f + m);                                                                               \
        auto e = h.get_error();                                                                                    \
        return {detail::to_address(h.get_ctx().begin()), e ? 0 : vp_code(e.error())};                              \
    }
VP_LIT(c, char)
VP_LIT(w, wchar_t)
