// Entry points for the text-level functions; each calls the function of /repo named in it, nothing else.
#include VP_REPO_IMPL
using namespace scn;
#define VP extern "C" __attribute__((used, noinline))
struct vp_cp { const char* it; uint32_t cp; };
struct vp_wcp { const wchar_t* it; uint32_t cp; };

VP const char* vp_find_nonspace(const char* b, size_t n) { return &*impl::find_classic_nonspace_narrow_fast(std::string_view{b, n}); }
VP const char* vp_find_space(const char* b, size_t n) { return &*impl::find_classic_space_narrow_fast(std::string_view{b, n}); }
VP const char* vp_find_nondigit(const char* b, size_t n) { return &*impl::find_nondecimal_digit_narrow_fast(std::string_view{b, n}); }
VP vp_cp vp_next_cp(const char* b, size_t n) { auto r = impl::get_next_code_point(std::string_view{b, n}); return {&*r.iterator, (uint32_t)r.value}; }
VP vp_wcp vp_next_wcp(const wchar_t* b, size_t n) { auto r = impl::get_next_code_point(std::wstring_view{b, n}); return {&*r.iterator, (uint32_t)r.value}; }
VP bool vp_validate(const char* b, size_t n) { return impl::validate_unicode(std::string_view{b, n}); }
VP bool vp_wvalidate(const wchar_t* b, size_t n) { return impl::validate_unicode(std::wstring_view{b, n}); }
VP size_t vp_cp_width(uint32_t cp) { return impl::calculate_valid_text_width((char32_t)cp); }
VP size_t vp_cp_width_any(uint32_t cp) { return impl::calculate_text_width((char32_t)cp); }
VP bool vp_is_space(uint32_t cp) { return detail::is_cp_space((char32_t)cp); }
VP bool vp_is_ascii_space(char ch) { return impl::is_ascii_space(ch); }
VP bool vp_is_ascii_wspace(wchar_t ch) { return impl::is_ascii_space(ch); }
VP void vp_transcode_32to8(const wchar_t* b, size_t n, std::string* out) { impl::transcode_to_string(std::wstring_view{b, n}, *out); }
VP void vp_transcode_8to32(const char* b, size_t n, std::wstring* out) { impl::transcode_to_string(std::string_view{b, n}, *out); }
VP uint32_t vp_decode8(const char* b, size_t n) { return (uint32_t)detail::decode_utf8_code_point_exhaustive(std::string_view{b, n}); }
VP size_t vp_text_width(const char* b, size_t n) { return impl::calculate_text_width(std::string_view{b, n}); }
