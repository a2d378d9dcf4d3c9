// Entry points for the buffers behind sources that are not contiguous.
// vp-flags: -fno-access-control -Wno-invalid-offsetof
// vp-noinline: ~^_ZNKSt7__cxx1112basic_stringI.*E6substrE
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
#include <cstddef>
template <typename CH>
using buf = detail::basic_scan_buffer<CH>;
static_assert(offsetof(buf<char>, m_current_view) == 8 && offsetof(buf<char>, m_putback_buffer) == 24 && offsetof(buf<char>, m_is_contiguous) == 56 && sizeof(buf<char>) == 64);
static_assert(offsetof(buf<wchar_t>, m_current_view) == 8 && offsetof(buf<wchar_t>, m_putback_buffer) == 24 && offsetof(buf<wchar_t>, m_is_contiguous) == 56);

template <typename CH>
struct vp_seg {
    const CH* p;
    size_t n;
};
// a range that only promises forward iteration
template <typename CH>
struct vp_fwd {
    struct iterator {
        using value_type = CH;
        using reference = const CH&;
        using pointer = const CH*;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        const CH* p{};
        const CH& operator*() const { return *p; }
        iterator& operator++() { ++p; return *this; }
        iterator operator++(int) { auto c = *this; ++p; return c; }
        friend bool operator==(const iterator& a, const iterator& b) { return a.p == b.p; }
        friend bool operator!=(const iterator& a, const iterator& b) { return a.p != b.p; }
    };
    const CH *b, *e;
    iterator begin() const { return {b}; }
    iterator end() const { return {e}; }
};
// the operations of a stdio file, as events
extern "C" {
bool vp_ev_buffered();
size_t vp_ev_buffer_size();
const char* vp_ev_buffer_data();
void vp_ev_advance(std::ptrdiff_t);
void vp_ev_refill();
int vp_ev_read_one();
void vp_ev_prepare();
void vp_ev_finalize();
bool vp_ev_putback(char);
}
struct vp_file {
    void lock() {}
    void unlock() {}
    bool has_buffering() const { return vp_ev_buffered(); }
    std::string_view buffer() const { return {vp_ev_buffer_data(), vp_ev_buffer_size()}; }
    void unsafe_advance_n(std::ptrdiff_t n) { vp_ev_advance(n); }
    void fill_buffer() { vp_ev_refill(); }
    std::optional<char> read_one()
    {
        auto c = vp_ev_read_one();
        if (c < 0) return std::nullopt;
        return static_cast<char>(c);
    }
    void prepare_putback() { vp_ev_prepare(); }
    void finalize_putback() { vp_ev_finalize(); }
    bool putback(char c) { return vp_ev_putback(c); }
};
using vp_filebuf = detail::basic_scan_file_buffer<vp_file>;
static_assert(sizeof(vp_filebuf) == 64 && offsetof(vp_filebuf, m_file) == 57 && offsetof(vp_filebuf, m_latest) == 58);

#define VP_BUF(S, CH)                                                                                                                       \
    static_assert(offsetof(detail::basic_scan_ref_buffer<CH>, m_other) == 64 && offsetof(detail::basic_scan_ref_buffer<CH>, m_starting_pos) == 72 && \
                  offsetof(detail::basic_scan_ref_buffer<CH>, m_fill_needs_to_propagate) == 80);                                            \
    static_assert(offsetof(detail::basic_scan_forward_buffer_impl<vp_fwd<CH>>, m_range) == 64 &&                                            \
                  offsetof(detail::basic_scan_forward_buffer_impl<vp_fwd<CH>>, m_cursor) == 72 &&                                           \
                  offsetof(detail::basic_scan_forward_buffer_impl<vp_fwd<CH>>, m_latest) == 80);                                            \
    VP CH vp_char_##S(const buf<CH>* b, std::ptrdiff_t pos) { return b->get_character_at(pos); }                                            \
    VP vp_seg<CH> vp_segment_##S(const buf<CH>* b, std::ptrdiff_t pos)                                                                      \
    {                                                                                                                                       \
        auto v = b->get_segment_starting_at(pos);                                                                                           \
        return {v.data(), v.size()};                                                                                                        \
    }                                                                                                                                       \
    VP bool vp_end_##S(buf<CH>* b, std::ptrdiff_t pos) { return typename buf<CH>::forward_iterator{b, pos} == ranges::default_sentinel; }   \
    VP CH vp_deref_##S(buf<CH>* b, std::ptrdiff_t pos) { return *typename buf<CH>::forward_iterator{b, pos}; }                              \
    VP std::ptrdiff_t vp_next_##S(buf<CH>* b, std::ptrdiff_t pos)                                                                           \
    {                                                                                                                                       \
        typename buf<CH>::forward_iterator it{b, pos};                                                                                      \
        return (++it).position();                                                                                                           \
    }                                                                                                                                       \
    VP vp_seg<CH> vp_itseg_##S(buf<CH>* b, std::ptrdiff_t pos)                                                                              \
    {                                                                                                                                       \
        auto v = typename buf<CH>::forward_iterator{b, pos}.contiguous_segment();                                                           \
        return {v.data(), v.size()};                                                                                                        \
    }                                                                                                                                       \
    VP bool vp_fwd_fill_##S(detail::basic_scan_forward_buffer_impl<vp_fwd<CH>>* b)                                                          \
    {                                                                                                                                       \
        return b->detail::basic_scan_forward_buffer_impl<vp_fwd<CH>>::fill();                                                               \
    }                                                                                                                                       \
    VP void vp_ref_init_##S(void* m, buf<CH>* o, std::ptrdiff_t pos) { ::new (m) detail::basic_scan_ref_buffer<CH>(*o, pos); }              \
    VP bool vp_ref_fill_##S(detail::basic_scan_ref_buffer<CH>* b) { return b->detail::basic_scan_ref_buffer<CH>::fill(); }
VP_BUF(c, char)
VP_BUF(w, wchar_t)
VP bool vp_file_fill(vp_filebuf* b) { return b->vp_filebuf::fill(); }
VP bool vp_file_sync(vp_filebuf* b, std::ptrdiff_t pos) { return b->vp_filebuf::sync(pos); }

// the operations of the C library's files
using vp_gnu = detail::stdio_file_interface_impl<std::FILE, detail::gnu_file_tag>;
static_assert(offsetof(std::FILE, _IO_read_ptr) == 8 && offsetof(std::FILE, _IO_read_end) == 16);
static_assert(std::is_same_v<detail::stdio_file_interface, vp_gnu>);
VP vp_seg<char> vp_gnu_buffer(std::FILE* f)
{
    auto v = vp_gnu{f}.buffer();
    return {v.data(), v.size()};
}
VP void vp_gnu_advance(std::FILE* f, std::ptrdiff_t n) { vp_gnu{f}.unsafe_advance_n(n); }
VP void vp_gnu_fill(std::FILE* f) { vp_gnu{f}.fill_buffer(); }
VP bool vp_gnu_putback(std::FILE* f, char c) { return vp_gnu{f}.putback(c); }
VP int vp_std_read_one(std::FILE* f)
{
    auto c = detail::stdio_file_interface_impl<std::FILE, detail::default_file_tag>{f}.read_one();
    return c ? static_cast<unsigned char>(*c) : -1;
}
VP bool vp_std_putback(std::FILE* f, char c) { return detail::stdio_file_interface_impl<std::FILE, detail::default_file_tag>{f}.putback(c); }

// what a scan leaves: the position handed to the source, and the remaining range
VP int vp_after(buf<char>* b, bool ok, std::ptrdiff_t n, bool eof, std::ptrdiff_t* out)
{
    scan_expected<std::ptrdiff_t> r{n};
    if (!ok) r = unexpected(scan_error{eof ? scan_error::end_of_input : scan_error::invalid_scanned_value, nullptr});
    auto x = detail::sync_after_vscan(*b, r);
    if (x) { *out = *x; return 0; }
    return vp_code(x.error());
}
VP vp_seg<char> vp_rest_view(const char* s, size_t n, std::ptrdiff_t k)
{
    auto r = detail::make_vscan_result_range(std::string_view{s, n}, k);
    return {ranges::data(r), static_cast<size_t>(ranges::size(r))};
}
VP vp_seg<char> vp_rest_fwd(const vp_fwd<char>* s, std::ptrdiff_t k)
{
    auto r = detail::make_vscan_result_range(*s, k);
    return {r.begin().p, static_cast<size_t>(r.end().p - r.begin().p)};
}
VP vp_seg<char> vp_rest_array(const char* s, std::ptrdiff_t k)
{
    auto r = detail::make_vscan_result_range(*reinterpret_cast<const char(*)[9]>(s), k);
    return {ranges::begin(r), static_cast<size_t>(ranges::end(r) - ranges::begin(r))};
}
