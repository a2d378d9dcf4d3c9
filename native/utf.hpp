// Independent UTF-8 helpers and character classes for the oracles (written from the standards, not from /repo).
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
namespace vp {
struct Cp { uint32_t v; size_t len; bool ok; };
// strict decoder: rejects overlong forms, surrogates and values above U+10FFFF
inline Cp decode(std::string_view s, size_t i)
{
    auto b = [&](size_t k) -> unsigned { return k < s.size() ? (unsigned char)s[k] : 0u; };
    unsigned c = b(i);
    if (c < 0x80) return {c, 1, true};
    size_t n = c >= 0xf0 && c < 0xf8 ? 4 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xc0 && c < 0xe0 ? 2 : 0;
    if (!n) return {0, 1, false};
    uint32_t v = c & (0xffu >> (n + 1));
    for (size_t k = 1; k < n; ++k) {
        if (i + k >= s.size() || (b(i + k) & 0xc0) != 0x80) return {0, 1, false};
        v = v << 6 | (b(i + k) & 0x3f);
    }
    static const uint32_t lo[] = {0, 0, 0x80, 0x800, 0x10000};
    if (v < lo[n] || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return {v, n, false};
    return {v, n, true};
}
inline std::string encode(uint32_t v)
{
    std::string o;
    if (v < 0x80) o += (char)v;
    else if (v < 0x800) { o += (char)(0xc0 | v >> 6); o += (char)(0x80 | (v & 63)); }
    else if (v < 0x10000) { o += (char)(0xe0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
    else { o += (char)(0xf0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
    return o;
}
inline bool valid(std::string_view s)
{
    for (size_t i = 0; i < s.size();) {
        auto c = decode(s, i);
        if (!c.ok) return false;
        i += c.len;
    }
    return true;
}
inline std::wstring to_wide(std::string_view s)
{
    std::wstring o;
    for (size_t i = 0; i < s.size();) {
        auto c = decode(s, i);
        o += (wchar_t)c.v;
        i += c.len;
    }
    return o;
}
inline std::string to_narrow(std::wstring_view s)
{
    std::string o;
    for (auto c : s) o += encode((uint32_t)c);
    return o;
}
// Pattern_White_Space
inline bool white(uint32_t c)
{
    return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0x200e || c == 0x200f || c == 0x2028 || c == 0x2029;
}
// first position at or after i whose code point is (not) whitespace; s valid
inline size_t skip_white(std::string_view s, size_t i, bool want_white)
{
    while (i < s.size()) {
        auto c = decode(s, i);
        if (white(c.v) != want_white) break;
        i += c.len;
    }
    return i;
}
inline unsigned width_of(uint32_t c)
{
    static const uint32_t w[][2] = {{0x1100, 0x115f}, {0x2329, 0x232a}, {0x2e80, 0x303e}, {0x3040, 0xa4cf}, {0xac00, 0xd7a3}, {0xf900, 0xfaff},
                                    {0xfe10, 0xfe19}, {0xfe30, 0xfe6f}, {0xff00, 0xff60}, {0xffe0, 0xffe6}, {0x1f300, 0x1f64f},
                                    {0x1f900, 0x1f9ff}, {0x20000, 0x2fffd}, {0x30000, 0x3fffd}};
    for (auto& r : w)
        if (c >= r[0] && c <= r[1]) return 2;
    return 1;
}
}  // namespace vp
