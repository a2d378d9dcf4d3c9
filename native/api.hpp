// Thin wrappers over the public scanning interface, for the bounded stand-ins.
#pragma once
#include "vp.hpp"
#include <scn/scan.h>
#include <scn/xchar.h>
#include <deque>
#include <list>
#include <climits>
namespace vp {
template <typename T>
struct Res {
    bool ok = false;
    T v{};
    size_t used = 0;  // code units consumed
    int code = 0;     // scan_error::code as int when !ok
};
inline const char* code_name(int c)
{
    switch (c) {
        case (int)scn::scan_error::end_of_input: return "end_of_input";
        case (int)scn::scan_error::invalid_format_string: return "invalid_format_string";
        case (int)scn::scan_error::invalid_scanned_value: return "invalid_scanned_value";
        case (int)scn::scan_error::invalid_literal: return "invalid_literal";
        case (int)scn::scan_error::invalid_fill: return "invalid_fill";
        case (int)scn::scan_error::length_too_short: return "length_too_short";
        case (int)scn::scan_error::invalid_source_state: return "invalid_source_state";
        case (int)scn::scan_error::value_positive_overflow: return "value_positive_overflow";
        case (int)scn::scan_error::value_negative_overflow: return "value_negative_overflow";
        case (int)scn::scan_error::value_positive_underflow: return "value_positive_underflow";
        case (int)scn::scan_error::value_negative_underflow: return "value_negative_underflow";
        default: return "?";
    }
}
template <typename T, typename R, typename Src>
Res<T> unpack(R&& r, const Src& s)
{
    Res<T> o;
    if (!r) {
        o.code = (int)r.error().code();
        return o;
    }
    o.ok = true;
    o.v = std::move(r->value());
    o.used = (size_t)std::distance(s.begin(), std::begin(r->range()));
    return o;
}
template <typename T>
Res<T> narrow(std::string_view in, std::string_view f)
{
    // heap copy without terminator: reads past the end are seen by ASan
    std::vector<char> b(in.begin(), in.end());
    std::string_view s{b.data(), b.size()};
    auto r = scn::scan<T>(s, scn::runtime_format(f));
    Res<T> o;
    if (!r) {
        o.code = (int)r.error().code();
        return o;
    }
    o.ok = true;
    o.v = std::move(r->value());
    o.used = s.size() - (size_t)std::distance(r->range().begin(), r->range().end());
    return o;
}
template <typename T>
Res<T> wide(std::wstring_view in, std::wstring_view f)
{
    std::vector<wchar_t> b(in.begin(), in.end());
    std::wstring_view s{b.data(), b.size()};
    auto r = scn::scan<T>(s, scn::runtime_format(f));
    Res<T> o;
    if (!r) {
        o.code = (int)r.error().code();
        return o;
    }
    o.ok = true;
    o.v = std::move(r->value());
    o.used = s.size() - (size_t)std::distance(r->range().begin(), r->range().end());
    return o;
}
template <typename T>
Res<T> deq(std::string_view in, std::string_view f)
{
    std::deque<char> s(in.begin(), in.end());
    auto r = scn::scan<T>(s, scn::runtime_format(f));
    Res<T> o;
    if (!r) {
        o.code = (int)r.error().code();
        return o;
    }
    o.ok = true;
    o.v = std::move(r->value());
    o.used = s.size() - (size_t)std::distance(r->range().begin(), r->range().end());
    return o;
}
inline std::wstring widen(std::string_view s)  // ASCII only
{
    return std::wstring(s.begin(), s.end());
}
}  // namespace vp
