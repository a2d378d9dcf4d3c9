// Independent oracle for integer fields: syntax by hand, value in 128-bit saturating arithmetic.
#pragma once
#include "api.hpp"
namespace vp {
struct IntParse {
    bool ok = false;        // some value was read (it may be out of range)
    bool neg = false, out_of_range = false;
    unsigned __int128 mag = 0;
    size_t used = 0;
};
inline int dig(unsigned c)
{
    if (c >= '0' && c <= '9') return (int)c - '0';
    if (c >= 'a' && c <= 'z') return (int)c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return (int)c - 'A' + 10;
    return 99;
}
// base 0: detected from the prefix.  minus_ok: a minus sign may precede the digits.
template <typename S>
IntParse int_oracle(const S& s, int base, bool minus_ok)
{
    IntParse r;
    size_t i = 0;
    auto low = [&](size_t k) { unsigned c = (unsigned)s[k]; return c >= 'A' && c <= 'Z' ? c + 32 : c; };
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) r.neg = s[i++] == '-';
    if (r.neg && !minus_ok) return r;
    auto prefix = [&](char c, int b) { return i + 2 < s.size() && s[i] == '0' && low(i + 1) == (unsigned)c && dig((unsigned)s[i + 2]) < b; };
    auto looks = [&](char c) { return i + 1 < s.size() && s[i] == '0' && low(i + 1) == (unsigned)c; };
    int b = base;
    if (base == 0) {
        if (looks('x')) b = 16;
        else if (looks('b')) b = 2;
        else if (i < s.size() && s[i] == '0') b = 8;
        else b = 10;
    }
    if (b == 16 && prefix('x', 16)) i += 2;
    else if (b == 2 && prefix('b', 2)) i += 2;
    else if (b == 8 && prefix('o', 8)) i += 2;
    size_t d = i;
    const unsigned __int128 cap = (unsigned __int128)1 << 100;
    while (i < s.size() && dig((unsigned)s[i]) < b) {
        r.mag = r.mag * (unsigned)b + (unsigned)dig((unsigned)s[i]);
        if (r.mag > cap) r.mag = cap;
        ++i;
    }
    r.ok = i > d;
    r.used = i;
    return r;
}
template <typename T>
bool fits(const IntParse& p, T& v)
{
    using L = std::numeric_limits<T>;
    unsigned __int128 lim = (unsigned __int128)L::max();
    if (p.neg) lim += 1;
    if (p.neg && !L::is_signed) return p.mag == 0 && (v = 0, true);
    if (p.mag > lim) return false;
    v = p.neg ? (T)(-(__int128)p.mag) : (T)p.mag;
    return true;
}
// compare one scan with the oracle
template <typename T, typename S>
void int_judge(const char* how, const S& in, const std::string& fmt, int base, bool minus_ok, const Res<T>& g)
{
    auto p = int_oracle(in, base, minus_ok);
    auto id = [&] { return std::string(how) + " " + fmt + " " + show(in); };
    if (!p.ok) {
        if (g.ok) fail("int-accepts", id() + ": no integer there, but the scan succeeded");
        else if (g.code != (int)scn::scan_error::invalid_scanned_value && g.code != (int)scn::scan_error::end_of_input)
            fail("int-error", id() + ": not an integer, but the error is " + code_name(g.code));
        return;
    }
    T v{};
    if (!fits(p, v)) {
        int want = p.neg ? (int)scn::scan_error::value_negative_overflow : (int)scn::scan_error::value_positive_overflow;
        if (g.ok) fail("int-overflow", id() + ": out of range, but the scan produced " + std::to_string((long long)g.v));
        else if (g.code != want) fail("int-overflow-code", id() + ": out of range, error is " + code_name(g.code));
        return;
    }
    if (!g.ok) fail("int-rejects", id() + ": rejected with " + code_name(g.code));
    else if (g.v != v) fail("int-value", id() + ": value " + std::to_string((long long)g.v) + ", expected " + std::to_string((long long)v));
    else if (g.used != p.used) fail("int-consumed", id() + ": consumed " + std::to_string(g.used) + ", expected " + std::to_string(p.used));
}
}  // namespace vp
