// Independent recogniser of the documented format string grammar (include/scn/scan.h, "Format strings").
#pragma once
#include "utf.hpp"
#include <array>
namespace vp {
enum Kind { K_int, K_float, K_bool, K_char, K_cp, K_str, K_ptr };
enum Verdict { V_ok, V_bad, V_open };  // V_open: the documentation does not settle it
struct FmtOracle {
    std::string_view f;
    size_t i = 0;
    bool open = false;
    size_t done = 0;  // fields and literals complete before the malformed part
    bool at(char c) const { return i < f.size() && f[i] == c; }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    bool number(unsigned long& v)
    {
        if (i >= f.size() || !dig(f[i])) return false;
        v = 0;
        while (i < f.size() && dig(f[i])) {
            if (v < 10000000000ul) v = v * 10 + (unsigned long)(f[i] - '0');
            ++i;
        }
        if (v > 2147483647ul) return false;
        return true;
    }
    static bool is_align(char c) { return c == '<' || c == '>' || c == '^'; }
    // format-spec up to (not including) '}'; false: malformed
    bool spec(Kind k)
    {
        if (i >= f.size()) return false;
        auto c = decode(f, i);
        if (!c.ok) { open = true; return false; }
        if (i + c.len < f.size() && is_align(f[i + c.len])) {
            if (c.v == '}' || c.v == '{') { if (c.v == '}') return true; return false; }
            if (c.v == '[') open = true;
            i += c.len + 1;
        }
        else if (is_align(f[i])) ++i;
        unsigned long w = 0, p = 0;
        if (i < f.size() && dig(f[i])) {
            if (f[i] == '0') open = true;
            if (!number(w)) return false;
        }
        if (at('.')) {
            ++i;
            if (!number(p)) return false;
            if (p && w > p) return false;
            if (!p && w) open = true;  // a maximum of zero: not settled
        }
        bool loc = false;
        if (at('L')) { loc = true; ++i; if (k != K_int && k != K_float && k != K_bool) open = true; }
        if (i >= f.size()) return false;
        if (f[i] == '}') return true;
        char t = f[i++];
        std::string_view ints = "bBdiuoxX";
        switch (k) {
            case K_int:
                if (t == 'c' || t == 'O' || t == 'r' || t == 'R') open = true;
                if (loc && (t == 'b' || t == 'B')) return false;
                return ints.find(t) != ints.npos;
            case K_char:
                if (t == 'O') open = true;
                return t == 'c' || ints.find(t) != ints.npos;
            case K_cp: return t == 'c';
            case K_float: return std::string_view("aAeEfFgG").find(t) != std::string_view::npos;
            case K_bool:
                if (t == 'O') open = true;
                return t == 's' || ints.find(t) != ints.npos;
            case K_ptr: return t == 'p';
            case K_str:
                if (t == 's') return true;
                if (t == 'c') { if (!p) return false; return true; }
                if (t == '[') {
                    size_t n = 0;
                    if (at('^')) { ++i; if (at(']')) ++i, ++n; }
                    while (i < f.size() && f[i] != ']') {
                        auto a = decode(f, i);
                        if (!a.ok) { if (a.len > 1 && a.v <= 0x10ffff) open = true; return false; }
                        i += a.len;
                        if (at('-') && i + 1 < f.size() && f[i + 1] != ']') {
                            ++i;
                            auto b = decode(f, i);
                            if (!b.ok) { if (b.len > 1 && b.v <= 0x10ffff) open = true; return false; }
                            if (b.v < a.v) return false;
                            i += b.len;
                        }
                        ++n;
                    }
                    if (i >= f.size() || !n) return false;
                    ++i;
                    return true;
                }
                if (t == '/') { open = true; return false; }
                return false;
        }
        return false;
    }
    Verdict run(std::string_view fmt, const std::vector<Kind>& kinds)
    {
        f = fmt;
        i = 0;
        open = false;
        done = 0;
        std::vector<bool> seen(kinds.size());
        size_t next = 0;
        int mode = 0;
        bool bad = false;
        while (i < f.size() && !bad) {
            char c = f[i];
            if (c == '}') {
                if (i + 1 < f.size() && f[i + 1] == '}') i += 2, ++done;
                else bad = true;
                continue;
            }
            if (c != '{') {
                auto d = decode(f, i);
                if (!d.ok) return V_open;
                i += d.len;
                ++done;
                continue;
            }
            ++i;
            if (at('{')) { ++i; ++done; continue; }
            size_t id = 0;
            if (i < f.size() && dig(f[i])) {
                if (f[i] == '0' && i + 1 < f.size() && dig(f[i + 1])) open = true;
                unsigned long v;
                bool ok = number(v);
                if (!ok) { bad = true; break; }
                id = v;
                if (mode == 1) { bad = true; break; }
                mode = 2;
            }
            else {
                if (mode == 2) { bad = true; break; }
                mode = 1;
                id = next++;
            }
            if (id >= kinds.size() || seen[id]) { bad = true; break; }
            seen[id] = true;
            if (at(':')) {
                ++i;
                if (!spec(kinds[id])) { bad = true; break; }
            }
            if (!at('}')) { bad = true; break; }
            ++i;
            ++done;
        }
        if (open) return V_open;
        if (bad) return V_bad;
        for (auto s : seen) if (!s) return V_bad;
        return V_ok;
    }
};
}  // namespace vp
