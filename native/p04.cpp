// P04: a scanned string is accepted exactly when its text is well-formed, and conversion between UTF-8 and UTF-32 preserves code points
#include "api.hpp"
#include "utf.hpp"
using namespace vp;
// structure of the sequence at i as far as the library promises it: lead byte, enough continuation bytes, at most U+10FFFF.
// Overlong forms and surrogates are not judged (the library treats them as sequences of their announced length).
enum { GOOD, BAD, UNJUDGED };
static int judge_at(std::string_view s, size_t i, size_t& len, uint32_t& v)
{
    auto c = decode(s, i);
    len = c.len, v = c.v;
    if (c.ok) return GOOD;
    if (c.len == 1) return BAD;
    return c.v > 0x10ffff ? BAD : UNJUDGED;
}
static void one(const std::string& in)
{
    at("string", in);
    std::wstring w;
    bool bad = false, un = false;
    for (size_t i = 0, l = 0; i < in.size(); i += l) {
        uint32_t v = 0;
        int j = judge_at(in, i, l, v);
        bad |= j == BAD;
        un |= j == UNJUDGED;
        if (bad) break;
        if (white(v)) return;
        w += (wchar_t)v;
    }
    // find the word: these inputs hold no whitespace
    if (in.empty()) return;
    auto id = show(std::string_view(in));
    auto a = narrow<std::string>(in, "{}");
    auto d = deq<std::string>(in, "{}");
    auto x = narrow<std::wstring>(in, "{}");
    std::vector<char> buf(in.begin(), in.end());
    auto sv = scn::scan<std::string_view>(std::string_view(buf.data(), buf.size()), "{}");
    if (bad) {
        if (a.ok || d.ok || x.ok || sv) fail("ill-formed-accepted", id + ": accepted although it is not well-formed UTF-8");
        else
            for (int c : {a.code, d.code, x.code, (int)sv.error().code()})
                if (c != (int)scn::scan_error::invalid_scanned_value) fail("ill-formed-error", id + ": error is " + code_name(c));
    }
    else if (!un) {
        if (!a.ok || a.v != in || a.used != in.size()) fail("well-formed-rejected", id + (a.ok ? ": got " + show(std::string_view(a.v)) : ": rejected"));
        if (!d.ok || d.v != in || d.used != in.size()) fail("well-formed-rejected", "deque " + id + (d.ok ? ": got " + show(std::string_view(d.v)) : ": rejected"));
        if (!sv || sv->value() != in) fail("well-formed-rejected", "view " + id);
        if (!x.ok || x.v != w || x.used != in.size()) fail("to-wide", id + (x.ok ? ": got " + show(std::wstring_view(x.v)) : ": rejected"));
        auto y = wide<std::string>(w, L"{}");
        if (!y.ok || y.v != in || y.used != w.size()) fail("to-narrow", show(std::wstring_view(w)) + (y.ok ? ": got " + show(std::string_view(y.v)) : ": rejected"));
        auto z = wide<std::wstring>(w, L"{}");
        if (!z.ok || z.v != w || z.used != w.size()) fail("wide", show(std::wstring_view(w)) + (z.ok ? ": got " + show(std::wstring_view(z.v)) : ": rejected"));
        size_t l;
        uint32_t v;
        judge_at(in, 0, l, v);
        auto c = narrow<char32_t>(in, "{}");
        if (!c.ok || (uint32_t)c.v != v || c.used != l) fail("code-point", id + (c.ok ? ": got U+" + std::to_string((uint32_t)c.v) : ": rejected"));
        auto e = deq<char32_t>(in, "{}");
        if (!e.ok || (uint32_t)e.v != v || e.used != l) fail("code-point", "deque " + id + (e.ok ? ": got U+" + std::to_string((uint32_t)e.v) : ": rejected"));
    }
}
static void wone(const std::wstring& w)
{
    std::string u;
    bool bad = false;
    for (auto c : w) {
        bad |= (uint32_t)c > 0x10ffff;
        if ((uint32_t)c >= 0xd800 && (uint32_t)c < 0xe000) return;
        u += encode((uint32_t)c);
    }
    at("wide string", to_narrow(w));
    auto y = wide<std::string>(w, L"{}");
    auto z = wide<std::wstring>(w, L"{}");
    auto id = show(std::wstring_view(w));
    if (bad) {
        if (y.ok || z.ok) fail("wide-out-of-range", id + ": accepted");
        else if (y.code != (int)scn::scan_error::invalid_scanned_value || z.code != y.code) fail("wide-out-of-range", id + ": error is " + code_name(y.code));
    }
    else {
        if (!y.ok || y.v != u || y.used != w.size()) fail("to-narrow", id + (y.ok ? ": got " + show(std::string_view(y.v)) : ": rejected"));
        if (!z.ok || z.v != w || z.used != w.size()) fail("wide", id + (z.ok ? ": got " + show(std::wstring_view(z.v)) : ": rejected"));
    }
}
void vp_run()
{
    // sequences cut, spliced and out of range, over every lead/continuation class
    std::vector<std::string> al = {"a", "\x7f", "\x80", "\xbf", "\xc3", "\xdf", "\xe2", "\xef", "\xf0", "\xf3", "\xf4", "\x8f", "\x90", "\xf8", "\xff", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
    words(al, thorough ? 5 : 4, one);
    for (uint32_t c = 33; c < 0x110000; ++c) {
        if (c % shards != shard || white(c) || (c >= 0xd800 && c < 0xe000)) continue;
        ++cases;
        one(encode(c));
        one("abcdefgh" + encode(c) + "i");
        wone({L'a', (wchar_t)c, L'b'});
        if (!thorough && c > 0x2100) c += 40 * shards;
    }
    // every pair of bytes
    if (true)
        for (unsigned p = 0x21; p < 256; ++p)
            for (unsigned q = 0x21; q < 256; ++q) {
                if ((p + q) % shards != shard) continue;
                if (p == 0xc2 && q == 0x85) continue;
                ++cases;
                one({(char)p, (char)q});
                one({(char)p, (char)q, 'x', 'y'});
            }
    for (uint32_t c : {0x110000u, 0x110001u, 0x1fffffu, 0x200000u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x10ffffu, 0xffffu, 0x10000u})
        for (int pos = 0; pos < 5; ++pos) {
            if (shard) break;
            std::wstring w = L"abcd";
            w.insert((size_t)pos, 1, (wchar_t)c);
            ++cases;
            wone(w);
        }
    Rng r(seed * 77 + shard);
    for (int k = 0; k < (thorough ? 200000 : 20000); ++k) {
        std::string s;
        size_t n = 1 + r.below(40);
        while (s.size() < n) {
            uint32_t c = 0;
            switch (r.below(4)) {
                case 0: c = 0x21 + (uint32_t)r.below(0x5e); break;
                case 1: c = 0xa1 + (uint32_t)r.below(0x700); break;
                case 2: c = 0x2100 + (uint32_t)r.below(0xb000); break;
                default: c = 0x10000 + (uint32_t)r.below(0x100000); break;
            }
            s += encode(c);
        }
        if (r.below(3) == 0) s[r.below(s.size())] = (char)(0x80 + r.below(0x80));
        bool ws = false;
        for (size_t i = 0; i < s.size();) {
            auto c = decode(s, i);
            ws |= white(c.v);
            i += c.len;
        }
        if (ws) continue;
        ++cases;
        one(s);
    }
    sample("scan<std::wstring>(\"\\u20ac\\U0001f600\") == L\"\\u20ac\\U0001f600\"; scan<std::string>(\"\\xe2\\x82\") -> invalid_scanned_value");
}
void vp_replay(const std::string& fn, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg != "s") return;
    if (fn.find("32to8") != std::string::npos || fn.find("w") != std::string::npos) {
        std::wstring w(d.begin(), d.end());
        for (auto c : w)
            if (white((uint32_t)c)) return;
        if (!w.empty()) wone(w);
        return;
    }
    std::string s(d.begin(), d.end());
    for (auto c : s)
        if (white((unsigned char)c)) return;
    one(s);
    one("a" + s);
}
