// P08: character and code point fields
#include "api.hpp"
#include "utf.hpp"
using namespace vp;
using E = scn::scan_error;
template <typename T>
static void cmp(const std::string& id, const Res<T>& r, int code, uint32_t v, size_t used)
{
    if (r.ok != (code == -1)) fail(r.ok ? "char-accepted" : "char-rejected", id + (r.ok ? ": accepted " + std::to_string((uint32_t)r.v) + ", expected " + code_name(code) : ": rejected with " + std::string(code_name(r.code))));
    else if (!r.ok && r.code != code) fail("char-error", id + ": error " + code_name(r.code) + ", expected " + code_name(code));
    else if (r.ok && (uint32_t)r.v != v) fail("char-value", id + ": got " + std::to_string((uint32_t)r.v) + ", expected " + std::to_string(v));
    else if (r.ok && r.used != used) fail("char-consumed", id + ": consumed " + std::to_string(r.used) + ", expected " + std::to_string(used));
}
// pre is literal text in front of the field, so that segments of a source start in different places
static void one(const std::string& src, const std::string& pre = "")
{
    for (const char* fld : {"{}", "{:c}"}) {
        auto f = pre + fld;
        auto s = pre + src;
        auto id = show(std::string_view(f)) + " on " + show(std::string_view(s));
        at(id);
        ++cases;
        if (src.empty()) {
            if (!pre.empty()) continue;
            cmp("char " + id, narrow<char>(s, f), E::end_of_input, 0, 0);
            cmp("char deque " + id, deq<char>(s, f), E::end_of_input, 0, 0);
            cmp("code point " + id, narrow<char32_t>(s, f), E::end_of_input, 0, 0);
            cmp("code point deque " + id, deq<char32_t>(s, f), E::end_of_input, 0, 0);
            cmp("wchar " + id, narrow<wchar_t>(s, f), E::end_of_input, 0, 0);
            cmp("wide wchar " + id, wide<wchar_t>(L"", widen(f)), E::end_of_input, 0, 0);
            cmp("wide code point " + id, wide<char32_t>(L"", widen(f)), E::end_of_input, 0, 0);
            continue;
        }
        size_t p = pre.size();
        cmp("char " + id, narrow<char>(s, f), -1, (uint32_t)src[0], p + 1);
        cmp("char deque " + id, deq<char>(s, f), -1, (uint32_t)src[0], p + 1);
        auto c = decode(src, 0);
        bool judged = c.ok || c.len == 1 || c.v > 0x10ffff;  // overlong forms and surrogates are not judged
        if (!judged) continue;
        int code = c.ok ? -1 : (int)E::invalid_scanned_value;
        cmp("code point " + id, narrow<char32_t>(s, f), code, c.v, p + c.len);
        cmp("code point deque " + id, deq<char32_t>(s, f), code, c.v, p + c.len);
        cmp("wchar " + id, narrow<wchar_t>(s, f), code, c.v, p + c.len);
        cmp("wchar deque " + id, deq<wchar_t>(s, f), code, c.v, p + c.len);
    }
}
void vp_run()
{
    if (shard == 0) one("");
    for (uint32_t c = 0; c < 0x110000; ++c) {
        if (c % shards != shard || (c >= 0xd800 && c < 0xe000)) continue;
        if (!thorough && c > 0x900 && c % 29 && (c & 0xff) > 1 && (c & 0xff) < 0xfe) continue;
        auto u = encode(c);
        if (c % 16 == 0) one(u, "a");
        one(u + (c % 3 == 0 ? "" : c % 3 == 1 ? "x" : "\x80"));
        std::wstring w(1, (wchar_t)c);
        at("wide code point " + std::to_string(c));
        cmp("wide wchar", wide<wchar_t>(w, L"{}"), -1, c, 1);
        w += L'z';
        cmp("wide code point", wide<char32_t>(w, L"{}"), -1, c, 1);
    }
    for (uint32_t c : {0x110000u, 0x110001u, 0x1fffffu, 0x7fffffffu, 0xffffffffu}) {
        std::wstring w(1, (wchar_t)c);
        at("wide code point " + std::to_string(c));
        ++cases;
        cmp("wide invalid code point " + std::to_string(c), wide<char32_t>(w, L"{}"), E::invalid_scanned_value, 0, 0);
    }
    // every lead byte with every class of following bytes, at the end of the source and not, in the buffer and after a literal
    std::vector<std::string> cl = {"\x7f", "\x80", "\x8f", "\x90", "\xbf", "\xc0", "\xc3", "\xe2", "\xf0", "\xff", "a"};
    std::vector<std::string> tails;
    {
        auto s = shard, n = shards;
        shard = 0, shards = 1;
        words(cl, 3, [&](const std::string& t) { tails.push_back(t); });
        shard = s, shards = n;
    }
    for (unsigned l = 0x80; l < 0x100; ++l)
        for (size_t i = 0; i < tails.size(); ++i) {
            if ((l * 7 + i) % shards != shard) continue;
            one(std::string(1, (char)l) + tails[i]);
            if (i % 5 == 0) one(std::string(1, (char)l) + tails[i], "ab");
        }
    sample("char32_t from \"\\xe2\\x82\\xacx\" -> U+20AC, rest \"x\"; from \"\\xe2\\x82\" -> invalid_scanned_value");
}
void vp_replay(const std::string&, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg != "s") return;
    std::string s;
    for (auto c : d) s += (char)c;
    one(s);
    one(s, "a");
}
