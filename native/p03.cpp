// P03: whitespace is skipped before a field and ends a word, exactly by Pattern_White_Space
#include "api.hpp"
#include "utf.hpp"
using namespace vp;
static void judge(const char* how, const std::string& in, bool ok, const std::string& v, size_t used, size_t want_used, bool want_ok, const std::string& want, int code)
{
    auto id = std::string(how) + " " + show(std::string_view(in));
    if (ok != want_ok) {
        fail("word-result", id + (ok ? ": produced " + show(std::string_view(v)) + " although there is no word" : ": rejected with " + std::string(code_name(code))));
        return;
    }
    if (!ok) {
        if (code != (int)scn::scan_error::end_of_input) fail("word-error", id + ": error is " + code_name(code));
        return;
    }
    if (v != want) fail("word-value", id + ": got " + show(std::string_view(v)) + ", expected " + show(std::string_view(want)));
    else if (used != want_used) fail("word-consumed", id + ": consumed " + std::to_string(used) + ", expected " + std::to_string(want_used));
}
static void one(const std::string& in)
{
    at("word", in);
    size_t b = skip_white(in, 0, true), e = skip_white(in, b, false);
    bool has = b < in.size();
    auto want = in.substr(b, e - b);
    {
        auto g = narrow<std::string>(in, "{}");
        judge("narrow {}", in, g.ok, g.v, g.used, e, has, want, g.code);
    }
    {
        std::vector<char> buf(in.begin(), in.end());
        std::string_view s{buf.data(), buf.size()};
        auto r = scn::scan<std::string_view>(s, "{}");
        std::string v = r ? std::string(r->value()) : "";
        judge("view {}", in, (bool)r, v, r ? in.size() - (size_t)(r->range().end() - r->range().begin()) : 0, e, has, want, r ? 0 : (int)r.error().code());
    }
    {
        auto g = deq<std::string>(in, "{}");
        judge("deque {}", in, g.ok, g.v, g.used, e, has, want, g.code);
    }
    {
        auto w = to_wide(in);
        auto g = wide<std::wstring>(w, L"{}");
        auto pre = to_wide(std::string_view(in).substr(0, e)).size();
        judge("wide {}", in, g.ok, to_narrow(g.v), g.used, pre, has, want, g.code);
    }
    {
        // a second field starts after the whitespace that follows the first
        std::vector<char> buf(in.begin(), in.end());
        std::string_view s{buf.data(), buf.size()};
        auto r = scn::scan<std::string, std::string>(s, "{}{}");
        size_t b2 = skip_white(in, e, true), e2 = skip_white(in, b2, false);
        bool has2 = has && b2 < in.size();
        if ((bool)r != has2) fail("two-words", show(std::string_view(in)) + (r ? ": accepted" : ": rejected"));
        else if (r) {
            auto& [x, y] = r->values();
            if (x != want || y != in.substr(b2, e2 - b2)) fail("two-words", show(std::string_view(in)) + ": got " + show(std::string_view(x)) + ", " + show(std::string_view(y)));
        }
    }
    {
        // the same skipping in front of an integer and in front of literal text
        auto num = in.substr(0, b) + "42";
        auto g = narrow<int>(num, "{}");
        if (!g.ok || g.v != 42 || g.used != num.size()) fail("skip-int", show(std::string_view(num)) + ": " + (g.ok ? std::to_string(g.v) : code_name(g.code)));
        auto d = deq<int>(num, "{}");
        if (!d.ok || d.v != 42 || d.used != num.size()) fail("skip-int", "deque " + show(std::string_view(num)) + ": " + (d.ok ? std::to_string(d.v) : code_name(d.code)));
    }
}
void vp_run()
{
    std::vector<std::string> al = {" ", "\t", "\n", "\xc2\x85", "\xe2\x80\x8e", "\xe2\x80\xa8", "\xc2\xa0", "\xe2\x80\x8d", "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
    words(al, thorough ? 5 : 4, one);
    // eight-bytes-at-a-time paths: one special symbol at every place of a long run, for both kinds of run
    for (size_t len = 0; len <= 40; ++len)
        for (size_t pos = 0; pos <= len; ++pos) {
            if ((len + pos) % shards != shard) continue;
            for (auto& sym : al)
                for (char fill : {'a', ' ', '\x0d', '~'}) {
                    std::string s(len, fill);
                    s.insert(pos, sym);
                    ++cases;
                    one(s);
                }
        }
    // every code point of the BMP and some beyond as the separator
    for (uint32_t c = 1; c < (thorough ? 0x110000u : 0x11000u); ++c) {
        if (c % shards != shard || (c >= 0xd800 && c < 0xe000)) continue;
        ++cases;
        one("xy" + encode(c) + "z");
        if (!thorough && c > 0x3100) c += 6 * shards;
    }
    sample("scan<std::string>(\"\\u2028ab\\u0085c\") -> \"ab\"");
}
void vp_replay(const std::string& fn, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg == "s") {
        std::string s(d.begin(), d.end());
        if (valid(s)) {
            one(s);
            one("a" + s);
            one(" " + s);
        }
    }
    else if (arg == "cp" && d.size() == 1 && d[0] < 0x110000 && (d[0] < 0xd800 || d[0] >= 0xe000))
        one("xy" + encode((uint32_t)d[0]) + "z");
    else if (arg == "c" && d.size() == 1 && d[0] < 128)
        one("xy" + encode((uint32_t)d[0]) + "z");
}
