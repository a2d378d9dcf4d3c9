// P06: literal text of the format string against the source
#include "api.hpp"
#include "utf.hpp"
using namespace vp;
using E = scn::scan_error;
struct Want {
    bool ok = false;
    int code = 0, v = 0;
    size_t used = 0;
};
// fmt: valid UTF-8 with exactly one "{}"
static Want oracle(std::string_view f, std::string_view s)
{
    Want o;
    size_t p = 0;
    for (size_t i = 0; i < f.size();) {
        if (f[i] == '{' && i + 1 < f.size() && f[i + 1] == '}') {
            p = skip_white(s, p, true);
            if (p == s.size()) return o.code = E::end_of_input, o;
            bool neg = s[p] == '-';
            if (s[p] == '-' || s[p] == '+') ++p;
            size_t d = p;
            o.v = 0;
            while (p < s.size() && s[p] >= '0' && s[p] <= '9') o.v = o.v * 10 + (s[p++] - '0');
            if (neg) o.v = -o.v;
            if (p == d) return o.code = E::invalid_scanned_value, o;
            i += 2;
            continue;
        }
        if (p == s.size()) return o.code = E::invalid_literal, o;
        auto c = decode(f, i);
        if (white(c.v)) {
            i = skip_white(f, i, true);
            p = skip_white(s, p, true);
            continue;
        }
        i += c.len;
        if (c.v == '{' || c.v == '}') ++i;
        auto g = decode(s, p);
        if (g.v != c.v) return o.code = E::invalid_literal, o;
        p += g.len;
    }
    o.ok = true;
    o.used = p;
    return o;
}
static void cmp(const std::string& id, const Want& w, bool ok, int v, size_t used, int code)
{
    if (ok != w.ok) fail(ok ? "literal-accepted" : "literal-rejected", id + (ok ? ": accepted, expected " + std::string(code_name(w.code)) : ": rejected with " + std::string(code_name(code))));
    else if (!ok) {
        if (code != w.code) fail("literal-error", id + ": error " + code_name(code) + ", expected " + code_name(w.code));
    }
    else if (v != w.v) fail("literal-value", id + ": got " + std::to_string(v));
    else if (used != w.used) fail("literal-consumed", id + ": consumed " + std::to_string(used) + ", expected " + std::to_string(w.used));
}
static void one(const std::string& f, const std::string& s)
{
    auto id = show(std::string_view(f)) + " on " + show(std::string_view(s));
    at(id);
    ++cases;
    auto w = oracle(f, s);
    auto a = narrow<int>(s, f);
    cmp("narrow " + id, w, a.ok, a.v, a.used, a.code);
    auto d = deq<int>(s, f);
    cmp("deque " + id, w, d.ok, d.v, d.used, d.code);
    auto x = wide<int>(to_wide(s), to_wide(f));
    w.used = to_wide(std::string_view(s).substr(0, w.used)).size();
    cmp("wide " + id, w, x.ok, x.v, x.used, x.code);
}
void vp_run()
{
    std::vector<std::string> fa = {"{}", "a", " ", "{{", "}}", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\n", ","};
    auto plain = [](const std::string& f, const char* field) {
        std::string o;
        for (size_t i = 0; i < f.size(); ++i) {
            if (f[i] == '{' && f[i + 1] == '}') o += field, ++i;
            else if ((f[i] == '{' && f[i + 1] == '{') || (f[i] == '}' && f[i + 1] == '}')) o += f[i++];
            else o += f[i];
        }
        return o;
    };
    std::vector<std::string> sub = {"a", " ", "\t", "{", "}", "\xc3\xa4", "\xc3\xa5", "\xe2\x82\xad", "\xf0\x9f\x98\x81", "\xc2\x85", "A", "7"};
    Rng r(seed * 31 + shard);
    words(fa, thorough ? 5 : 4, [&](const std::string& f) {
        size_t n = 0;
        for (size_t i = 0; i + 1 < f.size(); ++i) {
            if (f[i] == '{' && f[i + 1] == '}') ++n, ++i;
            else if (f[i] == '{' || f[i] == '}') ++i;
        }
        if (n != 1) return;
        auto m = plain(f, "42");
        one(f, m);
        one(f, m + "tail");
        one(f, plain(f, " \n-7"));
        // every prefix, and one symbol replaced, inserted or removed at every place
        for (size_t i = 0; i < m.size(); i += decode(m, i).len) {
            auto l = decode(m, i).len;
            one(f, m.substr(0, i));
            one(f, m.substr(0, i) + m.substr(i + l));
            auto& x = sub[r.below(sub.size())];
            one(f, m.substr(0, i) + x + m.substr(i + l));
            auto& y = sub[r.below(sub.size())];
            one(f, m.substr(0, i) + y + m.substr(i));
            if (l > 1) {
                // the same code point with its last byte changed
                auto z = m;
                z[i + l - 1] = (char)(0x80 | ((unsigned char)z[i + l - 1] + 1) % 0x40);
                one(f, z);
            }
        }
    });
    for (uint32_t c = 1; c < 0x110000; ++c) {
        if (c % shards != shard || (c >= 0xd800 && c < 0xe000) || c == '{' || c == '}') continue;
        if (!thorough && c > 0x3000 && c % 61) continue;
        auto u = encode(c);
        one(u + "{}", u + "5");
        one("{}" + u, "5" + u + u);
        uint32_t e = c ^ 1;
        if (e && e < 0x110000 && (e < 0xd800 || e >= 0xe000)) one(u + "{}", encode(e) + "5");
    }
    sample("format \"\\u20ac {{{}}}\" on \"\\u20ac\\n{42}\" -> 42");
}
void vp_replay(const std::string&, const std::string&, const std::vector<uint64_t>&) {}
