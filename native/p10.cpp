// P10: format strings against a recogniser of the documented grammar; no crash, no overrun, no hang on any
#include "api.hpp"
#include "fmtoracle.hpp"
#include <memory>
using namespace vp;
using E = scn::scan_error;
template <typename T>
static void one(Kind k, const char* tn, const std::string& f, const char* src, bool strict)
{
    FmtOracle o;
    auto v = o.run(f, {k});
    strict = strict && o.done == 0;  // otherwise an earlier field may fail first
    auto id = std::string(tn) + " with format " + show(std::string_view(f)) + " on " + show(std::string_view(src));
    at(id);
    ++cases;
    std::vector<char> fb(f.begin(), f.end());
    auto r = narrow<T>(src, std::string_view(fb.data(), fb.size()));
    if (v == V_bad && (r.ok || (strict && r.code != (int)E::invalid_format_string)))
        fail("bad-format-accepted", id + (r.ok ? ": accepted" : ": error " + std::string(code_name(r.code))) + ", expected invalid_format_string");
    if (v == V_ok && !r.ok && r.code == (int)E::invalid_format_string) fail("good-format-rejected", id + ": rejected as invalid_format_string");
    if constexpr (!std::is_same_v<T, char> && !std::is_same_v<T, std::string>) {
        if (!valid(f)) return;
        auto wf = to_wide(f);
        auto ws = to_wide(src);
        std::vector<wchar_t> wb(wf.begin(), wf.end());
        auto x = wide<T>(ws, std::wstring_view(wb.data(), wb.size()));
        if (v == V_bad && (x.ok || (strict && x.code != (int)E::invalid_format_string)))
            fail("bad-format-accepted", "wide " + id + (x.ok ? ": accepted" : ": error " + std::string(code_name(x.code))) + ", expected invalid_format_string");
        if (v == V_ok && !x.ok && x.code == (int)E::invalid_format_string) fail("good-format-rejected", "wide " + id + ": rejected as invalid_format_string");
    }
}
static void all(const std::string& f, const char* src, bool strict)
{
    one<int>(K_int, "int", f, src, strict);
    one<std::string>(K_str, "string", f, src, strict);
    one<char>(K_char, "char", f, src, strict);
    one<char32_t>(K_cp, "char32_t", f, src, strict);
    one<double>(K_float, "double", f, src, strict);
    one<bool>(K_bool, "bool", f, src, strict);
    one<void*>(K_ptr, "void*", f, src, strict);
}
// a field that is rejected stores nothing
static void nostore(const std::string& f)
{
    FmtOracle o;
    if (o.run(f, {K_int}) != V_bad) return;
    ++cases;
    at("scan_int into existing with " + f);
    auto r = scn::scan<int>("77 77", scn::runtime_format(std::string_view(f)), std::tuple<int>{-5});
    if (r) fail("bad-format-accepted", "int with format " + show(std::string_view(f)) + ": accepted");
}
void vp_run()
{
    std::vector<std::string> al = {"<", "^", "*", "1", "3", ".", "L", "d", "x", "b", "c", "s", "f", "p", "u", "\xc3\xa4", "[a]", "[", "{", "}", ":", "2147483648", "a-", "]"};
    words(al, thorough ? 4 : 3, [](const std::string& w) {
        all("{:" + w + "}", "1", true);
        nostore("{:" + w + "}");
    });
    words(al, thorough ? 3 : 2, [](const std::string& w) {
        all("{:" + w, "1", true);
        all("{0:" + w + "}", "1", true);
        all("{" + w + "}", "1", true);
        all("{" + w, "1", true);
    });
    // ordered longer specs
    {
        std::vector<std::string> fa = {"", "<", "*>", "\xe2\x82\xac^", "{<", "<<", ">^"}, wi = {"", "1", "15", "2147483647", "2147483648", "99999999999999999999"},
                                 pr = {"", ".1", ".20", ".", ".2147483648", ".0"}, lo = {"", "L", "LL"}, ty = {"", "d", "i", "u", "o", "x", "X", "b", "B", "c", "s", "f", "e", "g", "a", "p", "[ab]", "[^a]", "[a-c-]", "[c-a]", "[]", "[^]", "[^]]", "[", "[a", "[^", "[a-", "[\xc3]", "[a-\xe2\x82]", "r", "?", "z", "dd", "d "};
        unsigned n = 0;
        for (auto& a : fa) for (auto& b : wi) for (auto& c : pr) for (auto& d : lo) for (auto& e : ty) {
            if (n++ % shards != shard) continue;
            if (!thorough && !a.empty() && !b.empty() && !c.empty() && n % 3) continue;
            auto f = "{:" + a + b + c + d + e;
            all(f + "}", "1", true);
            if (n % 4 == 0) all(f, "1", true);
        }
    }
    // whole format strings
    words({"{", "}", "0", "1", ":", "d", "{}", "a", " ", "{{", "}}", "99999999999"}, thorough ? 5 : 4, [](const std::string& w) { one<int>(K_int, "int", w, "a 1a", false); });
    // arbitrary bytes: nothing but an ordinary result
    Rng r(seed * 1000 + shard);
    const char* toks[] = {"{", "}", "{:", "}}", "{{", "[", "]", "^", "-", "a", "\xc3", "\xa4", "\xf0\x9f", "\xff", "/", "\\", "/i", "1", "9", ".", "L", "<", ">", "d", "s", "c", " ", "\xe2\x82\xac", "0", ":", "%", "m", "n", "(", ")", "*", "+", "?"};
    unsigned n = thorough ? 400000 : 40000;
    for (unsigned k = 0; k < n; ++k) {
        std::string f;
        if (r.below(4)) f = "{:";
        unsigned l = (unsigned)r.below(9);
        for (unsigned i = 0; i < l; ++i) f += r.below(12) ? std::string(toks[r.below(sizeof toks / sizeof *toks)]) : std::string(1, (char)r.below(256));
        if (r.below(2)) f += "}";
        bool rx = f.find('/') != f.npos;
        one<std::string>(K_str, "string", f, "1a\xc3\xa4", false);
        if (!rx) one<int>(K_int, "int", f, "1a", false);
        if (!rx && k % 4 == 0) all(f, "1", false);
    }
    sample("\"{:3.2d}\", \"{:[c-a]}\", \"{:.d}\", \"{\", \"{0\" -> invalid_format_string");
}
void vp_replay(const std::string&, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg != "s") return;
    std::string s;
    for (auto c : d) s += (char)c;
    all("{:" + s, "1", false);
    all("{:" + s + "}", "1", false);
    all("{" + s, "1", false);
    all(s, "1", false);
}
