// P13: the same text and format through every kind of source
#include "sources.hpp"
#include "utf.hpp"
using namespace vp;
// scanners of user types scan the rest of the source, through the context
struct Pair {
    int x{}, y{};
    bool operator==(const Pair& o) const { return x == o.x && y == o.y; }
};
struct Nest {
    std::string s;
    Pair p{};
    bool operator==(const Nest& o) const { return s == o.s && p == o.p; }
};
namespace scn {
template <>
struct scanner<Pair, char> {
    template <typename P>
    constexpr auto parse(P& c) { return c.begin(); }
    template <typename C>
    auto scan(Pair& v, C& ctx) -> scan_expected<typename C::iterator>
    {
        auto r = scn::scan<int, int>(ctx.range(), "{},{}");
        if (!r) return unexpected(r.error());
        std::tie(v.x, v.y) = r->values();
        return r->begin();
    }
};
template <>
struct scanner<Nest, char> {
    template <typename P>
    constexpr auto parse(P& c) { return c.begin(); }
    template <typename C>
    auto scan(Nest& v, C& ctx) -> scan_expected<typename C::iterator>
    {
        auto r = scn::scan<std::string, Pair>(ctx.range(), "{:.2}{}");
        if (!r) return unexpected(r.error());
        std::tie(v.s, v.p) = r->values();
        return r->begin();
    }
};
}  // namespace scn
template <typename... T>
static void one(const std::string& s, const char* f)
{
    auto id = show(std::string_view(f)) + " on " + show(std::string_view(s));
    at(id);
    ++cases;
    std::vector<char> heap(s.begin(), s.end());
    std::string_view v{heap.data(), heap.size()};
    auto ref = run_range<T...>(v, v.size(), f);
    auto cmp = [&](const std::string& kind, const Out<T...>& o) {
        if (!same(ref, o)) fail("source-" + kind, kind + " source " + id + ": " + tell(o) + "; string_view: " + tell(ref));
    };
    cmp("string", run_range<T...>(s, s.size(), f));
    cmp("vector", run_range<T...>(heap, s.size(), f));
    cmp("deque", run_range<T...>(std::deque<char>(s.begin(), s.end()), s.size(), f));
    if (cases % 4 == 0) cmp("list", run_range<T...>(std::list<char>(s.begin(), s.end()), s.size(), f));
    for (size_t b : {1u, 2u, 3u, 5u, 8u, 0u}) {
        if (b > 1 && b > s.size() + 2) continue;
        cmp("file", run_file<T...>(s, f, b));
    }
    // the unread rest of a view is a view; scanning a sub-range of a longer buffer stops at its end
    if (!s.empty()) {
        std::string longer = s + "7" + s;
        auto o = run_range<T...>(std::string_view(longer).substr(0, s.size()), s.size(), f);
        cmp("subview", o);
    }
}
static void all(const std::string& s)
{
    one<int>(s, "{}");
    one<std::string>(s, "{}");
    one<double>(s, "{}");
    one<bool>(s, "{}");
    one<char>(s, "{}");
    one<char32_t>(s, "{}");
    one<unsigned>(s, "{:x}");
    one<long>(s, "{:i}");
    one<int, int>(s, "{} {}");
    one<int, std::string>(s, "{},{}");
    one<std::string, std::string>(s, "{} {}");
    one<std::string, int>(s, "a{:[a-c]}{}");
    one<std::string>(s, "{:.3}");
    one<std::string>(s, "{:.3c}");
    one<std::string>(s, "{:3}");
    one<std::string>(s, "{:*^5.5}");
    one<std::string>(s, "{:*<s}");
    one<int>(s, "{:*>4}");
    one<int>(s, "{:.2}");
    one<std::string>(s, "{:[^ ]}");
    one<std::string>(s, "{:[\xc3\xa4-\xc3\xb6" "a1]}");
    one<char, char>(s, "{}{}");
    one<double, std::string>(s, "{}{}");
    one<int>(s, " {} ");
    one<bool, int>(s, "{:s} {}");
    one<Pair>(s, "{}");
    one<int, Pair>(s, "{:.2}{}");
    one<std::string, Pair, std::string>(s, "{:.3}{}{}");
    one<char, Nest, char>(s, "{}{}{}");
}
void vp_run()
{
    words({"1", "-", "a", " ", ".", "e", "\xc3\xa4", "*", ",", "\n", "0x"}, thorough ? 5 : 3, all);
    std::vector<std::string> tok = {"123", "-45", "+7", "0x1f", "077", "true", "false", "tru", "1.5e3", "2.25", "-0.0", "inf", "abc", "ab", "a", "  ", " ", "\n", "\t", ",", "*", "**", "\xc3\xa4", "\xe2\x82\xac",
                                    "\xf0\x9f\x98\x80", "\xe3\x81\x82", "\xc3", "\xff", "\xe2\x82", "\xe2\x80\xa8", "\xc2\x85", "99999999999", "1e", "1e+", "0x", ".", "e5", "zz", "12345678901234567890", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
    Rng r(seed * 3 + shard);
    unsigned n = thorough ? 4000 : 500;
    for (unsigned k = 0; k < n; ++k) {
        std::string s;
        unsigned l = 1 + (unsigned)r.below(7);
        for (unsigned i = 0; i < l; ++i) s += tok[r.below(tok.size())];
        all(s);
    }
    // several numbers, so that the user types succeed
    for (unsigned k = 0; k < n; ++k) {
        std::string s;
        unsigned l = 2 + (unsigned)r.below(5);
        for (unsigned i = 0; i < l; ++i) {
            s += std::to_string(r.below(r.below(2) ? 10 : 10000));
            s += std::array<const char*, 4>{",", " ", ", ", ","}[r.below(4)];
        }
        if (r.below(3) == 0) s.pop_back();
        one<Pair>(s, "{}");
        one<int, Pair>(s, "{:.2}{}");
        one<int, Pair>(s, "{} {}");
        one<int, Pair>(s, "{},{}");
        one<std::string, Pair, std::string>(s, "{:.1}{}{}");
        one<char, Nest, char>(s, "{}{}{}");
        one<Nest, Pair>(s, "{}{}");
        one<Pair, Pair>(s, "{} {}");
    }
    sample("\"{},{}\" on \"-45,a\\u00e4\" as string_view, string, vector, deque, list, and files with 1 to 8 byte buffers");
}
void vp_replay(const std::string&, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg != "s") return;
    std::string s;
    for (auto c : d) s += (char)c;
    all(s);
}
