// P14: field by field through the remaining range == one scan; files are left at the first unread character
#include "sources.hpp"
#include "utf.hpp"
#include <scn/impl.h>
using namespace vp;

// a file buffer filled any number of times and moved to any place leaves the file there, with and without a buffer of its own
template <typename I>
static void moved(const std::string& s, const char* kind)
{
    for (size_t fills = 0; fills <= s.size() + 1; ++fills)
        for (size_t pos = 0; pos <= s.size(); ++pos) {
            at(std::string(kind) + " file moved to " + std::to_string(pos) + " after " + std::to_string(fills) + " fills of " + show(std::string_view(s)));
            ++cases;
            File x(s, 2);
            bool ok;
            {
                scn::detail::basic_scan_file_buffer<I> b{I{x.f}};
                for (size_t k = 0; k < fills; ++k) (void)b.fill();
                if ((size_t)b.chars_available() < pos) break;
                ok = b.sync((std::ptrdiff_t)pos);
            }
            auto r = x.rest();
            if (!ok || r != s.substr(pos))
                fail(std::string("moved-") + kind, std::string(kind) + " file " + show(std::string_view(s)) + " filled " + std::to_string(fills) + " times and moved to " + std::to_string(pos) + ": " + (ok ? "" : "failed, ") + "rest " + show(std::string_view(r)));
        }
}

// the remaining range of a view is the suffix of that view, by address
template <typename T>
static bool step(std::string_view& at_, const std::string& f, T& v, int& code, const std::string& id)
{
    auto r = scn::scan<T>(at_, scn::runtime_format(std::string_view(f)));
    if (!r) { code = (int)r.error().code(); return false; }
    v = std::move(r->value());
    std::string_view rest{r->range().data(), r->range().size()};
    if (rest.data() < at_.data() || rest.data() + rest.size() != at_.data() + at_.size())
        fail("suffix", "remaining range is not a suffix of the source: " + id);
    at_ = rest;
    return true;
}
template <typename C, typename T>
static bool stepc(scn::ranges::subrange<typename C::const_iterator>& at_, const std::string& f, T& v, int& code)
{
    auto r = scn::scan<T>(at_, scn::runtime_format(std::string_view(f)));
    if (!r) { code = (int)r.error().code(); return false; }
    v = std::move(r->value());
    at_ = {r->range().begin(), r->range().end()};
    return true;
}
template <typename A, typename B, typename D>
static void three(const std::string& s, const std::array<std::string, 3>& f)
{
    auto id = show(std::string_view(f[0] + f[1] + f[2])) + " on " + show(std::string_view(s));
    at(id);
    ++cases;
    std::vector<char> heap(s.begin(), s.end());
    std::string_view v{heap.data(), heap.size()};
    auto ref = run_range<A, B, D>(v, v.size(), f[0] + f[1] + f[2]);
    std::array<size_t, 3> pos{};
    int done = 0;
    {
        Out<A, B, D> o;
        auto cur = v;
        auto& [a, b, d] = o.v;
        o.ok = step(cur, f[0], a, o.code, id);
        if (o.ok) { pos[0] = v.size() - cur.size(); done = 1; o.ok = step(cur, f[1], b, o.code, id); }
        if (o.ok) { pos[1] = v.size() - cur.size(); done = 2; o.ok = step(cur, f[2], d, o.code, id); }
        if (o.ok) { pos[2] = v.size() - cur.size(); done = 3; }
        o.used = v.size() - cur.size();
        if (!same(ref, o)) fail("stepwise", "one scan " + id + ": " + tell(ref) + "; field by field: " + tell(o));
    }
    {
        using C = std::deque<char>;
        C c(s.begin(), s.end());
        scn::ranges::subrange<C::const_iterator> cur{c.cbegin(), c.cend()};
        Out<A, B, D> o;
        auto& [a, b, d] = o.v;
        o.ok = stepc<C>(cur, f[0], a, o.code) && stepc<C>(cur, f[1], b, o.code) && stepc<C>(cur, f[2], d, o.code);
        o.used = (size_t)(cur.begin() - c.cbegin());
        if (!same(ref, o)) fail("stepwise-deque", "one scan " + id + ": " + tell(ref) + "; field by field over a deque: " + tell(o));
    }
    for (size_t bs : {0u, 1u, 3u, 7u}) {
        auto kind = std::to_string(bs) + " byte buffer";
        // one scan of everything
        {
            auto o = run_file<A, B, D>(s, f[0] + f[1] + f[2], bs);
            size_t want = ref.ok ? ref.used : 0;
            if (o.ok == ref.ok && o.rest != s.substr(want))
                fail("file-position", "file (" + kind + ") after " + id + (ref.ok ? "" : " (failed)") + ": rest " + show(std::string_view(o.rest)) + ", expected " + show(std::string_view(s).substr(want)));
        }
        // field by field over the same file, checking the position with getc/ungetc in between
        File x(s, bs);
        auto one = [&](auto& val, const std::string& fm, int k) {
            using T = std::decay_t<decltype(val)>;
            auto r = scn::scan<T>(x.f, scn::runtime_format(std::string_view(fm)));
            if (bool(r) != (k < done)) { fail("file-stepwise", "file (" + kind + ") " + id + " field " + std::to_string(k) + (r ? " succeeded" : " failed") + ", unlike a string"); return false; }
            if (!r) return false;
            val = std::move(r->value());
            int c = getc(x.f);
            int want = pos[(size_t)k] < s.size() ? (unsigned char)s[pos[(size_t)k]] : EOF;
            if (c != want) fail("file-next", "file (" + kind + ") " + id + ": next character after field " + std::to_string(k) + " is " + std::to_string(c) + ", expected " + std::to_string(want));
            if (c != EOF) ungetc(c, x.f);
            return true;
        };
        std::tuple<A, B, D> t;
        auto& [a, b, d] = t;
        if (one(a, f[0], 0) && one(b, f[1], 1) && one(d, f[2], 2)) {
            if (!eqt(t, ref.v, std::index_sequence_for<A, B, D>{})) fail("file-values", "file (" + kind + ") " + id + ": values differ from one scan");
        }
        size_t at_ = done ? pos[(size_t)done - 1] : 0;
        auto rest = x.rest();
        if (rest != s.substr(at_)) fail("file-rest", "file (" + kind + ") " + id + " field by field: rest " + show(std::string_view(rest)) + ", expected " + show(std::string_view(s).substr(at_)));
    }
}
// scan_value, scan_int, input: the same value and rest as scan with "{}"
template <typename T>
static void value(const std::string& s)
{
    at("scan_value on " + show(std::string_view(s)));
    std::vector<char> heap(s.begin(), s.end());
    std::string_view v{heap.data(), heap.size()};
    auto ref = run_range<T>(v, v.size(), "{}");
    auto r = scn::scan_value<T>(v);
    Out<T> o;
    if (!r) o.code = (int)r.error().code();
    else { o.ok = true; std::get<0>(o.v) = r->value(); o.used = v.size() - r->range().size(); if (r->range().data() + r->range().size() != v.data() + v.size()) fail("suffix", "scan_value: remaining range is not a suffix on " + show(std::string_view(s))); }
    if (!same(ref, o)) fail("scan-value", "scan_value on " + show(std::string_view(s)) + ": " + tell(o) + "; scan: " + tell(ref));
    {
        std::deque<char> dq(s.begin(), s.end());
        auto q = scn::scan_value<T>(dq);
        Out<T> p;
        if (!q) p.code = (int)q.error().code();
        else { p.ok = true; std::get<0>(p.v) = q->value(); p.used = s.size() - (size_t)std::distance(q->range().begin(), q->range().end()); }
        if (!same(ref, p)) fail("scan-value", "scan_value on a deque " + show(std::string_view(s)) + ": " + tell(p) + "; scan: " + tell(ref));
    }
    {
        File x(s, 3);
        FILE* old = stdin;
        stdin = x.f;
        auto q = scn::input<T>("{}");
        stdin = old;
        Out<T> p;
        if (!q) p.code = (int)q.error().code();
        else { p.ok = true; std::get<0>(p.v) = q->value(); }
        p.rest = x.rest();
        p.used = s.size() - p.rest.size();
        if (!same(ref, p) || (!p.ok && p.rest != s)) fail("input", "input on " + show(std::string_view(s)) + ": " + tell(p) + " rest " + show(std::string_view(p.rest)) + "; scan: " + tell(ref));
    }
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>) {
        auto q = scn::scan_int<T>(v);
        Out<T> p;
        if (!q) p.code = (int)q.error().code();
        else { p.ok = true; std::get<0>(p.v) = q->value(); p.used = v.size() - q->range().size(); }
        if (p.ok != ref.ok || (p.ok && !same(p, ref))) fail("scan-int", "scan_int on " + show(std::string_view(s)) + ": " + tell(p) + "; scan: " + tell(ref));
    }
}
static void all(const std::string& s)
{
    three<int, int, int>(s, {"{}", "{}", "{}"});
    three<std::string, int, std::string>(s, {"{}", "{}", "{}"});
    three<int, char, double>(s, {"{}", "{}", "{}"});
    three<char, std::string, char>(s, {"{}", "{:.2}", "{}"});
    three<std::string, std::string, std::string>(s, {"{:[a-z]}", "{:[^a-z]}", "{:.1c}"});
    three<char32_t, unsigned, std::string>(s, {"{}", "{:x}", "{:*^3}"});
    three<int, std::string, int>(s, {"{} ", "{},", "{:i}"});
    value<int>(s);
    value<unsigned long>(s);
    value<double>(s);
    value<std::string>(s);
    value<char>(s);
    value<bool>(s);
}
void vp_run()
{
    words({"1", "-", "a", " ", ".", "\xc3\xa4", "*", ",", "\n"}, thorough ? 5 : 3, all);
    std::vector<std::string> tok = {"123", "-45", "+7", "0x1f", "077", "true", "1.5e3", "2.25", "-0.0", "inf", "abc", "a", "  ", " ", "\n", "\t", ",", "*", "**", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xe3\x81\x82",
                                    "\xc3", "\xff", "\xe2\x80\xa8", "99999999999", "1e", "1e+", "zz", "12345678901234567890", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
    for (const char* t : {"", "a", "ab", "12345", "\xc3\xa4\xff" "0"})
        if (shard == 0) {
            moved<scn::detail::stdio_file_interface>(t, "buffered");
            moved<scn::detail::stdio_file_interface_impl<FILE, scn::detail::default_file_tag>>(t, "unbuffered");
        }
    Rng r(seed * 7 + shard);
    unsigned n = thorough ? 6000 : 900;
    for (unsigned k = 0; k < n; ++k) {
        std::string s;
        unsigned l = 1 + (unsigned)r.below(9);
        for (unsigned i = 0; i < l; ++i) s += tok[r.below(tok.size())];
        all(s);
    }
    sample("\"{}\" \"{}\" \"{}\" one after the other through the remaining range against \"{}{}{}\" at once; FILE with 1, 3, 7 byte buffers, getc after each field");
}
void vp_replay(const std::string&, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg != "s") return;
    std::string s;
    for (auto c : d) s += (char)c;
    all(s);
}
