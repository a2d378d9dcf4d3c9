// P07: character sets against a membership oracle
#include "api.hpp"
#include "utf.hpp"
using namespace vp;
struct Item { uint32_t lo, hi; };  // inclusive
struct Set {
    bool inv = false;
    bool bracket = false;  // "[^]...": ']' first in an inverted set is a member
    bool dash = false;     // '-' last is a member
    std::vector<Item> items;
    std::string spec() const
    {
        std::string s = "[";
        if (inv) s += '^';
        if (bracket) s += ']';
        for (auto& i : items) {
            s += encode(i.lo);
            if (i.hi != i.lo) s += '-' + encode(i.hi);
        }
        if (dash) s += '-';
        return s + ']';
    }
    bool has(uint32_t c) const
    {
        bool m = (bracket && c == ']') || (dash && c == '-');
        for (auto& i : items) m = m || (i.lo <= c && c <= i.hi);
        return m != inv;
    }
};
static void cmp(const std::string& id, size_t want, std::string_view src, bool ok, const std::string& v, size_t used, int code)
{
    if (ok != (want > 0)) fail(ok ? "set-accepted" : "set-rejected", id + (ok ? ": accepted " + show(std::string_view(v)) : ": rejected with " + std::string(code_name(code))) + ", expected to take " + std::to_string(want) + " bytes");
    else if (ok && v != src.substr(0, want)) fail("set-value", id + ": got " + show(std::string_view(v)) + ", expected " + show(src.substr(0, want)));
    else if (ok && used != want) fail("set-consumed", id + ": consumed " + std::to_string(used) + " bytes, expected " + std::to_string(want));
}
static void one(const Set& st, const std::string& src, bool wides = true)
{
    auto f = "{:" + st.spec() + "}";
    auto id = show(std::string_view(f)) + " on " + show(std::string_view(src));
    at(id);
    ++cases;
    size_t want = 0;
    while (want < src.size()) {
        auto c = decode(src, want);
        if (!st.has(c.v)) break;
        want += c.len;
    }
    auto n = narrow<std::string>(src, f);
    cmp("narrow " + id, want, src, n.ok, n.v, n.used, n.code);
    auto d = deq<std::string>(src, f);
    cmp("deque " + id, want, src, d.ok, d.v, d.used, d.code);
    {
        std::vector<char> b(src.begin(), src.end());
        std::string_view s{b.data(), b.size()};
        auto r = scn::scan<std::string_view>(s, scn::runtime_format(std::string_view(f)));
        if (r) cmp("view " + id, want, src, true, std::string(r->value()), s.size() - (size_t)std::distance(r->range().begin(), r->range().end()), 0);
        else cmp("view " + id, want, src, false, "", 0, (int)r.error().code());
    }
    if (!wides) return;
    auto w = wide<std::wstring>(to_wide(src), to_wide(f));
    cmp("wide " + id, want, src, w.ok, to_narrow(w.v), to_narrow(to_wide(src).substr(0, w.used)).size(), w.code);
}
void vp_run()
{
    Rng r(seed * 77 + shard);
    // every code point against sets with a boundary at it
    std::vector<uint32_t> edge;
    for (uint32_t c = 1; c < 0x180; ++c) edge.push_back(c);
    for (uint32_t b : {0x7ffu, 0x800u, 0xfffu, 0x1000u, 0x2028u, 0xd7ffu, 0xe000u, 0xfffdu, 0xfffeu, 0xffffu, 0x10000u, 0x1f600u, 0x3ffffu, 0x40000u, 0x10fffdu, 0x10fffeu, 0x10ffffu}) edge.push_back(b);
    auto plain = [](uint32_t c) { return c != ']' && c != '^' && c != '-' && c != '{' && c != '}'; };
    auto ok = [](uint32_t c) { return c > 0 && c < 0x110000 && (c < 0xd800 || c > 0xdfff); };
    for (size_t k = 0; k < edge.size(); ++k) {
        if (k % shards != shard) continue;
        uint32_t c = edge[k];
        if (!plain(c)) continue;
        for (int inv = 0; inv < 2; ++inv) {
            std::vector<Set> sets(3);
            sets[0].items = {{c, c}};
            uint32_t h = c + 5;
            while (!plain(h) || !ok(h)) h = h < 0x10fffe ? h + 1 : c;
            sets[1].items = {{c, h}};
            sets[2].items = {{'q', 'q'}, {c, h}, {0x4e00, 0x4e10}};
            for (auto& s : sets) {
                s.inv = inv;
                for (uint32_t p : {c - 1, c, c + 1, h - 1, h, h + 1, c + 8, c + 64, c + 128, c + 256, c ^ 1, c ^ 0x10000, (uint32_t)0x4e0f})
                    if (ok(p)) {
                        auto e = encode(p);
                        one(s, e, c % 4 == 0);
                        one(s, encode(c) + e + "#", false);
                    }
            }
        }
    }
    // random sets and texts
    std::vector<uint32_t> pool = {'a', 'b', 'c', 'm', 'y', 'z', 'A', 'Z', '0', '5', '9', ' ', '\t', '\n', '!', '~', '/', ':', '.', '+', 0x7f, 0x80, 0xe4, 0xe5, 0xff, 0x100,
                                  0x7ff, 0x800, 0x20ac, 0x3042, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x1f601, 0x1f64f, 0x10ffff, '[', '(', '_'};
    unsigned n = thorough ? 60000 : 6000;
    for (unsigned k = 0; k < n; ++k) {
        Set s;
        s.inv = r.below(2);
        s.bracket = s.inv && r.below(4) == 0;
        s.dash = r.below(4) == 0;
        unsigned m = (unsigned)r.below(5) + (!s.bracket && !s.dash);
        for (unsigned i = 0; i < m; ++i) {
            uint32_t a = pool[r.below(pool.size())], b = r.below(2) ? a : pool[r.below(pool.size())];
            if (b < a) std::swap(a, b);
            s.items.push_back({a, b});
        }
        if (r.below(3) == 0 && s.items.size() > 1 && s.items[0].hi + 1 < 0x10ffff && plain(s.items[0].hi + 1) && ok(s.items[0].hi + 1)) s.items[1] = {s.items[0].hi + 1, s.items[0].hi + 1};
        for (unsigned j = 0; j < 6; ++j) {
            std::string t;
            unsigned l = (unsigned)r.below(12);
            if (j == 5) l += 40;
            for (unsigned i = 0; i < l; ++i) {
                uint32_t c = r.below(8) == 0 ? (uint32_t)"-]^"[r.below(3)] : pool[r.below(pool.size())] + (uint32_t)(r.below(6) == 0);
                if (!ok(c)) c = 'a';
                if (j >= 4)  // mostly members, so that the run is long
                    for (int q = 0; q < 40 && !s.has(c); ++q) c = pool[r.below(pool.size())];
                t += encode(c);
            }
            one(s, t);
        }
    }
    // ill-formed text never becomes part of a scanned string
    for (auto bad : {"\xff", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc3(", "\xf5\x80\x80\x80"})
        for (auto f : {"{:[a-c]}", "{:[^a]}", "{:[\xc3\xa4-\xc3\xb6" "a]}", "{:[^\xc3\xa4]}", "{:[^a\xc3\xa4]}"})
            for (auto pre : {"", "b", "bb\xc3\xb5"})
                for (auto post : {"", "b"}) {
                    std::string src = std::string(pre) + bad + post;
                    at(std::string("set ") + f, src);
                    ++cases;
                    auto x = narrow<std::string>(src, f);
                    if (x.ok && !valid(x.v)) fail("set-illformed", std::string(f) + " on " + show(std::string_view(src)) + " gave the ill-formed string " + show(std::string_view(x.v)));
                    auto y = deq<std::string>(src, f);
                    if (y.ok && !valid(y.v)) fail("set-illformed", "deque " + std::string(f) + " on " + show(std::string_view(src)) + " gave the ill-formed string " + show(std::string_view(y.v)));
                }
    sample("\"{:[^a-f\\u00e4]}\" on \"xyz\\u00e4\" -> \"xyz\", rest \"\\u00e4\"");
}
void vp_replay(const std::string&, const std::string&, const std::vector<uint64_t>&) {}
