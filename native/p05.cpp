// P05: field width and precision bound the columns a field spans
#include "api.hpp"
#include "utf.hpp"
using namespace vp;
struct Spec {
    int align = 0;          // 0 none, '<', '>', '^'
    std::string fill;       // one code point, empty: default (space)
    int width = 0, prec = 0;
    char type = 0;          // 0/'s' word, 'c' characters, 'd' integer
    std::string text() const
    {
        std::string o = "{:";
        if (align) { o += fill; o += (char)align; }
        if (width) o += std::to_string(width);
        if (prec) { o += '.'; o += std::to_string(prec); }
        if (type) o += type;
        return o + "}";
    }
};
// end of the longest prefix of s[i..] whose columns do not exceed w (w < 0: no limit)
static size_t limit(std::string_view s, size_t i, long w)
{
    if (w < 0) return s.size();
    while (i < s.size()) {
        auto c = decode(s, i);
        if ((long)width_of(c.v) > w) break;
        w -= width_of(c.v);
        i += c.len;
    }
    return i;
}
static long cols(std::string_view s)
{
    long w = 0;
    for (size_t i = 0; i < s.size();) {
        auto c = decode(s, i);
        w += width_of(c.v);
        i += c.len;
    }
    return w;
}
struct Want {
    bool ok = false;
    int code = 0;
    std::string v;
    size_t used = 0;
};
using E = scn::scan_error;
static Want oracle(std::string_view in, const Spec& sp)
{
    Want o;
    std::string fill = sp.fill.empty() ? " " : sp.fill;
    bool custom = sp.type == 's' && (sp.align == '<' || sp.align == '^');
    bool skip_ws = sp.type != 'c' && !custom;
    long P = sp.prec ? sp.prec : -1;
    size_t lim = limit(in, 0, P);
    size_t i = 0;
    auto skip_fill = [&](size_t from, size_t to) {
        while (to - from >= fill.size() && in.substr(from, fill.size()) == fill) from += fill.size();
        return from;
    };
    if (sp.align == '>' || sp.align == '^') i = skip_fill(0, lim);
    else if (sp.align == 0 && skip_ws) {
        i = skip_white(in.substr(0, lim), 0, true);
        if (i == lim) return o.code = E::end_of_input, o;
    }
    long pw = cols(in.substr(0, i));
    if (P >= 0 && P <= pw) return o.code = E::invalid_fill, o;
    size_t vend_max = P >= 0 ? limit(in, i, P - pw) : in.size();
    if (i == vend_max && sp.type == 'd') return o.code = E::end_of_input, o;
    size_t e;
    auto sub = in.substr(0, vend_max);
    if (sp.type == 'c') e = vend_max;
    else if (sp.type == 'd') {
        e = i;
        if (in[e] == '-' || in[e] == '+') ++e;
        size_t d0 = e;
        while (e < sub.size() && sub[e] >= '0' && sub[e] <= '9') ++e;
        if (e == d0) return o.code = e == sub.size() ? E::invalid_scanned_value : E::invalid_scanned_value, o;
    }
    else if (custom) {
        e = sub.find(fill, i);
        if (e == std::string_view::npos) e = sub.size();
    }
    else e = skip_white(sub, i, false);
    long vw = cols(in.substr(i, e - i));
    size_t k = e;
    if (k != in.size()) {
        if (sp.align == '<' || sp.align == '^') {
            size_t to = P >= 0 ? limit(in, e, P - pw - vw) : in.size();
            k = skip_fill(e, to);
        }
        else if (sp.align == 0 && !skip_ws && ((sp.width && pw + vw < sp.width) || (P >= 0 && pw + vw < P))) {
            size_t to = P >= 0 ? limit(in, e, P - pw - vw) : in.size();
            k = skip_white(in.substr(0, to), e, true);
        }
    }
    if (cols(in.substr(0, k)) < sp.width) return o.code = E::length_too_short, o;
    o.ok = true;
    o.v = std::string(in.substr(i, e - i));
    o.used = k;
    return o;
}
static void cmp(const std::string& id, const Want& w, bool ok, const std::string& v, size_t used, int code)
{
    if (ok != w.ok) fail(ok ? "width-accepted" : "width-rejected", id + (ok ? ": accepted as " + show(std::string_view(v)) + ", expected " + code_name(w.code) : ": rejected with " + std::string(code_name(code)) + ", expected " + show(std::string_view(w.v))));
    else if (!ok) {
        if (code != w.code) fail("width-error", id + ": error " + code_name(code) + ", expected " + code_name(w.code));
    }
    else if (v != w.v) fail("width-value", id + ": got " + show(std::string_view(v)) + ", expected " + show(std::string_view(w.v)));
    else if (used != w.used) fail("width-consumed", id + ": consumed " + std::to_string(used) + ", expected " + std::to_string(w.used));
}
static bool deque_ok = true;
static void one(const std::string& in, const Spec& sp)
{
    auto f = sp.text();
    auto id = f + " on " + show(std::string_view(in));
    at(id);
    ++cases;
    auto w = oracle(in, sp);
    if (sp.type == 'd') {
        auto num = [&](auto& r) { return r.ok ? std::to_string(r.v) : std::string(); };
        if (w.ok) {
            long x = strtol(w.v.c_str(), 0, 10);
            w.v = std::to_string(x);
        }
        auto a = narrow<int>(in, f);
        cmp("narrow int " + id, w, a.ok, num(a), a.used, a.code);
        auto b = deq<int>(in, f);
        cmp("deque int " + id, w, b.ok, num(b), b.used, b.code);
        auto ww = w;
        ww.used = to_wide(in.substr(0, w.used)).size();
        auto c = wide<int>(to_wide(in), to_wide(f));
        cmp("wide int " + id, ww, c.ok, num(c), c.used, c.code);
        return;
    }
    auto a = narrow<std::string>(in, f);
    cmp("narrow " + id, w, a.ok, a.v, a.used, a.code);
    auto b = deq<std::string>(in, f);
    cmp("deque " + id, w, b.ok, b.v, b.used, b.code);
    auto ww = w;
    ww.used = to_wide(in.substr(0, w.used)).size();
    auto c = wide<std::wstring>(to_wide(in), to_wide(f));
    cmp("wide " + id, ww, c.ok, to_narrow(c.v), c.used, c.code);
}
void vp_run()
{
    std::vector<std::string> al = {"a", " ", "*", "\xc3\xa9", "\xe2\x82\xac", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "7"};
    std::vector<Spec> specs;
    for (char t : {'\0', 's', 'c', 'd'})
        for (int w = 0; w <= 4; ++w)
            for (int p = 0; p <= 5; ++p) {
                if (p && w > p) continue;
                if (t == 'c' && !p) continue;
                Spec s;
                s.width = w, s.prec = p, s.type = t;
                specs.push_back(s);
                for (int al2 : {'<', '>', '^'})
                    for (const char* fl : {"*", "", "\xc3\xa9", "\xe4\xb8\xad"}) {
                        s.align = al2;
                        s.fill = fl;
                        specs.push_back(s);
                    }
            }
    words(al, thorough ? 5 : 4, [&](const std::string& in) {
        if (in.empty()) return;
        // all formats on short inputs, a rotating selection on the longer ones
        size_t n = cols(in) > 6 || in.size() > 3 ? (thorough ? 3 : 11) : 1;
        size_t h = 0;
        for (unsigned char c : in) h = h * 31 + c;
        for (size_t k = h % n; k < specs.size(); k += n) one(in, specs[k]);
    });
    // large precisions, every code point class, long runs
    for (uint32_t c = 33; c < 0x110000; ++c) {
        if (white(c) || (c >= 0xd800 && c < 0xe000)) continue;
        bool edge = width_of(c) != width_of(c - 1) || width_of(c) != width_of(c + 1);
        if (!edge && c > 0x250 && c % 997 && !thorough) continue;
        if (c % shards != shard) continue;
        for (int p = 1; p <= 4; ++p) {
            Spec s;
            s.prec = p, s.type = 'c';
            one(encode(c) + encode(c) + "b", s);
            s.type = 0;
            one("a" + encode(c) + "b", s);
            s.prec = 0, s.width = p;
            one("a" + encode(c), s);
        }
    }
    for (int n = 1; n < 60; ++n)
        for (int p = 1; p < 60; p += 3) {
            if ((n + p) % (int)shards != (int)shard) continue;
            std::string x, y;
            for (int k = 0; k < n; ++k) x += al[(size_t)(k * k + p) % 8 == 1 ? 0 : (size_t)(k * k + p) % 8], y += "a";
            for (char t : {'c', '\0'}) {
                Spec s;
                s.prec = p, s.type = t;
                one(x, s);
                one(y, s);
                s.prec = 0, s.width = p;
                if (!t) one(x, s), one(y, s);
            }
        }
    sample("{:.3c} on \"\\u4e2d\\u4e2d\" takes one code point (the second would need columns 3 and 4)");
}
void vp_replay(const std::string& fn, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg == "cp" && d.size() == 1 && d[0] < 0x110000 && !(d[0] >= 0xd800 && d[0] < 0xe000) && d[0] > 32 && !white((uint32_t)d[0])) {
        for (int p = 1; p <= 3; ++p) {
            Spec s;
            s.prec = p, s.type = 'c';
            one(encode((uint32_t)d[0]) + encode((uint32_t)d[0]) + "b", s);
        }
    }
    if (arg == "s") {
        std::string s(d.begin(), d.end());
        if (s.size() < 200 && valid(s))
            for (int p = 1; p < 12; ++p) {
                Spec q;
                q.prec = p, q.type = 'c';
                if (!s.empty()) one(s, q);
            }
    }
}
