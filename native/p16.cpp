// P16: localized numbers: thousands separators and the decimal point of the locale
#include "api.hpp"
#include <locale>
#include <cmath>
using namespace vp;
using E = scn::scan_error;
template <typename C>
struct np : std::numpunct<C> {
    C ts, dp;
    std::string g;
    np(C t, C d, std::string gg) : ts(t), dp(d), g(gg) {}
    C do_thousands_sep() const override { return ts; }
    C do_decimal_point() const override { return dp; }
    std::string do_grouping() const override { return g; }
};
struct Loc { char ts, dp; const char* g; wchar_t wts; std::locale l; };
static std::vector<Loc> locs;
static void make()
{
    for (Loc x : {Loc{',', '.', "\3", L',', {}}, Loc{'.', ',', "\3", L'.', {}}, Loc{',', '.', "", L',', {}}, Loc{'.', ',', "", L'.', {}}, Loc{'\'', '.', "\3\2", 0x2019, {}},
                  Loc{' ', ',', "\1", 0x202f, {}}, Loc{'_', ';', "\2\3\4", 0x10000, {}}, Loc{'.', '\'', "\3", 0x66b, {}}}) {
        x.l = std::locale(std::locale(std::locale::classic(), new np<char>(x.ts, x.dp, x.g)), new np<wchar_t>(x.wts, (wchar_t)x.dp, x.g));
        locs.push_back(x);
    }
}
static int dv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
template <typename T> struct Want { bool judge = true; int code = -1; T v{}; size_t used = 0; };
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
template <typename T>
static Want<T> int_oracle(std::string_view s, int base, bool uns, bool sepok, char sep)
{
    Want<T> w;
    size_t i = 0;
    while (i < s.size() && sp(s[i])) ++i;
    if (i == s.size()) { w.code = E::end_of_input; return w; }
    bool neg = false;
    if (s[i] == '+' || s[i] == '-') neg = s[i++] == '-';
    if (neg && (uns || !std::is_signed_v<T>)) { w.code = E::invalid_scanned_value; return w; }
    if (base == 16 && i + 2 < s.size() && s[i] == '0' && (s[i + 1] | 32) == 'x' && dv(s[i + 2]) < 16) i += 2;
    unsigned __int128 v = 0;
    bool any = false, over = false;
    for (; i < s.size(); ++i) {
        if (sepok && s[i] == sep) continue;
        if (dv(s[i]) >= base) break;
        any = true;
        v = v * (unsigned)base + (unsigned)dv(s[i]);
        if (v >> 70) over = true, v = (unsigned __int128)1 << 70;
    }
    if (!any) { w.code = E::invalid_scanned_value; return w; }
    unsigned __int128 lim = neg ? (unsigned __int128)std::numeric_limits<T>::max() + 1 : (unsigned __int128)std::numeric_limits<T>::max();
    if (over || v > lim) { w.code = neg ? E::value_negative_overflow : E::value_positive_overflow; return w; }
    w.v = neg ? (T)(0 - (uint64_t)v) : (T)v;
    w.used = i;
    return w;
}
static Want<double> float_oracle(std::string_view s, bool sepok, char sep, char dp, bool exp = true)
{
    Want<double> w;
    size_t i = 0;
    while (i < s.size() && sp(s[i])) ++i;
    if (i == s.size()) { w.code = E::end_of_input; return w; }
    std::string t;
    if (s[i] == '+' || s[i] == '-') t += s[i++];
    if (i < s.size() && (isalpha((unsigned char)s[i]) || s[i] == dp)) { w.judge = false; return w; }
    if (i + 1 < s.size() && s[i] == '0' && (s[i + 1] | 32) == 'x') { w.judge = false; return w; }
    bool any = false;
    for (; i < s.size(); ++i) {
        if (sepok && s[i] == sep) continue;
        if (dv(s[i]) >= 10) break;
        any = true;
        t += s[i];
    }
    if (!any) { w.code = E::invalid_scanned_value; w.judge = !(i < s.size() && s[i] == dp); return w; }
    if (i < s.size() && s[i] == dp) {
        t += '.';
        for (++i; i < s.size() && dv(s[i]) < 10; ++i) t += s[i];
    }
    if (exp && i < s.size() && (s[i] | 32) == 'e') {
        size_t e = i + 1;
        if (e < s.size() && (s[e] == '+' || s[e] == '-')) ++e;
        if (e < s.size() && dv(s[e]) < 10) {
            while (e < s.size() && dv(s[e]) < 10) ++e;
            t += s.substr(i, e - i);
            i = e;
        }
    }
    w.v = strtod(t.c_str(), nullptr);
    if (std::isinf(w.v)) w.judge = false;
    w.used = i;
    return w;
}
template <typename T, typename R>
static void cmp(const std::string& id, const R& r, size_t n, const Want<T>& w)
{
    if (!w.judge) return;
    if ((bool)r != (w.code == -1)) return fail(r ? "loc-accepted" : "loc-rejected", id + (r ? ": accepted as " + std::to_string(r->value()) + ", expected " + code_name(w.code) : ": rejected with " + std::string(code_name((int)r.error().code())) + ", expected " + std::to_string(w.v)));
    if (!r) {
        if ((int)r.error().code() != w.code) fail("loc-error", id + ": error " + code_name((int)r.error().code()) + ", expected " + code_name(w.code));
        return;
    }
    size_t used = n - (size_t)std::distance(std::begin(r->range()), std::end(r->range()));
    if (r->value() != w.v) fail("loc-value", id + ": value " + std::to_string(r->value()) + ", expected " + std::to_string(w.v));
    else if (used != w.used) fail("loc-consumed", id + ": consumed " + std::to_string(used) + ", expected " + std::to_string(w.used));
}
template <typename T>
static void three(const Loc& L, std::string_view in, const char* f, const Want<T>& w)
{
    std::string id = std::string(f) + " sep " + show(std::string_view(&L.ts, 1)) + " point " + show(std::string_view(&L.dp, 1)) + (L.g[0] ? "" : " (no grouping)") + " on " + show(in);
    at(id);
    ++cases;
    std::vector<char> b(in.begin(), in.end());
    std::string_view s{b.data(), b.size()};
    cmp("string " + id, scn::scan<T>(L.l, s, scn::runtime_format(f)), s.size(), w);
    std::deque<char> d(in.begin(), in.end());
    cmp("deque " + id, scn::scan<T>(L.l, d, scn::runtime_format(f)), s.size(), w);
    std::wstring x(in.begin(), in.end());
    if (strchr(f, 'L') && L.wts != (wchar_t)L.ts) for (auto& c : x) if (c == (wchar_t)L.ts) c = L.wts;
    // a wide separator is not whitespace: then the leading ones differ, so they are left out
    if (L.ts == ' ' && !in.empty() && (sp(in[0]) || ((in[0] == '+' || in[0] == '-') && false))) return;
    cmp("wide " + id, scn::scan<T>(L.l, x, scn::runtime_format(widen(f))), s.size(), w);
}
static void ints(const std::string& s)
{
    for (auto& L : locs) {
        bool sep = L.g[0] != 0;
        three<int>(L, s, "{:L}", int_oracle<int>(s, 10, false, sep, L.ts));
        three<unsigned>(L, s, "{:Lu}", int_oracle<unsigned>(s, 10, true, sep, L.ts));
        three<int>(L, s, "{:Lx}", int_oracle<int>(s, 16, false, sep, L.ts));
        three<signed char>(L, s, "{:Ld}", int_oracle<signed char>(s, 10, false, sep, L.ts));
        three<int>(L, s, "{:d}", int_oracle<int>(s, 10, false, false, L.ts));
    }
}
static void floats(const std::string& s)
{
    for (auto& L : locs) {
        bool sep = L.g[0] != 0;
        three<double>(L, s, "{:L}", float_oracle(s, sep, L.ts, L.dp));
        three<double>(L, s, "{:Lf}", float_oracle(s, sep, L.ts, L.dp, false));
        three<double>(L, s, "{}", float_oracle(s, false, L.ts, '.'));
    }
}
void vp_run()
{
    make();
    std::string nul(1, '\0');
    words({"1", "0", "9", ",", ".", "-", "x", " ", nul, "_", "'"}, thorough ? 5 : 4, ints);
    words({"1", "0", "9", ",", ".", "-", "e", " ", nul, ";"}, thorough ? 5 : 4, floats);
    // long digit strings with separators anywhere, across small-buffer sizes of strings and around limits
    Rng g(seed * 77 + shard);
    for (int i = 0; i < (thorough ? 40000 : 6000); ++i) {
        std::string a, b;
        size_t n = 1 + g.below(40);
        bool lim = g.below(3) == 0;
        std::string digits = lim ? (g.below(2) ? "2147483647" : g.below(2) ? "4294967295" : "2147483648") : "";
        if (!lim) for (size_t k = 0; k < n; ++k) digits += (char)('0' + g.below(10));
        char seps[] = ",.'_ ;";
        char c = seps[g.below(6)];
        if (g.below(2)) a += '-';
        for (char d : digits) {
            a += d;
            while (g.below(3) == 0) a += c;
        }
        if (a.size() > 1 && a[0] == '-' && g.below(2)) a.insert(1, 1, c);
        b = a + (g.below(2) ? "." : ",");
        for (size_t k = g.below(6); k--;) b += (char)('0' + g.below(10));
        if (g.below(3) == 0) b += "e-3";
        if (g.below(2)) a += "z", b += "z";
        ints(a);
        floats(b);
    }
    // more than 127 and more than 255 separators
    for (size_t n : {126, 127, 128, 129, 255, 256, 257, 300})
        if (n % shards == shard) {
            for (char c : {',', '.', '_'}) {
                ints("1" + std::string(n, c) + "2x");
                ints(std::string(n, c) + "12" + std::string(n, c));
                floats("1" + std::string(n, c) + "2x");
                floats("1" + std::string(n, c) + "2" + (c == '.' ? ",5" : ".5"));
            }
        }
    sample("separator ',' : \"{:L}\" on \"1,2,,345x\" -> 12345, rest \"x\"; separator '.' and point ',' : \"1.234,5\" -> 1234.5");
}
void vp_replay(const std::string&, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg != "s") return;
    make();
    std::string s;
    for (auto c : d) s += (char)c;
    ints(s);
    floats(s);
}
