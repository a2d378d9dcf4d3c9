// P12: floating-point fields: exact syntax, correct rounding (glibc strtod as the reference), range errors
#include "api.hpp"
#include <cmath>
#include <cfloat>
#include <limits>
using namespace vp;
using E = scn::scan_error;
static bool dg(char c) { return c >= '0' && c <= '9'; }
static bool hx(char c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool ieq(std::string_view s, size_t i, const char* w)
{
    for (; *w; ++w, ++i)
        if (i >= s.size() || ((s[i] | 32) != *w)) return false;
    return true;
}
struct Syn { int kind = 0; size_t len = 0; bool skip = false; };  // kind 0: no number, 1 decimal, 2 hex, 3 inf, 4 nan, 5 hex without prefix
// p: presentation (0: default)
static Syn syntax(std::string_view s, char p)
{
    Syn o;
    size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (ieq(s, i, "inf")) return o.kind = 3, o.len = i + (ieq(s, i, "infinity") ? 8 : 3), o;
    if (ieq(s, i, "nan")) {
        o.kind = 4;
        o.len = i + 3;
        if (o.len < s.size() && s[o.len] == '(') {
            size_t e = o.len + 1;
            while (e < s.size() && (dg(s[e]) || ((s[e] | 32) >= 'a' && (s[e] | 32) <= 'z') || s[e] == '_')) ++e;
            if (e < s.size() && s[e] == ')') o.len = e + 1;
            else o.kind = 0;
        }
        return o;
    }
    if (i < s.size() && s[i] == '.') o.skip = true;  // ".5": the library wants a leading digit; not judged
    bool prefix = (p == 0 || p == 'a') && i + 1 < s.size() && s[i] == '0' && (s[i + 1] | 32) == 'x';
    bool hex = prefix || p == 'a';
    auto is = hex ? hx : dg;
    if (prefix) {
        if (i + 2 < s.size() && (hx(s[i + 2]) || (s[i + 2] == '.' && i + 3 < s.size() && hx(s[i + 3])))) i += 2;
        else return o.kind = 1, o.len = i + 1, o;  // only the zero is a number
    }
    size_t d = i;
    while (i < s.size() && is(s[i])) ++i;
    bool any = i > d;
    if (i < s.size() && s[i] == '.') {
        size_t f = ++i;
        while (i < s.size() && is(s[i])) ++i;
        any |= hex && i > f;
    }
    if (!any) return o;
    size_t e = i;
    bool ex = false;
    if (p != 'f' && e < s.size() && (s[e] | 32) == (hex ? 'p' : 'e')) {
        ++e;
        if (e < s.size() && (s[e] == '+' || s[e] == '-')) ++e;
        if (e < s.size() && dg(s[e])) {
            while (e < s.size() && dg(s[e])) ++e;
            i = e;
            ex = true;
        }
    }
    if (p == 'e' && !ex) return o;
    o.kind = !hex ? 1 : prefix ? 2 : 5;
    o.len = i;
    return o;
}
template <typename T> T ref(const char* s);
template <> float ref<float>(const char* s) { return strtof(s, nullptr); }
template <> double ref<double>(const char* s) { return strtod(s, nullptr); }
template <> long double ref<long double>(const char* s) { return strtold(s, nullptr); }
template <typename T> const char* tname();
template <> const char* tname<float>() { return "float"; }
template <> const char* tname<double>() { return "double"; }
template <> const char* tname<long double>() { return "long double"; }
template <typename T>
static void judge(const char* kind, const std::string& id, const std::string& in, Syn y, const Res<T>& r)
{
    auto say = [&](const std::string& x) { return std::string(kind) + " " + tname<T>() + " " + id + ": " + x; };
    char b[80];
    auto num = [&](T v) { snprintf(b, sizeof b, "%.25Lg", (long double)v); return std::string(b); };
    if (y.kind == 0) {
        if (r.ok) fail("float-accepted", say("accepted as " + num(r.v)));
        else if (r.code != (int)E::invalid_scanned_value && r.code != (int)E::end_of_input) fail("float-error", say(std::string("error ") + code_name(r.code) + ", expected invalid_scanned_value"));
        return;
    }
    auto t = in.substr(0, y.len);
    bool neg = t[0] == '-';
    if (y.kind == 5) {
        t.insert(neg || t[0] == '+' ? 1 : 0, "0x");
        y.kind = 2;
    }
    if (y.kind == 4) t = t.substr(0, (t[0] == '-' || t[0] == '+') + 3);
    T want = ref<T>(t.c_str());
    if (y.kind <= 2 && std::isinf(want)) {
        int c = neg ? E::value_negative_overflow : E::value_positive_overflow;
        if (r.ok || r.code != c) fail("float-overflow", say(r.ok ? "stored " + num(r.v) : std::string("error ") + code_name(r.code)) + ", expected " + code_name(c));
        return;
    }
    bool nonzero = false;
    if (y.kind <= 2)
        for (size_t i = (y.kind == 2 ? t.find_first_of("xX") + 1 : 0); i < t.size() && (t[i] | 32) != (y.kind == 2 ? 'p' : 'e'); ++i)
            if (t[i] != '0' && (y.kind == 2 ? hx(t[i]) : dg(t[i]))) nonzero = true;
    int uc = neg ? E::value_negative_underflow : E::value_positive_underflow;
    if (want == 0 && nonzero) {
        if (r.ok || r.code != uc) fail("float-underflow", say(r.ok ? "stored " + num(r.v) : std::string("error ") + code_name(r.code)) + ", expected " + code_name(uc));
        return;
    }
    bool subnormal = nonzero && y.kind <= 2 && std::fabs(want) <= std::numeric_limits<T>::min();
    if (!r.ok) {
        if (subnormal && r.code == uc) return;  // reporting a subnormal as underflow is allowed
        fail("float-rejected", say(std::string("rejected with ") + code_name(r.code) + ", expected " + num(want)));
        return;
    }
    bool same = y.kind == 4 ? std::isnan(r.v) : (r.v == want && std::signbit(r.v) == std::signbit(want));
    if (!same) fail("float-value", say("got " + num(r.v)) + ", expected " + num(want));
    else if (r.used != y.len) fail("float-consumed", say("consumed " + std::to_string(r.used) + ", expected " + std::to_string(y.len)));
}
template <typename T>
static void one(const std::string& in, bool srcs = true)
{
    if (!in.empty() && (in[0] == ' ' || in[0] == '\n')) return;
    std::vector<const char*> fs = {"{}"};
    if (srcs) fs = {"{}", "{:g}", "{:e}", "{:f}", "{:a}"};
    auto w = widen(in);
    for (auto f : fs) {
        auto y = syntax(in, f[1] == ':' ? f[2] : 0);
        if (y.skip) continue;
        auto id = std::string(f) + " on " + show(std::string_view(in.size() > 120 ? in.substr(0, 100) + "...(" + std::to_string(in.size()) + " chars)" : in));
        at(id + std::string(" ") + tname<T>());
        ++cases;
        judge<T>("narrow", id, in, y, narrow<T>(in, f));
        judge<T>("wide", id, in, y, wide<T>(w, widen(f)));
        if (srcs) judge<T>("deque", id, in, y, deq<T>(in, f));
    }
}
static void three(const std::string& in, bool srcs = true)
{
    one<double>(in, srcs);
    one<float>(in, srcs);
    one<long double>(in, srcs);
}
// exact decimal expansion of a double or of the midpoint to its successor
static std::string exact(long double v)
{
    char b[1400];
    snprintf(b, sizeof b, "%.1100Lf", v);
    std::string s = b;
    while (s.back() == '0') s.pop_back();
    if (s.back() == '.') s += '0';
    return s;
}
void vp_run()
{
    words({"0", "1", "9", "5", ".", "e", "E", "+", "-", "x", "inf", "inity", "nan", "p", "a", ",", "z", "(", ")"}, thorough ? 5 : 4, [](const std::string& s) { three(s); });
    Rng r(seed * 13 + shard);
    // limits
    if (shard == 0) {
        char b[200];
        for (int sg = 0; sg < 2; ++sg)
            for (std::string s : {"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.8e308", "1e309", "1e400", "1e99999", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2e-324", "1e-400", "1e-99999",
                                  "3.4028234e38", "3.4028235e38", "3.4028236e38", "3.5e38", "1e39", "1.4e-45", "7.006e-46", "7.01e-46", "1e-46", "1.18973149535723176502e4932", "1.2e4932", "1e4933", "3.6e-4951", "1e-4952", "0e999", "0.0e-999", "-0", "0", "00012.5", "1e0000000000000000001", "0x1p-1074", "0x1p-1075",
                                  "0x1p1023", "0x1p1024", "0x1.fffffffffffff8p1023", "0x1.fffffffffffff7p1023", "0x0p9999", "0x1.8", "0xA.8p1", "0x1p-149", "0x1p-150", "0x1p128", "123456789012345678901234567890", "0.000000000000000000000000000001"})
                for (const char* t : {"", "x", " 1", "e", "e+", ".", "..1", "p3"}) three((sg ? "-" : "") + s + t);
        for (int e = -330; e <= 312; ++e) {
            snprintf(b, sizeof b, "1e%d", e);
            three(b, false);
            snprintf(b, sizeof b, "9.999999999999999999e%d", e);
            three(b, false);
        }
    }
    unsigned n = thorough ? 20000 : 1500;
    for (unsigned k = 0; k < n; ++k) {
        uint64_t bits = r.next();
        if (k % 3 == 0) bits = (bits & 0x800fffffffffffffull) | ((uint64_t)(1023 + (int)r.below(60) - 30) << 52);
        double d;
        memcpy(&d, &bits, 8);
        if (!std::isfinite(d)) continue;
        char b[64];
        snprintf(b, sizeof b, "%.*g", (int)r.below(25) + 1, d);
        three(b, k % 8 == 0);
        snprintf(b, sizeof b, "%a", d);
        one<double>(b, k % 8 == 0);
        if (k % 4) continue;
        // halfway points and their neighbours
        if (std::fabs(d) < 1e300 && std::fabs(d) > 1e-300) {
            long double m = ((long double)d + (long double)std::nextafter(d, INFINITY)) / 2;
            auto s = exact(m);
            one<double>(s, false);
            one<double>(s + "0000000001", false);
            auto q = s;
            if (q.back() > '0') { q.back()--; q += "9999999999"; one<double>(q, false); }
            float f = (float)d;
            if (std::isfinite(f) && std::fabs(f) > 1e-30f && std::fabs(f) < 1e30f) {
                double fm = ((double)f + (double)std::nextafter(f, INFINITY)) / 2;
                auto u = exact(fm);
                one<float>(u, false);
                one<float>(u + "000000000000000000001", false);
            }
        }
        std::string dig;
        unsigned l = 1 + (unsigned)r.below(k % 64 == 0 ? 800 : 40);
        for (unsigned i = 0; i < l; ++i) dig += (char)('0' + r.below(10));
        if (r.below(2)) dig.insert(1 + r.below(dig.size()), ".");
        if (r.below(2)) dig += "e" + std::to_string((int)r.below(620) - 310);
        if (r.below(3) == 0) dig += "xyz";
        three(dig, k % 16 == 0);
    }
    sample("\"1.7976931348623159e308\" -> value_positive_overflow; \"1.5e+x\" -> 1.5, rest \"e+x\"; exact midpoints of adjacent doubles");
}
void vp_replay(const std::string&, const std::string&, const std::vector<uint64_t>&) {}
