// P15: dates and times: stored numbers, ranges, names, combination of fields; an independent reading of the format
#include "vp.hpp"
#include <scn/scan.h>
#include <scn/chrono.h>
#include <scn/xchar.h>
#include <deque>
#include <optional>
#include <cmath>
using namespace vp;
struct Want {
    std::optional<int> sec, min, hour, mday, mon, year, wday, yday, tz;  // mon 1..12, year with century
    std::optional<double> sub;
    std::string zone;
    bool ok = true;
    bool unsure = false;  // not judged
    size_t used = 0;
};
struct Reader {
    std::string_view s;
    size_t p = 0;
    Want w;
    std::optional<int> cent, shrt, h12;
    std::optional<bool> pm;
    bool num(int lo, int hi, int& v)
    {
        int n = 0;
        v = 0;
        while (p < s.size() && n < hi && s[p] >= '0' && s[p] <= '9') { v = v * 10 + (s[p++] - '0'); ++n; }
        return n >= lo;
    }
    static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
    bool lit(std::string_view t)
    {
        if (s.size() - p < t.size()) return false;
        for (size_t i = 0; i < t.size(); ++i) if (low(s[p + i]) != low(t[i])) return false;
        p += t.size();
        return true;
    }
    bool exact(char c) { if (p < s.size() && s[p] == c) { ++p; return true; } return false; }
    void ws() { while (p < s.size() && (s[p] == ' ' || (s[p] >= 9 && s[p] <= 13))) ++p; }
    bool in(std::optional<int>& f, int v, int lo, int hi) { if (v < lo || v > hi) return false; f = v; return true; }
    bool conv(char c)
    {
        static const char* mons[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
        static const char* days[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
        int v;
        switch (c) {
            case 'Y': return num(4, 4, v) && in(w.year, v, 0, 9999);
            case 'y': if (!num(2, 2, v)) return false; shrt = v; return true;
            case 'C': if (!num(2, 2, v)) return false; cent = v; return true;
            case 'm': return num(1, 2, v) && in(w.mon, v, 1, 12);
            case 'd': case 'e': return num(1, 2, v) && in(w.mday, v, 1, 31);
            case 'j': return num(1, 3, v) && in(w.yday, v - 1, 0, 365);
            case 'H': case 'k': return num(1, 2, v) && in(w.hour, v, 0, 23);
            case 'I': case 'l': return num(1, 2, v) && in(h12, v, 1, 12);
            case 'M': return num(1, 2, v) && in(w.min, v, 0, 59);
            case 'S': return num(1, 2, v) && in(w.sec, v, 0, 60);
            case 'w': return num(1, 1, v) && in(w.wday, v, 0, 6);
            case 'u': if (!num(1, 1, v) || v < 1 || v > 7) return false; w.wday = v % 7; return true;
            case 'b': case 'B': case 'h':
                for (int full = 1; full >= 0; --full)
                    for (int i = 0; i < 12; ++i)
                        if (lit(full ? std::string_view(mons[i]) : std::string_view(mons[i], 3))) { w.mon = i + 1; return true; }
                return false;
            case 'a': case 'A':
                for (int full = 1; full >= 0; --full)
                    for (int i = 0; i < 7; ++i)
                        if (lit(full ? std::string_view(days[i]) : std::string_view(days[i], 3))) { w.wday = i; return true; }
                return false;
            case 'p':
                if (lit("a.m.") || lit("am")) { pm = false; return true; }
                if (lit("p.m.") || lit("pm")) { pm = true; return true; }
                return false;
            case 'z': {
                bool neg = false;
                if (p < s.size() && (s[p] == '+' || s[p] == '-')) neg = s[p++] == '-';
                int h, m = 0;
                if (!num(2, 2, h)) return false;
                size_t q = p;
                if (p < s.size() && s[p] == ':') ++p;
                if (p < s.size() && s[p] >= '0' && s[p] <= '9') { if (!num(2, 2, m) || m > 59) return false; }
                else p = q;
                w.tz = (neg ? -1 : 1) * (h * 60 + m);
                if (h > 24) w.unsure = true;
                return true;
            }
            case 'Z': {
                size_t q = p;
                while (p < s.size() && (isalnum((unsigned char)s[p]) || strchr("-+_/", s[p]))) ++p;
                w.zone = std::string(s.substr(q, p - q));
                return p > q;
            }
            case 'T': case 'X': return conv('H') && exact(':') && conv('M') && exact(':') && conv('S');
            case 'R': return conv('H') && exact(':') && conv('M');
            case 'F': return conv('Y') && exact('-') && conv('m') && exact('-') && conv('d');
            case 'D': return conv('m') && exact('/') && conv('d') && exact('/') && conv('y');
            case 'x': return conv('m') && exact('/') && conv('d') && exact('/') && conv('Y');
            case 'r': { if (!(conv('I') && exact(':') && conv('M') && exact(':') && conv('S'))) return false; ws(); return conv('p'); }
            case 'c': {
                if (!conv('a')) return false;
                ws();
                if (!conv('b')) return false;
                ws();
                if (!conv('d')) return false;
                ws();
                if (!conv('T')) return false;
                ws();
                return conv('Y');
            }
            case '%': return exact('%');
            case 'n': case 't': ws(); return true;
        }
        abort();
    }
    // f: body of the field, conversions and literal text
    Want run(std::string_view f)
    {
        ws();  // as before every field
        for (size_t i = 0; i < f.size() && w.ok; ++i) {
            if (f[i] == '%' && f[i + 1] == '.') {
                i += 2;
                if (!conv('S') || !exact('.')) { w.ok = false; break; }
                size_t q = p;
                while (p < s.size() && s[p] >= '0' && s[p] <= '9') ++p;
                if (p == q) { w.ok = false; break; }
                w.sub = strtod(("0." + std::string(s.substr(q, p - q))).c_str(), nullptr);
                if (*w.sub >= 1.0) w.sub = std::nextafter(1.0, 0.0);
            }
            else if (f[i] == '%') w.ok = conv(f[++i]);
            else if (f[i] == ' ') ws();
            else w.ok = exact(f[i]);
        }
        if (shrt && cent) w.year = *cent * 100 + *shrt;
        else if (shrt) w.year = (*shrt >= 69 ? 1900 : 2000) + *shrt;
        else if (cent) w.year = *cent * 100;
        if (h12) w.hour = pm ? (*pm ? (*h12 == 12 ? 12 : *h12 + 12) : (*h12 == 12 ? 0 : *h12)) : *h12;
        w.used = p;
        return w;
    }
};
static std::string tm_text(const std::tm& t)
{
    char b[200];
    snprintf(b, sizeof b, "sec %d min %d hour %d mday %d mon %d year %d wday %d yday %d gmtoff %ld", t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon, t.tm_year, t.tm_wday, t.tm_yday, t.tm_gmtoff);
    return b;
}
static bool tm_same(const std::tm& t, const Want& w)
{
    auto o = [](const std::optional<int>& x, int d = 0) { return x ? *x + d : 0; };
    return t.tm_sec == o(w.sec) && t.tm_min == o(w.min) && t.tm_hour == o(w.hour) && t.tm_mday == o(w.mday) && t.tm_mon == o(w.mon, -1) && t.tm_year == o(w.year, -1900) && t.tm_wday == o(w.wday) && t.tm_yday == o(w.yday) &&
           (!w.tz || t.tm_gmtoff == *w.tz * 60);
}
static bool dt_same(const scn::datetime_components& t, const Want& w)
{
    auto e = [](auto& a, const std::optional<int>& b) { return bool(a) == bool(b) && (!a || (int)*a == *b); };
    std::optional<int> mon, wday, tz;
    if (t.mon) mon = (int)(unsigned)*t.mon;
    if (t.wday) wday = (int)t.wday->c_encoding();
    if (t.tz_offset) tz = (int)t.tz_offset->count();
    return e(t.sec, w.sec) && e(t.min, w.min) && e(t.hour, w.hour) && e(t.mday, w.mday) && e(mon, w.mon) && e(t.year, w.year) && e(wday, w.wday) && e(t.yday, w.yday) && e(tz, w.tz) && bool(t.subsec) == bool(w.sub) &&
           (!w.sub || *t.subsec == *w.sub) && bool(t.tz_name) == !w.zone.empty() && (!t.tz_name || *t.tz_name == w.zone);
}
static void one(const std::string& body, const std::string& s)
{
    std::string f = "{:" + body + "}";
    auto id = show(std::string_view(f)) + " on " + show(std::string_view(s));
    at(id);
    ++cases;
    Want w = Reader{s}.run(body);
    if (w.unsure) return;
    std::vector<char> heap(s.begin(), s.end());
    std::string_view v{heap.data(), heap.size()};
    auto judge = [&](auto&& r, const char* what, auto same, size_t left) {
        if (bool(r) != w.ok) { fail(std::string("accept-") + what, std::string(what) + " " + id + (r ? " was accepted, must be rejected" : std::string(" was rejected (") + r.error().msg() + "), must be accepted")); return; }
        if (!r) return;
        if (!same(r->value())) fail(std::string("value-") + what, std::string(what) + " " + id + ": wrong fields stored");
        if (left != s.size() - w.used) fail(std::string("rest-") + what, std::string(what) + " " + id + ": " + std::to_string(left) + " characters left, expected " + std::to_string(s.size() - w.used));
    };
    bool tm_ok = !w.sub && body.find("%Z") == std::string::npos && body.find("%.") == std::string::npos;
    if (tm_ok) {
        auto r = scn::scan<std::tm>(v, scn::runtime_format(std::string_view(f)));
        judge(r, "tm", [&](const std::tm& t) { bool k = tm_same(t, w); if (!k) fail("fields-tm", id + ": " + tm_text(t)); return k; }, r ? r->range().size() : 0);
        std::deque<char> dq(s.begin(), s.end());
        auto q = scn::scan<std::tm>(dq, scn::runtime_format(std::string_view(f)));
        judge(q, "tm-deque", [&](const std::tm& t) { return tm_same(t, w); }, q ? (size_t)std::distance(q->range().begin(), q->range().end()) : 0);
        std::wstring ws(s.begin(), s.end()), wf(f.begin(), f.end());
        auto x = scn::scan<std::tm>(std::wstring_view(ws), scn::runtime_format(std::wstring_view(wf)));
        judge(x, "tm-wide", [&](const std::tm& t) { return tm_same(t, w); }, x ? (size_t)std::distance(x->range().begin(), x->range().end()) : 0);
    }
    if (body.find("%.") == std::string::npos) {
        auto r = scn::scan<scn::tm_with_tz>(v, scn::runtime_format(std::string_view(f)));
        judge(r, "tm_with_tz", [&](const scn::tm_with_tz& t) { return tm_same(t, w) && bool(t.tz_offset) == bool(w.tz) && (!w.tz || t.tz_offset->count() == *w.tz) && bool(t.tz_name) == !w.zone.empty() && (!t.tz_name || *t.tz_name == w.zone); },
              r ? r->range().size() : 0);
    }
    auto r = scn::scan<scn::datetime_components>(v, scn::runtime_format(std::string_view(f)));
    judge(r, "datetime_components", [&](const scn::datetime_components& t) { return dt_same(t, w); }, r ? r->range().size() : 0);
    // single components
    auto comp = [&](auto tag, bool set, auto same, const char* what) {
        using T = decltype(tag);
        auto q = scn::scan<T>(v, scn::runtime_format(std::string_view(f)));
        if (!set) { if (q) fail(std::string("unset-") + what, std::string(what) + " " + id + " was accepted though the format never sets it"); return; }
        judge(q, what, same, q ? q->range().size() : 0);
    };
    if (cases % 3 == 0) {
        comp(scn::weekday{}, !w.ok || w.wday, [&](scn::weekday x) { return w.wday && (int)x.c_encoding() == *w.wday; }, "weekday");
        comp(scn::day{}, !w.ok || w.mday, [&](scn::day x) { return w.mday && (int)(unsigned)x == *w.mday; }, "day");
        comp(scn::month{}, !w.ok || w.mon, [&](scn::month x) { return w.mon && (int)(unsigned)x == *w.mon; }, "month");
        comp(scn::year{}, !w.ok || w.year, [&](scn::year x) { return w.year && (int)x == *w.year; }, "year");
        comp(scn::year_month_day{}, !w.ok || (w.year && w.mon && w.mday), [&](scn::year_month_day x) { return w.year && (int)x.year() == *w.year && (int)(unsigned)x.month() == *w.mon && (int)(unsigned)x.day() == *w.mday; }, "year_month_day");
        comp(scn::month_day{}, !w.ok || (w.mon && w.mday), [&](scn::month_day x) { return w.mon && (int)(unsigned)x.month() == *w.mon && (int)(unsigned)x.day() == *w.mday; }, "month_day");
        comp(scn::year_month{}, !w.ok || (w.year && w.mon), [&](scn::year_month x) { return w.year && (int)x.year() == *w.year && (int)(unsigned)x.month() == *w.mon; }, "year_month");
    }
}
// a format that must be rejected whatever the source
static void bad(const std::string& body)
{
    std::string f = "{:" + body + "}";
    at("format " + f);
    ++cases;
    for (const char* s : {"10 10 10", "10:10:10", "2020 20 20", "Tue 10 10", "10 am 10", "+0100 UTC", "1010101010101010"}) {
        auto r = scn::scan<scn::datetime_components>(std::string_view(s), scn::runtime_format(std::string_view(f)));
        if (r) fail("contradiction", "contradictory format " + show(std::string_view(f)) + " accepted on " + show(std::string_view(s)));
    }
}
void vp_run()
{
    unsigned long long k = 0;
    auto mine = [&] { return k++ % shards == shard; };
    const std::string convs = "YyCmdejHkIlMSwu";
    // every number of every width for every numeric conversion, with text after it
    for (char c : convs)
        for (int width = 1; width <= 4; ++width)
            for (int v = 0; v < (width == 4 ? 10000 : width == 3 ? 1000 : width == 2 ? 100 : 10); v += (width == 4 && !thorough ? 37 : 1)) {
                if (!mine()) continue;
                char b[16];
                snprintf(b, sizeof b, "%0*d", width, v);
                one(std::string("%") + c, b);
                if (v % 7 == 0) { one(std::string("%") + c, std::string(b) + "x"); one(std::string("%") + c + "-%" + (c == 'M' ? 'S' : 'M'), std::string(b) + "-" + b); }
            }
    // names: every prefix and case pattern
    const char* names[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December", "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sept", "Juny", "Marchy", "Tues", "Mai"};
    for (std::string n : names)
        for (size_t l = 0; l <= n.size(); ++l)
            for (int cs = 0; cs < 3; ++cs)
                for (const char* tail : {"", " ", "x", "1", "\xc3\xa4"}) {
                    if (!mine()) continue;
                    std::string s = n.substr(0, l);
                    for (auto& ch : s) ch = cs == 1 ? (char)toupper(ch) : cs == 2 ? (char)tolower(ch) : ch;
                    one("%b", s + tail);
                    one("%a", s + tail);
                    one("%B %d", s + tail + " 7");
                    if (l) { std::string m = s; m[l - 1] ^= 0x40; one("%b", m); m = s; m[l - 1] ^= 1; one("%A", m); }
                }
    for (const char* s : {"am", "pm", "AM", "PM", "a.m.", "p.m.", "A.M.", "a.m", "p.m", "a", "p", "", "xm", "am.", "apm", "a\x0em\x0e", "Pm", "p.M."})
        for (int h = 0; h <= 13; ++h) {
            if (!mine()) continue;
            one("%I %p", std::to_string(h) + " " + s);
            one("%p %I", std::string(s) + " " + std::to_string(h));
            one("%I:%M %p", std::to_string(h) + ":59 " + s);
            one("%r", (h < 10 ? "0" : "") + std::to_string(h) + ":04:05 " + s);
        }
    for (int y = 0; y < 100; ++y)
        for (int c : {0, 1, 19, 20, 21, 99}) {
            if (!mine()) continue;
            char b[32];
            snprintf(b, sizeof b, "%02d%02d", c, y);
            one("%C%y", b);
            snprintf(b, sizeof b, "%02d%02d", y, c);
            one("%y%C", b);
            snprintf(b, sizeof b, "%02d/%02d/%02d", 1 + y % 12, 1 + y % 31, y);
            one("%D", b);
        }
    // time zones
    for (const char* sg : {"+", "-", "", "*"})
        for (int h : {0, 1, 9, 12, 14, 23, 24})
            for (int m : {0, 1, 30, 45, 59, 60, 99})
                for (const char* sep : {":", "", "::", ";", " "})
                    for (int cut = 0; cut < 4; ++cut) {
                        if (!mine()) continue;
                        char b[32];
                        snprintf(b, sizeof b, "%s%02d%s%02d", sg, h, sep, m);
                        std::string s(b);
                        s.resize(s.size() - (size_t)std::min<int>(cut, (int)s.size()));
                        one("%z", s);
                        one("%H %z", "3 " + s);
                    }
    for (const char* z : {"UTC", "Europe/Helsinki", "GMT+2", "", " UTC", "A_b-1", "X.Y", "\xc3\xa4"}) if (mine()) { one("%Z", z); one("%H %Z", std::string("5 ") + z); }
    // fractions
    for (const char* s : {"5.5", "5.", "5", ".5", "60.0", "61.0", "59.999999999999999999999999", "00.000000000000000000001", "07.25x", "7,5", "5.0", "-1.5", "5. 5", "9.123456789012345678", "99.1"}) if (mine()) { one("%.S", s); one("%M:%.S", std::string("3:") + s); }
    // composites with single edits
    const char* comp[][2] = {{"%T", "12:34:56"}, {"%R", "12:34"}, {"%F", "2021-02-03"}, {"%D", "02/03/21"}, {"%x", "02/03/2021"}, {"%X", "01:02:03"}, {"%r", "01:02:03 pm"}, {"%c", "Tue Jan 12 10:11:12 1999"}, {"%Y-%m-%dT%H:%M:%S", "2021-12-31T23:59:60"},
                             {"%d.%m.%Y %H:%M", "31.12.2021 23:59"}, {"%H%M", "1234"}, {"%j %Y", "366 2020"}, {"%Y%j", "2020001"}, {"%%%d", "%5"}, {"%n%d%t%m", " \n7 8"}, {"%d %b %y", "01 Feb 68"}, {"%a %H", "mon 3"}, {"%u/%H", "7/3"},
                             {"%F %T", "1999-12-31 23:59:59"}, {"%d\xc3\xa4%m", "1\xc3\xa4" "2"}, {"%d\xe2\x82\xac", "1\xe2\x82\xac"}, {"%m/%y", "12/69"}, {"%e %k", "7 8"}, {"%I", "12"}, {"%I %M", "12 30"}};
    for (auto& c : comp) {
        std::string f = c[0], s = c[1];
        one(f, s);
        for (size_t i = 0; i <= s.size(); ++i) {
            if (!mine()) continue;
            one(f, s.substr(0, i));
            for (char ch : std::string("0149 :-/.xA%\n")) {
                std::string t = s;
                t.insert(i, 1, ch);
                one(f, t);
                if (i < s.size()) { t = s; t[i] = ch; one(f, t); }
            }
            if (i < s.size()) { std::string t = s; t.erase(i, 1); one(f, t); }
        }
    }
    // contradictory formats: the same field twice, two clocks, two kinds of year or day
    const char* cls[] = {"Y", "y", "C", "m", "d", "H", "I", "M", "S", "j", "w", "z", "Z", "p"};
    for (auto a : cls) for (const char* sep : {" ", "", ":"}) if (mine()) bad(std::string("%") + a + sep + "%" + a);
    const char* pairs[][2] = {{"Y", "y"}, {"Y", "C"}, {"H", "I"}, {"d", "j"}, {"d", "w"}, {"j", "w"}, {"d", "a"}, {"w", "u"}, {"a", "u"}, {"T", "H"}, {"T", "M"}, {"F", "d"}, {"F", "Y"}, {"D", "y"}, {"D", "m"}, {"R", "M"}, {"z", "Z"}, {"H", "p"}, {"r", "H"}, {"c", "a"}, {"c", "Y"}};
    for (auto& p : pairs) for (const char* sep : {" ", "", ":"}) if (mine()) { bad(std::string("%") + p[0] + sep + "%" + p[1]); bad(std::string("%") + p[1] + sep + "%" + p[0]); }
    if (mine()) { bad("%a %d %j"); bad("%p"); bad("%p %M"); bad("%"); bad("%Q"); bad("%E"); bad("%Ed"); bad("%OY"); bad("%.M"); bad("x%d"); bad("%v"); bad(""); }
    sample("\"{:%I:%M %p}\" on \"12:59 am\" -> hour 0; \"{:%j}\" on \"366\" -> yday 365, \"367\" rejected; \"{:%C%y}\" on \"1985\" -> 1985");
}
void vp_replay(const std::string&, const std::string&, const std::vector<uint64_t>&) {}
