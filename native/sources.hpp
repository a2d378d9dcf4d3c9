// One text, every kind of source: run a scan and report values, error and unread rest.
#pragma once
#include "api.hpp"
#include <cstdio>
#include <list>
#include <memory>
namespace vp {
template <typename... T>
struct Out {
    bool ok = false;
    int code = 0;
    std::tuple<T...> v{};
    size_t used = 0;
    std::string rest;  // what a file still holds
};
// NaN-tolerant equality
template <typename T>
bool eq(const T& a, const T& b) { return a == b; }
inline bool eq(double a, double b) { return a == b || (a != a && b != b); }
template <typename... T, size_t... K>
bool eqt(const std::tuple<T...>& a, const std::tuple<T...>& b, std::index_sequence<K...>) { return (eq(std::get<K>(a), std::get<K>(b)) && ...); }
template <typename... T>
bool same(const Out<T...>& a, const Out<T...>& b)
{
    if (a.ok != b.ok) return false;
    if (!a.ok) return a.code == b.code;
    return a.used == b.used && eqt(a.v, b.v, std::index_sequence_for<T...>{});
}
template <typename... T>
std::string tell(const Out<T...>& a)
{
    if (!a.ok) return std::string("error ") + code_name(a.code);
    std::string s = "consumed " + std::to_string(a.used) + ", values";
    auto f = [&](auto& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<X, std::string>) s += " " + show(std::string_view(x));
        else if constexpr (std::is_arithmetic_v<X>) s += " " + std::to_string(x);
        else s += " ?";
    };
    std::apply([&](auto&... x) { (f(x), ...); }, a.v);
    return s;
}
template <typename... T, typename S>
Out<T...> run_range(const S& src, size_t n, std::string_view f)
{
    Out<T...> o;
    auto r = scn::scan<T...>(src, scn::runtime_format(f));
    if (!r) { o.code = (int)r.error().code(); return o; }
    o.ok = true;
    o.used = n - (size_t)std::distance(std::begin(r->range()), std::end(r->range()));
    o.v = std::move(r->values());
    return o;
}
struct File {
    std::string data;
    std::vector<char> vb;
    FILE* f = nullptr;
    File(std::string_view s, size_t buf) : data(s), vb(buf)
    {
        f = data.empty() ? fopen("/dev/null", "r") : fmemopen(data.data(), data.size(), "r");
        if (!f) abort();
        if (buf) setvbuf(f, vb.data(), _IOFBF, buf);
    }
    File(const File&) = delete;
    ~File() { fclose(f); }
    std::string rest()
    {
        std::string o;
        int c;
        while ((c = getc(f)) != EOF) o += (char)c;
        return o;
    }
};
template <typename... T>
Out<T...> run_file(std::string_view s, std::string_view f, size_t buf)
{
    File x(s, buf);
    Out<T...> o;
    auto r = scn::scan<T...>(x.f, scn::runtime_format(f));
    if (r) { o.ok = true; o.v = std::move(r->values()); }
    else o.code = (int)r.error().code();
    o.rest = x.rest();
    o.used = s.size() - std::min(s.size(), o.rest.size());
    return o;
}
}  // namespace vp
