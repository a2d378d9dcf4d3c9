// P11: which argument each field scans into, for any number and order of arguments
#include "api.hpp"
#include "fmtoracle.hpp"
using namespace vp;
using E = scn::scan_error;
template <size_t>
using I = int;
template <size_t... N>
static auto tup(std::index_sequence<N...>) -> std::tuple<I<N>...>;
template <size_t N>
struct Runner;
template <size_t N>
struct Got {
    bool ok = false;
    int code = 0;
    std::vector<int> v;
};
template <size_t N, size_t... K>
static Got<N> go(std::string_view src, std::string_view f, std::index_sequence<K...>)
{
    Got<N> g;
    auto r = scn::scan<I<K>...>(src, scn::runtime_format(f));
    if (!r) { g.code = (int)r.error().code(); return g; }
    g.ok = true;
    std::apply([&](auto... x) { (g.v.push_back(x), ...); }, r->values());
    return g;
}
template <size_t N, size_t... K>
static Got<N> gow(std::wstring_view src, std::wstring_view f, std::index_sequence<K...>)
{
    Got<N> g;
    auto r = scn::scan<I<K>...>(src, scn::runtime_format(f));
    if (!r) { g.code = (int)r.error().code(); return g; }
    g.ok = true;
    std::apply([&](auto... x) { (g.v.push_back(x), ...); }, r->values());
    return g;
}
template <size_t N, size_t... K>
static Got<N> god(const std::deque<char>& src, std::string_view f, std::index_sequence<K...>)
{
    Got<N> g;
    auto r = scn::scan<I<K>...>(src, scn::runtime_format(f));
    if (!r) { g.code = (int)r.error().code(); return g; }
    g.ok = true;
    std::apply([&](auto... x) { (g.v.push_back(x), ...); }, r->values());
    return g;
}
// ids: what each field names (-1: automatic); the k-th field reads 100 + k
template <size_t N>
static void one(const std::vector<long>& ids, int style = 0)
{
    std::string f, src;
    std::vector<int> want(N, -1);
    bool bad = false, any_auto = false, any_man = false;
    std::vector<bool> seen(N);
    long next = 0;
    for (size_t k = 0; k < ids.size(); ++k) {
        std::string spec = style == 1 ? ":d" : style == 2 ? (k % 2 ? ":i" : "") : "";
        f += "{" + (ids[k] < 0 ? std::string() : std::to_string(ids[k])) + spec + "} ";
        src += std::to_string(100 + k) + " ";
        (ids[k] < 0 ? any_auto : any_man) = true;
        long id = ids[k] < 0 ? next++ : ids[k];
        if (id >= (long)N || seen[(size_t)id]) { bad = true; continue; }
        seen[(size_t)id] = true;
        want[(size_t)id] = (int)(100 + k);
    }
    if (any_auto && any_man) bad = true;
    for (auto s : seen) if (!s) bad = true;
    f.pop_back();
    auto id = std::to_string(N) + " arguments, format " + show(std::string_view(f));
    at(id);
    ++cases;
    auto judge = [&](const char* kind, const Got<N>& g) {
        if (bad) {
            if (g.ok || g.code != (int)E::invalid_format_string) fail("arg-accepted", std::string(kind) + " " + id + (g.ok ? ": accepted" : ": error " + std::string(code_name(g.code))) + ", expected invalid_format_string");
        }
        else if (!g.ok) fail("arg-rejected", std::string(kind) + " " + id + ": rejected with " + code_name(g.code));
        else if (g.v != want) {
            std::string s;
            for (size_t k = 0; k < N; ++k) if (g.v[k] != want[k]) s += " argument " + std::to_string(k) + " got " + std::to_string(g.v[k]) + " not " + std::to_string(want[k]);
            fail("arg-value", std::string(kind) + " " + id + ":" + s);
        }
    };
    judge("narrow", go<N>(src, f, std::make_index_sequence<N>{}));
    if constexpr (N < 9) judge("wide", gow<N>(widen(src), widen(f), std::make_index_sequence<N>{}));
    if constexpr (N < 9 || N == 72) judge("deque", god<N>(std::deque<char>(src.begin(), src.end()), f, std::make_index_sequence<N>{}));
}
template <size_t N>
static void small()
{
    // every list of up to N + 1 fields over automatic and 0..N
    std::vector<long> ids;
    unsigned long long n = 0;
    std::function<void()> rec = [&] {
        if (!ids.empty() && n++ % shards == shard) one<N>(ids, (int)(n % 3));
        if (ids.size() > N) return;
        for (long x = -1; x <= (long)N; ++x) {
            ids.push_back(x);
            rec();
            ids.pop_back();
        }
    };
    rec();
}
template <size_t N>
static void big(Rng& r, unsigned rounds)
{
    std::vector<long> id(N);
    auto iota = [&] { for (size_t k = 0; k < N; ++k) id[k] = (long)k; };
    std::vector<long> au(N, -1);
    one<N>(au);
    iota();
    one<N>(id);
    std::reverse(id.begin(), id.end());
    one<N>(id);
    { auto x = au; x.pop_back(); if (!x.empty()) one<N>(x); }
    { auto x = au; x.push_back(-1); one<N>(x); }
    { auto x = id; x.push_back((long)N); one<N>(x); }
    for (long far : {(long)N, (long)N + 1, 63l, 64l, 65l, 71l, 72l, 127l, 128l, 255l, 256l, 4096l, 2147483647l})
        if (far >= (long)N) { iota(); id[r.below(N)] = far; one<N>(id); }
    for (unsigned k = 0; k < rounds; ++k) {
        iota();
        for (size_t i = N - 1; i > 0; --i) std::swap(id[i], id[r.below(i + 1)]);
        one<N>(id, (int)r.below(3));
        auto d = id;
        d[r.below(N)] = (long)r.below(N);  // usually a duplicate and a missing one
        one<N>(d, (int)r.below(3));
        d = id;
        d.erase(d.begin() + (long)r.below(N));  // one left out
        if (!d.empty()) one<N>(d);
        d = id;
        d[r.below(N)] = -1;  // mixed
        one<N>(d);
        d = au;
        d[r.below(N)] = (long)r.below(N);
        one<N>(d);
    }
    // each argument left out, each named twice
    for (size_t k = 0; k < N; ++k) {
        iota();
        id.erase(id.begin() + (long)k);
        if (!id.empty()) one<N>(id);
        id.insert(id.begin(), (long)((k + 1) % N));
        one<N>(id);
        iota();
        id.resize(N);
        id.push_back((long)k);
        one<N>(id);
        id.pop_back();
    }
}
void vp_run()
{
    Rng r(seed * 5 + shard);
    small<1>();
    small<2>();
    small<3>();
    unsigned n = thorough ? 60 : 6;
    if (shard == 0) { big<4>(r, n * 4); big<64>(r, n); }
    if (shard == 1 % shards) { big<8>(r, n); big<65>(r, n); }
    if (shard == 2 % shards) { big<71>(r, n); }
    if (shard == 3 % shards) { big<72>(r, n); }
    sample("2 arguments, \"{1} {0}\" on \"100 101\" -> (101, 100); \"{} {1}\" -> invalid_format_string; 72 arguments in reverse order");
}
void vp_replay(const std::string&, const std::string&, const std::vector<uint64_t>&) {}
