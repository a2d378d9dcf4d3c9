// P01: the value of an integer field is exact, or an out-of-range error
#include "intoracle.hpp"
using namespace vp;
static std::string to_base(unsigned __int128 v, int b)
{
    std::string s;
    do { s.insert(s.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[(int)(v % (unsigned)b)]); v /= (unsigned)b; } while (v);
    return s;
}
static std::string spec(int b)
{
    if (b == 10) return "{}";
    if (b == 16) return "{:x}";
    if (b == 8) return "{:o}";
    if (b == 2) return "{:b}";
    return "";  // other bases are reached through scan_int only
}
template <typename T>
static void scan_int_one(const std::string& in, int b)
{
    ++cases;
    at("scan_int", in);
    auto r = scn::scan_int<T>(in, b);
    Res<T> g;
    if (r) { g.ok = true; g.v = r->value(); g.used = in.size() - (size_t)std::distance(r->range().begin(), r->range().end()); }
    else g.code = (int)r.error().code();
    // no whitespace skipping differences: the inputs start with the number
    int_judge<T>("scan_int", in, "base " + std::to_string(b), b, std::is_signed_v<T>, g);
}
template <typename T>
static void one(const std::string& in, int b)
{
    ++cases;
    auto f = spec(b);
    if (f.empty()) return scan_int_one<T>(in, b);
    at("integer " + f, in);
    int_judge<T>("narrow", in, f, b, std::is_signed_v<T>, narrow<T>(in, f));
    int_judge<T>("deque", in, f, b, std::is_signed_v<T>, deq<T>(in, f));
    auto w = widen(in);
    int_judge<T>("wide", w, f, b, std::is_signed_v<T>, wide<T>(w, widen(f)));
}
template <typename T>
static void type_cases(Rng& rng)
{
    using L = std::numeric_limits<T>;
    for (int b = 2; b <= 36; ++b) {
        const bool main_base = b == 10 || b == 16 || b == 8 || b == 2 || b == 3 || b == 7 || b == 36;
        std::vector<unsigned __int128> vals;
        unsigned __int128 mx = (unsigned __int128)L::max();
        for (int d = -3; d <= 3; ++d) vals.push_back(mx + (unsigned __int128)(__int128)d);
        vals.push_back((unsigned __int128)1 << 64);
        vals.push_back(((unsigned __int128)1 << 64) - 1);
        vals.push_back(((unsigned __int128)1 << 64) + 5);
        // values that wrap around to anything, small or large
        for (unsigned m = 1; m <= 9; ++m)
            for (int j = 0; j < (main_base ? 64 : 24); ++j) {
                vals.push_back(((unsigned __int128)m << 64) + rng.next());
                vals.push_back(((unsigned __int128)m << 64) + (rng.next() >> (rng.below(40))));
            }
        // the wrap-around zone: d * b^k + small, for every leading digit
        unsigned __int128 p = 1;
        while (p < ((unsigned __int128)1 << 66)) {
            for (int d = 1; d < b; ++d) {
                vals.push_back(p * (unsigned)d);
                vals.push_back(p * (unsigned)d + (p - 1));
                vals.push_back(p * (unsigned)d + (((unsigned __int128)rng.next() << 3) % p));
            }
            p *= (unsigned)b;
        }
        unsigned idx = 0;
        for (auto v : vals) {
            if (idx++ % shards != shard) continue;
            auto s = to_base(v, b);
            one<T>(s, b);
            if (main_base) scan_int_one<T>(s, b);
            one<T>("-" + s, b);
            if (idx % 3 == 0) {
                one<T>(std::string(1 + rng.below(30), '0') + s, b);
                one<T>("+" + s + " tail", b);
                one<T>("-" + std::string(rng.below(9), '0') + s + std::string(1, "0189agzG,.x"[rng.below(11)]), b);
            }
        }
        int n = (thorough ? 6000 : 500) / (main_base ? 1 : 8);
        for (int i = 0; i < n; ++i) {
            std::string s;
            if (rng.below(3) == 0) s += '-';
            if (rng.below(4) == 0) s += std::string(rng.below(20), '0');
            size_t len = 1 + rng.below(L::digits * 2 / (b < 4 ? 1 : 3) + 4);
            for (size_t k = 0; k < len; ++k) {
                char c = "0123456789abcdefghijklmnopqrstuvwxyz"[rng.below((unsigned)b)];
                if (rng.below(2) && c >= 'a') c = (char)(c - 32);
                s += c;
            }
            if (rng.below(3) == 0) s += " 9-z:"[rng.below(5)];
            one<T>(s, b);
        }
    }
}
void vp_run()
{
    Rng rng(seed * 1000 + shard);
    type_cases<int>(rng);
    type_cases<long>(rng);
    type_cases<unsigned long>(rng);
    type_cases<signed char>(rng);
    type_cases<unsigned char>(rng);
    type_cases<short>(rng);
    type_cases<unsigned short>(rng);
    type_cases<unsigned>(rng);
    type_cases<long long>(rng);
    type_cases<unsigned long long>(rng);
    // every decimal string of up to 4 (6) symbols over a hostile alphabet
    words({"0", "1", "2", "7", "9", "-", "+", " ", ":"}, thorough ? 6 : 4, [](const std::string& s) {
        if (!s.empty() && s[0] == ' ') return;
        one<signed char>(s, 10);
        one<unsigned char>(s, 10);
    });
    // all eight-character windows around a digit run: the word-at-a-time path must stop exactly
    for (int pos = 0; pos < 20; ++pos)
        for (int c = 0; c < 256; ++c) {
            if ((unsigned)c % shards != shard) continue;
            std::string s = "12345678901234567890";
            s[(size_t)pos] = (char)c;
            if (pos == 0 && (c == ' ' || (c >= 9 && c <= 13))) continue;
            ++cases;
            at("decimal window", s);
            int_judge<unsigned long>("narrow", s, "{}", 10, false, narrow<unsigned long>(s, "{}"));
            int_judge<long long>("narrow", s, "{}", 10, true, narrow<long long>(s, "{}"));
        }
    sample("scan<int>(\"2147483648\") -> value_positive_overflow; scan<unsigned long>(\"36893488147419103232\") -> value_positive_overflow");
}
void vp_replay(const std::string& fn, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg != "s") return;
    std::string s(d.begin(), d.end());
    for (auto b : {10, 16, 8, 2, 36}) {
        one<signed char>(s, b); one<short>(s, b); one<int>(s, b); one<long>(s, b);
        one<unsigned char>(s, b); one<unsigned short>(s, b); one<unsigned>(s, b); one<unsigned long>(s, b);
        one<int>("-" + s, b); one<long>("-" + s, b); one<signed char>("-" + s, b);
    }
}
