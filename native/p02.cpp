// P02: integer field syntax: sign, base prefix, digits, and nothing else is consumed
#include "intoracle.hpp"
using namespace vp;
template <typename T>
static void one(const std::string& in, const char* f, int base, bool minus)
{
    at(std::string("integer ") + f, in);
    minus = minus && std::is_signed_v<T>;
    int_judge<T>("narrow", in, f, base, minus, narrow<T>(in, f));
    int_judge<T>("deque", in, f, base, minus, deq<T>(in, f));
    auto w = widen(in);
    int_judge<T>("wide", w, f, base, minus, wide<T>(w, widen(f)));
}
struct P { const char* f; int base; bool minus; };
static const P pres[] = {{"{}", 10, true}, {"{:d}", 10, true}, {"{:i}", 0, true}, {"{:u}", 10, false}, {"{:x}", 16, true},
                         {"{:X}", 16, true}, {"{:o}", 8, true}, {"{:b}", 2, true}, {"{:B}", 2, true}};
void vp_run()
{
    std::vector<std::string> al = {"0", "1", "7", "8", "9", "a", "F", "g", "x", "X", "b", "B", "o", "O", "+", "-", " "};
    words(al, thorough ? 5 : 4, [](const std::string& s) {
        if (!s.empty() && s[0] == ' ') return;
        for (auto& p : pres) {
            one<int>(s, p.f, p.base, p.minus);
            if (s.size() <= 3 || thorough) one<unsigned long>(s, p.f, p.base, p.minus);
            if (s.size() <= 3) one<signed char>(s, p.f, p.base, p.minus);
        }
    });
    // any single byte at every place of a prefixed number (case folding, look-alikes)
    const char* shapes[] = {"-0x1f", "0b101", "+0o17", "017", "12"};
    for (auto sh : shapes)
        for (size_t i = 0; sh[i]; ++i)
            for (int c = 0; c < 128; ++c) {
                if ((unsigned)c % shards != shard) continue;
                std::string s = sh;
                s[i] = (char)c;
                if (s[0] == ' ' || (s[0] >= 9 && s[0] <= 13)) continue;
                ++cases;
                for (auto& p : pres) one<long>(s, p.f, p.base, p.minus);
            }
    // wide code units outside Latin-1 never count as digits, signs or prefixes
    for (uint32_t add : {0x100u, 0x10000u, 0xff00u, 0x660u})
        for (auto sh : shapes)
            for (size_t i = 0; sh[i]; ++i) {
                auto w = widen(sh);
                w[i] = (wchar_t)((uint32_t)w[i] + add);
                ++cases;
                for (auto& p : pres)
                    int_judge<int>("wide", w, p.f, p.base, p.minus, wide<int>(w, widen(p.f)));
            }
    sample("scan<int>(\"0x1fg\", \"{:i}\") -> 31, rest \"g\"; scan<int>(\"08\", \"{:i}\") -> 0, rest \"8\"");
}
void vp_replay(const std::string& fn, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg != "s") return;
    std::string s;
    for (auto c : d) s += (char)(c < 128 ? c : '?');
    for (auto& p : pres) {
        one<int>(s, p.f, p.base, p.minus);
        one<unsigned long>(s, p.f, p.base, p.minus);
        one<signed char>(s, p.f, p.base, p.minus);
    }
}
