// Bounded stand-ins: enumerate inputs, compare the real code with an independent oracle.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <string>
#include <string_view>
#include <vector>
#include <functional>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <algorithm>

namespace vp {
inline bool thorough = false;
inline uint64_t seed = 1;
inline unsigned shard = 0, shards = 1;
inline unsigned long long cases = 0;
inline unsigned fails = 0;
inline char current[4096];
inline std::set<std::string> fail_keys;

inline std::string show(std::string_view s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c >= 32 && c < 127) o += (char)c;
        else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    return o + "\"";
}
inline std::string show(std::wstring_view s)
{
    std::string o = "L\"";
    for (wchar_t c : s) {
        char b[16];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') o += (char)c;
        else { snprintf(b, sizeof b, "\\u{%x}", (unsigned)c); o += b; }
    }
    return o + "\"";
}
// describe the case about to run, so a crash names its input
inline void at(std::string_view what)
{
    size_t n = what.size() < sizeof(current) - 1 ? what.size() : sizeof(current) - 1;
    memcpy(current, what.data(), n);
    current[n] = 0;
    alarm(60);  // a single case that runs this long does not end
}
inline void at(std::string_view what, std::string_view in)
{
    std::string s(what);
    s += ' ';
    s += show(in);
    at(s);
}
inline void fail(const std::string& key, const std::string& text)
{
    ++fails;
    if (fail_keys.count(key) && fails > 40) return;
    fail_keys.insert(key);
    if (fails < 400) { printf("FAIL %s :: %s\n", key.c_str(), text.c_str()); fflush(stdout); }
}
inline void death()
{
    // async-signal-safe enough: report the case that was running
    char buf[4400];
    int n = snprintf(buf, sizeof buf, "FAIL crash :: the library aborted or hit a sanitizer error on: %s\n", current);
    if (n > 0) { ssize_t r = write(1, buf, (size_t)(n < (int)sizeof buf ? n : (int)sizeof buf - 1)); (void)r; }
}
inline void on_signal(int s)
{
    death();
    signal(s, SIG_DFL);
    raise(s);
}
inline void on_alarm(int)
{
    char buf[4400];
    int n = snprintf(buf, sizeof buf, "FAIL hang :: the library did not return within 60 s on: %s\n", current);
    if (n > 0) { ssize_t r = write(1, buf, (size_t)(n < (int)sizeof buf ? n : (int)sizeof buf - 1)); (void)r; }
    _exit(1);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
inline void sample(const std::string& s)
{
    static int n = 0;
    if (shard == 0 && n++ < 6) printf("SAMPLE %s\n", s.c_str());
}
// every word over `alphabet` (symbols may be multi-byte) up to max_len symbols; sharded
template <typename F>
void words(const std::vector<std::string>& alphabet, unsigned max_len, F f)
{
    unsigned long long idx = 0;
    std::vector<unsigned> d;
    for (unsigned len = 0; len <= max_len; ++len) {
        d.assign(len, 0);
        while (true) {
            if (idx++ % shards == shard) {
                std::string s;
                for (auto x : d) s += alphabet[x];
                ++cases;
                f(s);
            }
            int i = (int)len - 1;
            while (i >= 0 && ++d[(size_t)i] == alphabet.size()) d[(size_t)i--] = 0;
            if (i < 0) break;
        }
    }
}
}  // namespace vp
extern "C" void __sanitizer_set_death_callback(void (*)(void));
void vp_run();
// replay one verifier counterexample: entry point, argument name, data
void vp_replay(const std::string& fn, const std::string& arg, const std::vector<uint64_t>& data);
int main(int argc, char** argv)
{
    using namespace vp;
    __sanitizer_set_death_callback(death);
    signal(SIGABRT, on_signal);
    signal(SIGSEGV, on_signal);
    signal(SIGFPE, on_signal);
    signal(SIGILL, on_signal);
    signal(SIGALRM, on_alarm);
    if (argc >= 6 && !strcmp(argv[1], "run")) {
        thorough = !strcmp(argv[2], "thorough");
        seed = strtoull(argv[3], 0, 10);
        shard = (unsigned)atoi(argv[4]);
        shards = (unsigned)atoi(argv[5]);
        vp_run();
    }
    else if (argc >= 3 && !strcmp(argv[1], "replay")) {
        std::ifstream f(argv[2]);
        std::string l;
        while (std::getline(f, l)) {
            std::istringstream is(l);
            std::string fn, arg, d;
            is >> fn >> arg >> d;
            std::vector<uint64_t> v;
            if (!d.empty() && d[0] == '=') v.push_back(strtoull(d.c_str() + 1, 0, 10));
            else {
                std::istringstream ds(d);
                std::string x;
                while (std::getline(ds, x, ',')) v.push_back(strtoull(x.c_str(), 0, 10));
            }
            vp_replay(fn, arg, v);
        }
    }
    alarm(0);
    printf("STAT cases=%llu\n", cases);
    fflush(stdout);
    signal(SIGABRT, SIG_DFL);
    return fails ? 1 : 0;
}
