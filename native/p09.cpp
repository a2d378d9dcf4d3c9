// P09: boolean fields
#include "api.hpp"
#include "utf.hpp"
using namespace vp;
using E = scn::scan_error;
static void cmp(const std::string& id, const Res<bool>& r, int code, bool v, size_t used)
{
    if (r.ok != (code == -1)) fail(r.ok ? "bool-accepted" : "bool-rejected", id + (r.ok ? ": accepted, expected " + std::string(code_name(code)) : ": rejected with " + std::string(code_name(r.code))));
    else if (!r.ok && r.code != code) fail("bool-error", id + ": error " + code_name(r.code) + ", expected " + code_name(code));
    else if (r.ok && r.v != v) fail("bool-value", id + ": wrong value");
    else if (r.ok && r.used != used) fail("bool-consumed", id + ": consumed " + std::to_string(r.used) + ", expected " + std::to_string(used));
}
struct P { const char* f; bool text, num; };
static const P pres[] = {{"{}", true, true}, {"{:s}", true, false}, {"{:d}", false, true}, {"{:i}", false, true}, {"{:u}", false, true},
                         {"{:x}", false, true}, {"{:o}", false, true}, {"{:b}", false, true}, {"{:L}", true, true}, {"{:Ls}", true, false}};
static void one(const std::string& src)
{
    for (auto& p : pres) {
        auto id = std::string(p.f) + " on " + show(std::string_view(src));
        at(id);
        ++cases;
        size_t q = 0;
        while (q < src.size() && (unsigned char)src[q] < 128 && white((unsigned char)src[q])) ++q;
        std::string_view t = std::string_view(src).substr(q);
        int code = -1;
        bool v = false;
        size_t used = 0;
        if (t.empty()) code = E::end_of_input;
        else if (p.num && t[0] == '0') used = q + 1;
        else if (p.num && t[0] == '1') v = true, used = q + 1;
        else if (p.text && t.substr(0, 4) == "true") v = true, used = q + 4;
        else if (p.text && t.substr(0, 5) == "false") used = q + 5;
        else code = E::invalid_scanned_value;
        cmp("narrow " + id, narrow<bool>(src, p.f), code, v, used);
        cmp("deque " + id, deq<bool>(src, p.f), code, v, used);
        if (valid(src)) {
            auto w = to_wide(src);
            cmp("wide " + id, wide<bool>(w, widen(p.f)), code, v, used);
        }
    }
}
void vp_run()
{
    words({"t", "r", "u", "e", "f", "a", "l", "s", "0", "1", "T", "true", "false", " ", "2"}, thorough ? 5 : 4, one);
    // each byte at each place of each spelling
    for (std::string sp : {"true", "false", "1", "0", "truefalse", "10", "01"})
        for (size_t i = 0; i <= sp.size(); ++i) {
            if ((sp.size() + i) % shards == shard) one(sp.substr(0, i));
            for (int c = 0; c < 256; ++c) {
                if ((unsigned)c % shards != shard) continue;
                if (c < 128 && white((unsigned)c) && i == 0) continue;
                auto s = sp;
                if (i < sp.size()) { s[i] = (char)c; one(s); }
                if (c < 128) one(sp.substr(0, i) + (char)c + sp.substr(i));
            }
            if (shard == 0)
                for (uint32_t add : {0x80u, 0x100u, 0x10000u}) {
                    if (i >= sp.size()) continue;
                    auto w = widen(sp);
                    w[i] += (wchar_t)add;
                    for (auto& p : pres) {
                        if (i && (sp == "truefalse" ? i >= 4 : sp == "10" || sp == "01")) continue;
                        at("wide bool " + show(std::wstring_view(w)));
                        ++cases;
                        cmp("wide " + std::string(p.f) + " on " + show(std::wstring_view(w)), wide<bool>(w, widen(p.f)), E::invalid_scanned_value, false, 0);
                    }
                }
        }
    sample("\"{}\" on \"truex\" -> true, rest \"x\"; on \"tru\" -> invalid_scanned_value; \"{:s}\" on \"1\" -> invalid_scanned_value");
}
void vp_replay(const std::string&, const std::string& arg, const std::vector<uint64_t>& d)
{
    if (arg != "s") return;
    std::string s;
    for (auto c : d) s += (char)c;
    one(s);
}
