// Entry points for argument bookkeeping: which arguments were visited, automatic and manual indexing.
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
struct vp_vec {
    unsigned char *b, *e, *c;
};
static_assert(sizeof(std::vector<uint8_t>) == sizeof(vp_vec));
struct vp_out {
    unsigned long lo;
    int code;
};
// a bookkeeping object for `count` arguments with the visited set (lo, up); the vector's storage is the caller's
#define VP_WITH(STMT)                                                                                              \
    alignas(format_handler_base) unsigned char mem[sizeof(format_handler_base)];                                   \
    auto& h = *new (mem) format_handler_base(1);                                                                   \
    h.args_count = count;                                                                                          \
    h.visited_args_lower64 = lo;                                                                                   \
    vp_vec v{up, up + upn, up + upn};                                                                              \
    __builtin_memcpy((void*)&h.visited_args_upper, &v, sizeof v);                                                  \
    STMT;                                                                                                          \
    auto e = h.get_error();                                                                                        \
    return {h.visited_args_lower64, e ? 0 : vp_code(e.error())};
VP vp_out vp_visit(size_t count, unsigned long lo, unsigned char* up, size_t upn, size_t id)
{
    VP_WITH(h.set_arg_as_visited(id))
}
VP vp_out vp_exhausted(size_t count, unsigned long lo, unsigned char* up, size_t upn)
{
    VP_WITH(h.check_args_exhausted())
}
struct vp_ids {
    unsigned long id;
    int code;
};
// argument ids: `start` is the state of the parse context (number of automatic ids so far, negative: manual)
VP vp_ids vp_next_id(int start)
{
    basic_scan_parse_context<char> ctx{std::string_view{}, start};
    auto id = ctx.next_arg_id();
    auto e = ctx.get_error();
    return {id, e ? 0 : vp_code(e.error())};
}
VP vp_ids vp_next_next_id(int start)
{
    basic_scan_parse_context<char> ctx{std::string_view{}, start};
    (void)ctx.next_arg_id();
    auto id = ctx.next_arg_id();
    auto e = ctx.get_error();
    return {id, e ? 0 : vp_code(e.error())};
}
VP int vp_check_id(int start, unsigned long id)
{
    basic_scan_parse_context<char> ctx{std::string_view{}, start};
    ctx.check_arg_id(id);
    auto e = ctx.get_error();
    return e ? 0 : vp_code(e.error());
}
VP vp_ids vp_check_next_id(int start, unsigned long id)
{
    basic_scan_parse_context<char> ctx{std::string_view{}, start};
    ctx.check_arg_id(id);
    auto n = ctx.next_arg_id();
    auto e = ctx.get_error();
    return {n, e ? 0 : vp_code(e.error())};
}
VP vp_ids vp_next_check_id(int start, unsigned long id)
{
    basic_scan_parse_context<char> ctx{std::string_view{}, start};
    auto n = ctx.next_arg_id();
    ctx.check_arg_id(id);
    auto e = ctx.get_error();
    return {n, e ? 0 : vp_code(e.error())};
}
