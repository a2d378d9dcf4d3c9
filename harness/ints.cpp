// Entry points for the integer value parser: one per (source character, integer type); base and sign are arguments.
// vp-noinline: parse_eight_decimal_digits_unrolled_fast
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
// 0: success; otherwise the error code of vp_common.hpp
#define VP_INT(NAME, CH, T)                                                                                        \
    VP vp_res<CH> vp_int_##NAME(const CH* b, size_t n, T* out, int sign, int base)                                 \
    {                                                                                                              \
        auto r = impl::parse_integer_value<CH, T>(std::basic_string_view<CH>{b, n}, *out,                          \
                                                  static_cast<impl::sign_type>(sign), base);                       \
        if (!r) return {nullptr, vp_code(r.error())};                                                              \
        return {detail::to_address(*r), 0};                                                                        \
    }
#define VP_INTS(T, NAME) VP_INT(c_##NAME, char, T) VP_INT(w_##NAME, wchar_t, T)
VP_INTS(signed char, i8)
VP_INTS(short, i16)
VP_INTS(int, i32)
VP_INTS(long, i64)
VP_INTS(long long, ill)
VP_INTS(unsigned char, u8)
VP_INTS(unsigned short, u16)
VP_INTS(unsigned int, u32)
VP_INTS(unsigned long, u64)
VP_INTS(unsigned long long, ull)
// the eight-digit step has a contract of its own; its callers are checked against that contract
VP uint32_t vp_eight(uint64_t word) { return impl::parse_eight_decimal_digits_unrolled_fast(word); }
VP bool vp_is_eight(uint64_t word) { return impl::is_word_made_of_eight_decimal_digits_fast(word); }
