// Shared by the harnesses: error codes by name, so that the contracts do not depend on enumerator order.
#pragma once
#define VP extern "C" __attribute__((used, noinline))
template <typename Ch>
struct vp_res {
    const Ch* it;
    int code;
};
static inline int vp_code(const scn::scan_error& e)
{
    switch (e.code()) {
        case scn::scan_error::end_of_input: return 1;
        case scn::scan_error::invalid_format_string: return 2;
        case scn::scan_error::invalid_scanned_value: return 3;
        case scn::scan_error::invalid_literal: return 4;
        case scn::scan_error::invalid_fill: return 5;
        case scn::scan_error::length_too_short: return 6;
        case scn::scan_error::invalid_source_state: return 7;
        case scn::scan_error::value_positive_overflow: return 8;
        case scn::scan_error::value_negative_overflow: return 9;
        case scn::scan_error::value_positive_underflow: return 10;
        case scn::scan_error::value_negative_underflow: return 11;
        default: return 99;
    }
}
