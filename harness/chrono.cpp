// Entry points for the numeric conversions of the chrono reader over contiguous sources.
// vp-unroll
// vp-inline-strings
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
template <typename T, typename CH>
using vp_reader = detail::tm_reader<T, ranges::subrange<const CH*>, CH>;
template <typename R>
static auto vp_end(R& rd) -> vp_res<std::remove_cv_t<std::remove_pointer_t<decltype(rd.get_iterator())>>>
{
    if (auto e = rd.get_error(); !e) return {nullptr, vp_code(e.error())};
    return {rd.get_iterator(), 0};
}
#define VP_TM(NAME, CH, CALL)                                                                                      \
    VP vp_res<CH> vp_tm_##NAME(const CH* b, size_t n, std::tm* t)                                                  \
    {                                                                                                              \
        vp_reader<std::tm, CH> rd{ranges::subrange<const CH*>{b, b + n}, *t, {}};                                  \
        rd.CALL();                                                                                                 \
        return vp_end(rd);                                                                                         \
    }
#define VP_TMS(CH, S)                   \
    VP_TM(S##_sec, CH, on_second)       \
    VP_TM(S##_min, CH, on_minute)       \
    VP_TM(S##_h24, CH, on_24_hour)      \
    VP_TM(S##_h12, CH, on_12_hour)      \
    VP_TM(S##_mday, CH, on_day_of_month)\
    VP_TM(S##_mon, CH, on_dec_month)    \
    VP_TM(S##_year, CH, on_full_year)   \
    VP_TM(S##_wday0, CH, on_dec0_weekday)\
    VP_TM(S##_wday1, CH, on_dec1_weekday)\
    VP_TM(S##_yday, CH, on_day_of_year)
VP_TMS(char, c)
VP_TMS(wchar_t, w)
VP_TM(c_hm, char, on_24_hour_time)
VP_TM(c_hms, char, on_iso_time)
VP_TM(c_ymd, char, on_iso_date)
VP_TM(c_mdy, char, on_us_date)
VP_TM(c_x, char, on_loc_date)
VP_TM(c_z, char, on_tz_offset)
// the same conversions into datetime_components: out = engaged, value
#define VP_DT(NAME, CALL, GET)                                                                                     \
    VP vp_res<char> vp_dt_##NAME(const char* b, size_t n, int* has, int* val)                                      \
    {                                                                                                              \
        datetime_components t{};                                                                                   \
        vp_reader<datetime_components, char> rd{ranges::subrange<const char*>{b, b + n}, t, {}};                   \
        rd.CALL();                                                                                                 \
        *has = t.GET.has_value();                                                                                  \
        if (*has) *val = static_cast<int>(static_cast<unsigned>(*t.GET));                                          \
        return vp_end(rd);                                                                                         \
    }
VP_DT(sec, on_second, sec)
VP_DT(min, on_minute, min)
VP_DT(h24, on_24_hour, hour)
VP_DT(h12, on_12_hour, hour)
VP_DT(mday, on_day_of_month, mday)
VP_DT(mon, on_dec_month, mon)
VP_DT(yday, on_day_of_year, yday)
VP vp_res<char> vp_dt_year(const char* b, size_t n, int* has, int* val)
{
    datetime_components t{};
    vp_reader<datetime_components, char> rd{ranges::subrange<const char*>{b, b + n}, t, {}};
    rd.on_full_year();
    *has = t.year.has_value();
    if (*has) *val = static_cast<int>(*t.year);
    return vp_end(rd);
}
VP vp_res<char> vp_dt_wday(const char* b, size_t n, int* has, int* val)
{
    datetime_components t{};
    vp_reader<datetime_components, char> rd{ranges::subrange<const char*>{b, b + n}, t, {}};
    rd.on_dec0_weekday();
    *has = t.wday.has_value();
    if (*has) *val = static_cast<int>(t.wday->c_encoding());
    return vp_end(rd);
}
// two-digit year and century: what the year ends up as
VP vp_res<char> vp_tm_c_yy(const char* b, size_t n, std::tm* t)
{
    vp_reader<std::tm, char> rd{ranges::subrange<const char*>{b, b + n}, *t, {}};
    rd.on_short_year();
    rd.verify();
    return vp_end(rd);
}
VP vp_res<char> vp_tm_c_cc(const char* b, size_t n, std::tm* t)
{
    vp_reader<std::tm, char> rd{ranges::subrange<const char*>{b, b + n}, *t, {}};
    rd.on_century();
    rd.verify();
    return vp_end(rd);
}
VP vp_res<char> vp_tm_c_ccyy(const char* b, size_t n, std::tm* t)
{
    vp_reader<std::tm, char> rd{ranges::subrange<const char*>{b, b + n}, *t, {}};
    rd.on_century();
    rd.on_short_year();
    rd.verify();
    return vp_end(rd);
}
// 12-hour clock to 24-hour clock
VP int vp_ampm(int hour, bool pm)
{
    detail::setter_state st{};
    st.hour12_set = 1;
    st.am_pm_set = 1;
    st.is_pm = pm;
    st.handle_am_pm(hour);
    return hour;
}
