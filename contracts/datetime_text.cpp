// Text and clock functions of timedelta, time, date, datetime (C16-C19, C30): the real .cpp files, with stringstream and date.h by contract.
#include <gv/gv.hpp>
#include <chrono>
#include <cstdio>
#include <string>
#include <stdexcept>
#include "stubs/sstream.hpp"
#include "stubs/date_h.hpp"
#include <datetime/timedelta.cpp>
#include <datetime/time.cpp>
#include <datetime/date.cpp>
#include <datetime/datetime.cpp>
namespace cr = std::chrono;
using tc::sdk::timedelta;
using tdate = tc::sdk::date; using ttime = tc::sdk::time; using dt = tc::sdk::datetime;
static const int64_t US = 1000, MS = 1000 * US, S = 1000 * MS, MIN = 60 * S, H = 60 * MIN, DAY = 24 * H;
static int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return q - (((a % b) < 0) ? 1 : 0); }
// the clock read by the code under contract
static int64_t now_ns;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return std::chrono::system_clock::time_point(std::chrono::nanoseconds(now_ns)); }
// ------------------------------------------------------------------ C16: text
template <typename D> static void td_text(int64_t unit, int digits)
{
    const int64_t d = gv::any<int64_t>("d");
    gv::requires_(d > INT64_MIN);
    const std::string got = timedelta(cr::nanoseconds(d)).to_string<D>();
    const int64_t t = d / unit; // truncated to the precision first
    const bool neg = t < 0;
    const int64_t a = neg ? -t : t, per_s = S / unit;
    const int64_t h = a / per_s / 3600, m = a / per_s / 60 % 60, s = a / per_s % 60, f = a % per_s;
#ifdef GV_NATIVE
    char want[96];
    int n = snprintf(want, sizeof want, "%s%02lld:%02lld:%02lld", neg ? "-" : "", (long long)h, (long long)m, (long long)s);
    if (digits) snprintf(want + n, sizeof want - n, ".%0*lld", digits, (long long)f);
    gv::ensures(got == want, "to_string prints [-]HH:MM:SS and the zero-padded fraction");
#else
    const gv::Text& x = gv::last_text;
    int k = 0;
    if (neg) { gv::ensures(x.n > 0 && x.s[0].kind == 0 && x.s[0].v == '-', "to_string prints [-]HH:MM:SS and the zero-padded fraction"); k = 1; }
    gv::ensures(x.n == k + (digits ? 7 : 5), "to_string prints [-]HH:MM:SS and the zero-padded fraction");
    const int64_t v[4] = {h, m, s, f}; const char sep[3] = {':', ':', '.'};
    for (int j = 0; j < (digits ? 4 : 3); ++j)
    {
        const gv::Seg& q = x.s[k + 2 * j];
        const int w = j == 3 ? digits : 2;
        gv::ensures((q.kind == 1) & (q.v == v[j]) & (q.width == w) & (q.fill == '0') & (q.base == 10), "to_string prints [-]HH:MM:SS and the zero-padded fraction");
        if (j < (digits ? 3 : 2)) gv::ensures((x.s[k + 2 * j + 1].kind == 0) & (x.s[k + 2 * j + 1].v == sep[j]), "to_string prints [-]HH:MM:SS and the zero-padded fraction");
    }
#endif
}
GV_CONTRACT(C16, text_s) { td_text<cr::seconds>(S, 0); }
GV_CONTRACT(C16, text_ms) { td_text<cr::milliseconds>(MS, 3); }
GV_CONTRACT(C16, text_us) { td_text<cr::microseconds>(US, 6); }
GV_CONTRACT(C16, text_ns) { td_text<cr::nanoseconds>(1, 9); }
// ------------------------------------------------------------------ C17-C19: the current time
template <typename D> static void time_now(int64_t unit)
{
    now_ns = gv::any<int64_t>("now");
    gv::requires_(now_ns >= INT64_MIN + DAY);
    const int64_t t = ttime::utc_now<D>().to_duration().count(), day = now_ns - fdiv(now_ns, DAY) * DAY;
    gv::ensures(t == day / unit * unit, "time::utc_now is the time of day at the given precision");
}
GV_CONTRACT(C17, now_h) { time_now<cr::hours>(H); }
GV_CONTRACT(C17, now_m) { time_now<cr::minutes>(MIN); }
GV_CONTRACT(C17, now_s) { time_now<cr::seconds>(S); }
GV_CONTRACT(C17, now_ms) { time_now<cr::milliseconds>(MS); }
GV_CONTRACT(C17, now_us) { time_now<cr::microseconds>(US); }
GV_CONTRACT(C17, now_ns) { time_now<cr::nanoseconds>(1); }
GV_CONTRACT(C18, today)
{
    now_ns = gv::any<int64_t>("now");
    gv::requires_(now_ns >= INT64_MIN + DAY);
    gv::ensures(tdate::today().to_timepoint().time_since_epoch().count() == fdiv(now_ns, DAY), "date::today is the day that contains now");
}
template <typename D> static void dt_now(int64_t unit)
{
    now_ns = gv::any<int64_t>("now");
    gv::ensures(dt::utc_now<D>().to_time_point().time_since_epoch().count() == now_ns / unit * unit, "datetime::utc_now is now at the given precision");
}
GV_CONTRACT(C19, now_s) { dt_now<cr::seconds>(S); }
GV_CONTRACT(C19, now_ms) { dt_now<cr::milliseconds>(MS); }
GV_CONTRACT(C19, now_us) { dt_now<cr::microseconds>(US); }
GV_CONTRACT(C19, now_ns) { dt_now<cr::nanoseconds>(1); }
// ------------------------------------------------------------------ C30: round trip
static bool exists(int y, int m, int d)
{
    const bool leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0));
    const int dim = m == 2 ? 28 + leap : (((m == 4) | (m == 6) | (m == 9) | (m == 11)) ? 30 : 31);
    return (d >= 1) & (d <= dim);
}
GV_CONTRACT(C30, date)
{
    const int y = gv_any_range("y", 0, 9999), m = gv_any_range("m", 1, 12), d = gv_any_range("d", 1, 31);
    gv::requires_(exists(y, m, d));
    const tdate a{cr::year(y), cr::month(m), cr::day(d)};
    gv::ensures(tdate::from_string(a.to_string()) == a, "from_string(d.to_string()) == d");
}
template <typename D> static void rt_time(int64_t unit)
{
    const int64_t n = gv_any_range("n", 0, DAY - 1);
    const ttime t{cr::nanoseconds(n)};
    gv::ensures(ttime::from_string<D>(t.to_string<D>()).to_duration().count() == n / unit * unit, "from_string(t.to_string()) == t at the printed precision");
}
GV_CONTRACT(C30, time_s) { rt_time<cr::seconds>(S); }
GV_CONTRACT(C30, time_ms) { rt_time<cr::milliseconds>(MS); }
GV_CONTRACT(C30, time_us) { rt_time<cr::microseconds>(US); }
GV_CONTRACT(C30, time_ns) { rt_time<cr::nanoseconds>(1); }
template <typename D> static void rt_dt(int64_t unit)
{
    const int64_t n = gv::any<int64_t>("n");
    gv::requires_((n > INT64_MIN + DAY) & (n < INT64_MAX - DAY));
    const dt t{tc::sdk::sys_time_point(cr::nanoseconds(n))};
    gv::ensures(dt::from_string<D>(t.to_string<D>()).to_time_point().time_since_epoch().count() == n / unit * unit, "from_string(dt.to_string()) == dt at the printed precision");
}
GV_CONTRACT(C30, datetime_s) { rt_dt<cr::seconds>(S); }
GV_CONTRACT(C30, datetime_ms) { rt_dt<cr::milliseconds>(MS); }
GV_CONTRACT(C30, datetime_us) { rt_dt<cr::microseconds>(US); }
GV_CONTRACT(C30, datetime_ns) { rt_dt<cr::nanoseconds>(1); }
// a text that does not match: throws, and only then
#ifndef GV_NATIVE
GV_CONTRACT(C30, malformed)
{
    const std::string text("junk");
    const int which = gv_any_range("which", 0, 2);
    bool thrown = false; int64_t got = 0;
    try
    {
        if (which == 0) got = tdate::from_string(text).to_timepoint().time_since_epoch().count();
        else if (which == 1) got = ttime::from_string<cr::milliseconds>(text).to_duration().count();
        else got = dt::from_string<cr::milliseconds>(text).to_time_point().time_since_epoch().count();
    }
    catch (const std::runtime_error&) { thrown = true; }
    gv::ensures(gv::parse_calls == 1, "the text is parsed once");
    gv::ensures(thrown == !gv::parse_ok, "from_string throws exactly when the text does not match");
}
#else
// natively: any text over a small alphabet, or a damaged valid text; date.h itself is the oracle of what matches
static std::string any_text()
{
    const char* base[] = {"2024-02-29", "12:34:56.789", "2024-02-29T12:34:56.789", "23:59:59", "", "1969-12-31T23:59:59.999"};
    std::string s = base[gv_any_range("base", 0, 5)];
    const int k = gv_any_range("edits", 0, 4); const char abc[] = "0123456789-:T. x";
    for (int j = 0; j < k; ++j)
    {
        const int w = gv_any_range("edit", 0, 2), c = gv_any_range("char", 0, 15); const size_t at = gv_any_range("at", 0, 30) % (s.size() + 1);
        if (w == 0) s.insert(at, 1, abc[c]); else if (at < s.size() && w == 1) s.erase(at, 1); else if (at < s.size()) s[at] = abc[c];
    }
    return s;
}
template <typename V, typename F> static void ill(const char* fmt, F f)
{
    const std::string s = any_text(); V want{}; std::stringstream in{s}; in >> ::date::parse(std::string(fmt), want);
    bool thrown = false; int64_t got = 0; const bool ok = !in.fail();
    auto cnt = [&] { if constexpr (requires { want.time_since_epoch(); }) return (int64_t)want.time_since_epoch().count(); else return (int64_t)want.count(); };
    if (ok && std::is_same_v<V, cr::sys_time<cr::milliseconds>>) gv::requires_(cnt() > -9223372036854 && cnt() < 9223372036854); // representable in nanoseconds (only datetimes can fail this)
    try { got = f(s); } catch (const std::runtime_error&) { thrown = true; }
    gv::ensures(thrown == !ok, "from_string throws exactly when the text does not match");
    if (ok) gv::ensures(got == (std::is_same_v<V, cr::milliseconds> ? cnt() - fdiv(cnt(), DAY / MS) * (DAY / MS) : cnt()), "from_string yields the parsed value");
}
GV_CONTRACT(C30, malformed_date) { ill<cr::sys_days>("%F", [](const std::string& s) { return (int64_t)tdate::from_string(s).to_timepoint().time_since_epoch().count(); }); }
GV_CONTRACT(C30, malformed_time) { ill<cr::milliseconds>("%T", [](const std::string& s) { return (int64_t)cr::duration_cast<cr::milliseconds>(ttime::from_string<cr::milliseconds>(s).to_duration()).count(); }); }
GV_CONTRACT(C30, malformed_datetime) { ill<cr::sys_time<cr::milliseconds>>("%FT%T", [](const std::string& s) { return (int64_t)fdiv(dt::from_string<cr::milliseconds>(s).to_time_point().time_since_epoch().count(), MS); }); }
#endif
