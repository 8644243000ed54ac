// C16 timedelta, C17 time of day, C18 date, C19 datetime: the real sources of /repo/sdk/{include/teiacare,src}/.../datetime.
#include <gv/gv.hpp>
#include <chrono>
#include <climits>
#include <stdexcept>
#include <teiacare/sdk/datetime/timedelta.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
namespace cr = std::chrono;
using tc::sdk::timedelta;
static const int64_t US = 1000, MS = 1000 * US, S = 1000 * MS, MIN = 60 * S, H = 60 * MIN, DAY = 24 * H;
static int64_t cnt(const timedelta& t) { return t.total_nanoseconds().count(); }
static timedelta td(int64_t n) { return timedelta(cr::nanoseconds(n)); }
static int64_t any_ns(const char* n) { return gv::any<int64_t>(n); }
static bool add_ok(int64_t a, int64_t b) { int64_t r; return !__builtin_add_overflow(a, b, &r); }
static bool sub_ok(int64_t a, int64_t b) { int64_t r; return !__builtin_sub_overflow(a, b, &r); }
static bool mul_ok(int64_t a, int64_t b) { int64_t r; return !__builtin_mul_overflow(a, b, &r); }
static int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return q - (((a % b) < 0) ? 1 : 0); } // b > 0
// ------------------------------------------------------------------ C16
GV_CONTRACT(C16, decomposition)
{
    const int64_t d = any_ns("d");
    gv::requires_(d >= INT64_MIN + H); // the floor of d to hours is representable
    const timedelta t = td(d);
    const int64_t h = t.hours().count(), m = t.minutes().count(), s = t.seconds().count(), ms = t.milliseconds().count(), us = t.microseconds().count(), ns = t.nanoseconds().count();
    gv::ensures(h * H + m * MIN + s * S + ms * MS + us * US + ns == d, "the components add up to the duration");
    gv::ensures((0 <= m) & (m < 60), "minutes in [0,60)");
    gv::ensures((0 <= s) & (s < 60), "seconds in [0,60)");
    gv::ensures((0 <= ms) & (ms < 1000), "milliseconds in [0,1000)");
    gv::ensures((0 <= us) & (us < 1000), "microseconds in [0,1000)");
    gv::ensures((0 <= ns) & (ns < 1000), "nanoseconds in [0,1000)");
}
GV_CONTRACT(C16, totals)
{
    const int64_t d = any_ns("d");
    const timedelta t = td(d);
    gv::ensures(t.total_nanoseconds().count() == d, "total_nanoseconds is exact");
    gv::ensures(t.total_microseconds().count() == d / US, "total_microseconds truncates toward zero");
    gv::ensures(t.total_milliseconds().count() == d / MS, "total_milliseconds truncates toward zero");
    gv::ensures(t.total_seconds().count() == d / S, "total_seconds truncates toward zero");
    gv::ensures(t.total_minutes().count() == d / MIN, "total_minutes truncates toward zero");
    gv::ensures(t.total_hours().count() == d / H, "total_hours truncates toward zero");
    gv::ensures(t.total_days().count() == d / DAY, "total_days truncates toward zero");
    gv::ensures(t.total_months().count() == d / (2629746 * S), "total_months truncates toward zero");
    gv::ensures(t.total_years().count() == d / (31556952 * S), "total_years truncates toward zero");
}
GV_CONTRACT(C16, construction)
{
    const int64_t d = any_ns("d"), e = any_ns("e");
    const cr::nanoseconds n(d); const cr::steady_clock::duration sd(e);
    gv::ensures(cnt(timedelta()) == 0, "the default timedelta is zero");
    gv::ensures(timedelta().is_null(), "the default timedelta is null");
    gv::ensures(cnt(timedelta(n)) == d, "a nanosecond count is kept");
    gv::ensures(cnt(timedelta(sd)) == e, "a steady_clock duration is kept");
    timedelta a = td(d); timedelta b; b = a; timedelta c; c = a; timedelta f; f = static_cast<timedelta&&>(b);
    gv::ensures((cnt(c) == d) & (cnt(f) == d), "copies and moves keep the duration");
    const int64_t h = gv_any_range("h", -1000000, 1000000), m = gv_any_range("m", -1000000, 1000000), s = gv_any_range("s", -1000000, 1000000), ms = gv_any_range("ms", -1000000, 1000000), us = gv_any_range("us", -1000000, 1000000), ns = gv_any_range("ns", -1000000, 1000000), dd = gv_any_range("dd", -10000, 10000);
    const timedelta sum{cr::days(dd), cr::hours(h), cr::minutes(m), cr::seconds(s), cr::milliseconds(ms), cr::microseconds(us), cr::nanoseconds(ns)};
    gv::ensures(cnt(sum) == dd * DAY + h * H + m * MIN + s * S + ms * MS + us * US + ns, "a list of durations is summed exactly");
    const cr::hours ch(h); const cr::seconds cs(s); const cr::microseconds cu(us);
    const timedelta lsum(ch, cs, cu);
    gv::ensures(cnt(lsum) == h * H + s * S + us * US, "a list of lvalue durations is summed exactly");
}
GV_CONTRACT(C16, comparison)
{
    const int64_t a = any_ns("a"), b = any_ns("b");
    gv::ensures((td(a) == td(b)) == (a == b), "== compares nanoseconds");
    gv::ensures((td(a) != td(b)) == (a != b), "!= compares nanoseconds");
    gv::ensures(td(a).is_null() == (a == 0), "is_null iff zero");
}
GV_CONTRACT(C16, add)
{
    const int64_t a = any_ns("a"), b = any_ns("b");
    gv::requires_(add_ok(a, b));
    gv::ensures(cnt(td(a) + td(b)) == a + b, "+ adds nanoseconds");
}
GV_CONTRACT(C16, sub)
{
    const int64_t a = any_ns("a"), b = any_ns("b");
    gv::requires_(sub_ok(a, b));
    gv::ensures(cnt(td(a) - td(b)) == a - b, "- subtracts nanoseconds");
}
GV_CONTRACT(C16, mul)
{
    const int64_t a = any_ns("a"), b = any_ns("b");
    gv::requires_(mul_ok(a, b));
    gv::ensures(cnt(td(a) * b) == a * b, "* multiplies nanoseconds");
}
GV_CONTRACT(C16, div)
{
    const int64_t a = any_ns("a"), b = any_ns("b");
    gv::requires_((b != 0) & !((a == INT64_MIN) & (b == -1)));
    gv::ensures(cnt(td(a) / b) == a / b, "/ divides nanoseconds and truncates");
}
GV_CONTRACT(C16, div_zero)
{
    const int64_t a = any_ns("a");
    bool thrown = false;
    try { (void)(td(a) / 0); }
    catch (const std::domain_error&) { thrown = true; }
    gv::ensures(thrown, "/ by zero throws std::domain_error");
}
// ------------------------------------------------------------------ C17
using ttime = tc::sdk::time;
static int64_t tcnt(const ttime& t) { return t.to_duration().count(); }
static ttime mk(int64_t n) { return ttime(cr::nanoseconds(n)); }
GV_CONTRACT(C17, construction)
{
    const int64_t n = any_ns("n");
    const ttime t = mk(n);
    gv::ensures(tcnt(t) == n % DAY, "the sum modulo 24 hours is kept, with its sign");
    gv::ensures(t.is_valid(), "a constructed time is valid");
    gv::ensures(!ttime().is_valid(), "a default constructed time is invalid");
    const cr::nanoseconds l(n); const ttime u(l);
    gv::ensures(tcnt(u) == n % DAY, "an lvalue duration is kept modulo 24 hours");
    const int64_t h = gv_any_range("h", -1000000, 1000000), m = gv_any_range("m", -1000000, 1000000), s = gv_any_range("s", -1000000, 1000000), ms = gv_any_range("ms", -1000000, 1000000), us = gv_any_range("us", -1000000, 1000000), ns = gv_any_range("ns", -1000000, 1000000);
    const ttime v{cr::hours(h), cr::minutes(m), cr::seconds(s), cr::milliseconds(ms), cr::microseconds(us), cr::nanoseconds(ns)};
    gv::ensures(tcnt(v) == (h * H + m * MIN + s * S + ms * MS + us * US + ns) % DAY, "a list of durations is summed modulo 24 hours");
    gv::ensures(v.is_valid(), "a time built from a list is valid");
    ttime c, a, b; c = v; a = v; b = static_cast<ttime&&>(c);
    gv::ensures((tcnt(a) == tcnt(v)) & (tcnt(b) == tcnt(v)), "copies and moves keep the time");
}
GV_CONTRACT(C17, construction_coarse)
{
    const int64_t h = any_ns("h"), s = any_ns("s"), m = gv_any_range("m", -1000000, 1000000);
    gv::ensures(tcnt(ttime(cr::hours(h))) == (h % 24) * H, "whole hours modulo 24");
    gv::ensures(tcnt(ttime(cr::seconds(s))) == (s % 86400) * S, "whole seconds modulo 24 hours");
    const cr::hours hh(m); const cr::minutes mm(m);
    gv::ensures(tcnt(ttime(hh, mm)) == (m * 61 % 1440) * MIN, "hours and minutes modulo 24 hours");
}
GV_CONTRACT(C17, components)
{
    const int64_t n = any_ns("n");
    const ttime t = mk(n);
    const int64_t v = tcnt(t), a = v < 0 ? -v : v;
    const int64_t h = t.hours().count(), m = t.minutes().count(), s = t.seconds().count(), ms = t.milliseconds().count(), us = t.microseconds().count(), ns = t.nanoseconds().count();
    gv::ensures(h * H + m * MIN + s * S + ns == a, "the components recombine to the magnitude");
    gv::ensures((0 <= h) & (h < 24), "hours in [0,24)");
    gv::ensures((0 <= m) & (m < 60), "minutes in [0,60)");
    gv::ensures((0 <= s) & (s < 60), "seconds in [0,60)");
    gv::ensures((0 <= ns) & (ns < S), "nanoseconds in [0,1e9)");
    gv::ensures((ms == ns / MS) & (us == ns / US), "milliseconds and microseconds are the truncated sub-second part");
}
GV_CONTRACT(C17, arithmetic)
{
    const int64_t n = any_ns("n"), o = any_ns("o"), d = any_ns("d");
    const ttime t = mk(n), u = mk(o);
    const int64_t a = tcnt(t), b = tcnt(u);
    gv::ensures(gv::all((t < u) == (a < b), (t > u) == (a > b), (t == u) == (a == b), (t != u) == (a != b)), "the order is that of the durations");
    gv::ensures(cnt(t - u) == a - b, "time - time is the exact timedelta");
    gv::ensures(cnt(t + u) == a + b, "time + time is the exact timedelta");
    gv::requires_(add_ok(a, d) & sub_ok(a, d));
    gv::ensures(tcnt(t + td(d)) == (a + d) % DAY, "time + timedelta wraps modulo 24 hours");
    gv::ensures(tcnt(t - td(d)) == (a - d) % DAY, "time - timedelta wraps modulo 24 hours");
}
// ------------------------------------------------------------------ C18
using tdate = tc::sdk::date;
static bool leap(int y) { return (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0)); }
static bool exists(int y, int m, int d)
{
    const int dim = m == 2 ? 28 + leap(y) : (((m == 4) | (m == 6) | (m == 9) | (m == 11)) ? 30 : 31);
    return (y >= -32767) & (y <= 32767) & (m >= 1) & (m <= 12) & (d >= 1) & (d <= dim);
}
static bool real_day(const tdate& d) { return exists(static_cast<int>(d.year()), static_cast<unsigned>(d.month()), static_cast<unsigned>(d.day())); } // is_valid() by C18_validity
static int64_t num(const tdate& d) { return cr::sys_days(cr::year_month_day(d.year(), d.month(), d.day())).time_since_epoch().count(); }
static cr::year_month_day any_ymd(const char* a, const char* b, const char* c, int lo = -32767, int hi = 32767)
{
    const int y = gv_any_range(a, lo, hi), m = gv_any_range(b, 1, 12), d = gv_any_range(c, 1, 31);
    gv::requires_(exists(y, m, d));
    return cr::year_month_day(cr::year(y), cr::month(m), cr::day(d));
}
static tdate any_date(const char* a, const char* b, const char* c) { return tdate(any_ymd(a, b, c)); }
static const int64_t LIM = INT64_MAX / DAY; // days whose time point fits 64-bit nanoseconds
static tdate any_ns_date(const char* a, const char* b, const char* c)
{
    const cr::year_month_day d = any_ymd(a, b, c, 1677, 2262);
    const int64_t n = cr::sys_days(d).time_since_epoch().count();
    gv::requires_((n > -LIM) & (n < LIM));
    return tdate(d);
}
GV_CONTRACT(C18, validity)
{
    const int y = gv_any_range("y", -32768, 32767), m = gv_any_range("m", 0, 255), d = gv_any_range("d", 0, 255);
    const tdate a{cr::year(y), cr::month(m), cr::day(d)};
    gv::ensures(a.is_valid() == exists(y, m, d), "is_valid iff the date exists");
    gv::ensures(gv::all(static_cast<int>(a.year()) == y, static_cast<unsigned>(a.month()) == (unsigned)m, static_cast<unsigned>(a.day()) == (unsigned)d), "year, month and day are the given ones");
    gv::ensures(!tdate().is_valid(), "the default date is invalid");
}
GV_CONTRACT(C18, construction)
{
    const cr::year_month_day q = any_ymd("y", "m", "d");
    const cr::year yy = q.year(); const cr::month mm = q.month(); const cr::day dd = q.day();
    const tdate a(q), b(yy, mm, dd), c(static_cast<cr::year_month_day&&>(cr::year_month_day(q)));
    gv::ensures(gv::all(a.year() == yy, a.month() == mm, a.day() == dd), "built from a year_month_day");
    gv::ensures(gv::all(b.year() == yy, b.month() == mm, b.day() == dd), "built from year, month, day");
    gv::ensures(gv::all(c.year() == yy, c.month() == mm, c.day() == dd), "moved from a year_month_day");
    tdate e, f; e = a; f = b;
    gv::ensures((e == a) & (f == b) & (a == b) & !(a != b), "copies are equal");
}
GV_CONTRACT(C18, timepoint)
{
    const tdate d{any_ymd("y", "m", "d")};
    gv::ensures(d.to_timepoint().time_since_epoch().count() == num(d), "to_timepoint is the civil day number");
    const int64_t t = any_ns("t");
    const tdate e{tc::sdk::sys_time_point(cr::nanoseconds(t))};
    gv::ensures(num(e) == fdiv(t, DAY), "a time point belongs to the day that contains it");
    const tdate f{cr::nanoseconds(t)};
    gv::ensures(num(f) == fdiv(t, DAY), "a nanosecond count belongs to the day that contains it");
    gv::ensures(real_day(e) & real_day(f), "the date of a time point exists");
}
GV_CONTRACT(C18, weekday)
{
    const tdate d = any_date("y", "m", "d");
    const int64_t n = num(d), w = n + 3 - 7 * fdiv(n + 3, 7);
    gv::ensures((int64_t)d.iso_weekday() == w + 1, "iso_weekday follows the 7-day cycle (1970-01-01 is a Thursday)");
    gv::ensures(d.weekday().c_encoding() == (unsigned)(w == 6 ? 0 : w + 1), "weekday follows the 7-day cycle");
}
GV_CONTRACT(C18, order)
{
    const tdate a = any_date("y", "m", "d"), b = any_date("y2", "m2", "d2");
    gv::ensures(gv::all((a < b) == (num(a) < num(b)), (a > b) == (num(a) > num(b)), (a == b) == (num(a) == num(b)), (a != b) == (num(a) != num(b))), "order and equality are those of the calendar");
}
GV_CONTRACT(C18, plus)
{
    const tdate a = any_ns_date("y", "m", "d");
    const int64_t d = any_ns("delta"), n = num(a);
    gv::requires_(add_ok(n * DAY, d));
    const tdate r = a + td(d);
    gv::ensures(num(r) == n + fdiv(d, DAY), "date + timedelta is the day that contains the sum");
    gv::ensures(real_day(r), "date + timedelta exists");
    const int64_t k = gv_any_range("k", -200000, 200000);
    gv::requires_((n + k > -LIM) & (n + k < LIM) & (k < LIM) & (k > -LIM));
    gv::ensures(num(a + timedelta(cr::days(k))) == n + k, "adding n days moves n calendar days");
}
GV_CONTRACT(C18, minus)
{
    const tdate a = any_ns_date("y", "m", "d");
    const int64_t d = any_ns("delta"), n = num(a);
    gv::requires_(sub_ok(n * DAY, d) & (d > INT64_MIN));
    const tdate r = a - td(d);
    gv::ensures(num(r) == n + fdiv(-d, DAY), "date - timedelta is the day that contains the difference");
    const int64_t k = gv_any_range("k", -200000, 200000);
    gv::requires_((n - k > -LIM) & (n - k < LIM) & (k < LIM) & (k > -LIM));
    gv::ensures(num(a - timedelta(cr::days(k))) == n - k, "subtracting n days moves n calendar days back");
}
GV_CONTRACT(C18, difference)
{
    const tdate a = any_ns_date("y", "m", "d"), b = any_ns_date("y2", "m2", "d2");
    const int64_t n = num(a), m = num(b);
    gv::requires_((m - n < LIM) & (m - n > -LIM));
    const timedelta t = b - a;
    gv::ensures(cnt(t) == (m - n) * DAY, "date - date is the exact number of days");
    gv::ensures(a + t == b, "d + (e - d) == e");
}
// ------------------------------------------------------------------ C19
using dt = tc::sdk::datetime;
static int64_t at(const dt& d) { return d.to_time_point().time_since_epoch().count(); }
static dt inst(int64_t n) { return dt(tc::sdk::sys_time_point(cr::nanoseconds(n))); }
GV_CONTRACT(C19, split)
{
    const int64_t n = any_ns("n");
    gv::requires_(n >= INT64_MIN + DAY); // the start of its day is representable
    const dt d = inst(n);
    gv::ensures(at(d) == n, "the time point is kept");
    const int64_t t = tcnt(d.time());
    gv::ensures((0 <= t) & (t < DAY), "time() lies in [0,24h)");
    gv::ensures(num(d.date()) == fdiv(n, DAY), "date() is the day that contains the instant");
    gv::ensures(real_day(d.date()) & d.time().is_valid(), "date() and time() are valid");
    gv::ensures(num(d.date()) * DAY + t == n, "date() and time() add up to the instant");
    gv::ensures(dt(d.date(), d.time()) == d, "datetime(dt.date(), dt.time()) == dt");
}
GV_CONTRACT(C19, arithmetic)
{
    const int64_t n = any_ns("n"), d = any_ns("d");
    gv::requires_(add_ok(n, d));
    const dt a = inst(n), b = a + td(d);
    gv::ensures(at(b) == n + d, "datetime + timedelta adds nanoseconds");
    gv::ensures(b - a == td(d), "(dt + td) - dt == td");
    gv::ensures(b - td(d) == a, "(dt + td) - td == dt");
}
GV_CONTRACT(C19, subtraction)
{
    const int64_t n = any_ns("n"), d = any_ns("d");
    gv::requires_(sub_ok(n, d));
    gv::ensures(at(inst(n) - td(d)) == n - d, "datetime - timedelta subtracts nanoseconds");
    gv::ensures(cnt(inst(n) - inst(d)) == n - d, "datetime - datetime is the exact timedelta");
}
GV_CONTRACT(C19, order)
{
    const int64_t n = any_ns("n"), o = any_ns("o");
    const dt a = inst(n), b = inst(o);
    gv::ensures(gv::all((a < b) == (n < o), (a > b) == (n > o), (a == b) == (n == o), (a != b) == (n != o)), "order and equality are those of the time points");
    gv::ensures(a.is_valid() == ((n != INT64_MIN) & (n != INT64_MAX)), "is_valid for all but the extreme time points");
    gv::ensures(!dt().is_valid(), "the default datetime is invalid");
    dt c, e; c = a; e = b; dt f; f = static_cast<dt&&>(c);
    gv::ensures((e == b) & (f == a), "copies and moves keep the instant");
}
GV_CONTRACT(C19, components)
{
    const tdate d = any_ns_date("y", "m", "d");
    const int64_t n = num(d), t = gv_any_range("t", -DAY + 1, DAY - 1);
    gv::requires_((n > -LIM + 2) & (n < LIM - 2));
    gv::ensures(at(dt(d)) == n * DAY, "a date alone is its midnight");
    gv::ensures(at(dt(mk(t))) == t, "a time alone counts from the epoch");
    gv::ensures(at(dt(d, mk(t))) == n * DAY + t, "date and time are added");
    const int64_t h = gv_any_range("hh", 0, 23), m = gv_any_range("mm", 0, 59), s = gv_any_range("ss", 0, 59), ms = gv_any_range("ms", 0, 999), us = gv_any_range("us", 0, 999), ns = gv_any_range("ns", 0, 999);
    const dt c(d.year(), d.month(), d.day(), cr::hours(h), cr::minutes(m), cr::seconds(s), cr::milliseconds(ms), cr::microseconds(us), cr::nanoseconds(ns));
    gv::ensures(at(c) == n * DAY + h * H + m * MIN + s * S + ms * MS + us * US + ns, "the component constructor is the sum of its parts");
    gv::ensures(at(dt(d.year(), d.month(), d.day(), cr::hours(h), cr::minutes(m), cr::seconds(s))) == n * DAY + h * H + m * MIN + s * S, "omitted components are zero");
}
