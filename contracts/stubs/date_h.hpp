// Assumed contract of the third-party sdk/src/datetime/date.h (IR build only):
//  parse(f, x) applied to format(f, v) of the same type and format succeeds with x == v;
//  applied to any other text it either fails or yields some value.
#pragma once
#ifndef GV_NATIVE
#define DATE_H
#include "sstream.hpp"
namespace gv
{
struct Fmt { int calls; int64_t v; int64_t unit; int kind; char f[16]; int fl; }; // the last value formatted
inline Fmt fmt;
inline bool parse_ok; inline int parse_calls; inline int64_t parsed;
template <typename D> struct unit;
template <typename R, intmax_t N, intmax_t M> struct unit<std::chrono::duration<R, std::ratio<N, M>>> { static constexpr int64_t v = N * (1000000000 / M); };
inline void note(const std::string& f, int64_t v, int64_t u, int kind)
{
    fmt.calls++; fmt.v = v; fmt.unit = u; fmt.kind = kind; fmt.fl = (int)f.size();
    for (int k = 0; k < fmt.fl && k < 16; ++k) fmt.f[k] = f[k];
}
inline bool same_fmt(const std::string& f) { if ((int)f.size() != fmt.fl) return false; for (int k = 0; k < fmt.fl; ++k) if (f[k] != fmt.f[k]) return false; return true; }
template <typename D> struct Parse { const std::string* f; D* out; int kind; };
}
namespace date
{
template <typename R, typename P> std::string format(const std::string& f, const std::chrono::duration<R, P>& d) { gv::note(f, d.count(), gv::unit<std::chrono::duration<R, P>>::v, 1); return std::string("<text>"); }
template <typename D> std::string format(const std::string& f, const std::chrono::time_point<std::chrono::system_clock, D>& t) { gv::note(f, t.time_since_epoch().count(), gv::unit<D>::v, 2); return std::string("<text>"); }
template <typename R, typename P> gv::Parse<std::chrono::duration<R, P>> parse(const std::string& f, std::chrono::duration<R, P>& d) { return {&f, &d, 1}; }
template <typename D> gv::Parse<D> parse(const std::string& f, std::chrono::time_point<std::chrono::system_clock, D>& t) { return {&f, reinterpret_cast<D*>(&t), 2}; }
}
namespace std
{
template <typename D> inline gv_stringstream& operator>>(gv_stringstream& s, const gv::Parse<D>& p)
{
    gv::parse_calls++;
    if (gv::fmt.calls && s.gv_input() == "<text>" && gv::fmt.kind == p.kind && gv::fmt.unit == gv::unit<D>::v && gv::same_fmt(*p.f)) { gv::parse_ok = true; gv::parsed = gv::fmt.v; *p.out = D(gv::fmt.v); return s; }
    gv::parse_ok = gv_any_bool("parse_ok"); gv::parsed = gv_any_i64("parsed");
    const int64_t u = gv::unit<D>::v, lo = u == 86400000000000 ? -719528 : -9223000000000000000 / u, hi = u == 86400000000000 ? 2932896 : 9223000000000000000 / u; // a date with a 4-digit year, or a value representable in nanoseconds
    gv_assume((gv::parsed >= lo) & (gv::parsed <= hi));
    if (gv::parse_ok) *p.out = D(gv::parsed); else s.gv_set_fail();
    return s;
}
}
#endif
