"""Assumed contract of std::chrono::year_month_day <-> day count (validated exhaustively on the real libstdc++ by contracts/civil_check.cpp):
a strictly monotone bijection between the valid dates -32767-01-01..32767-12-31 and the day numbers FIRST..LAST."""
import re, z3
from ..engine import *
from .core import ret, I64, ity
FIRST, LAST = -12687428, 11248737
I16, I8 = ity(16), ity(8)
def I(v): return z3.IntVal(v) if isinstance(v, int) else v
def valid(y, m, d):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    dim = z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))
    return z3.And(y >= -32767, y <= 32767, m >= 1, m <= 12, d >= 1, d <= dim)
def relate(E, st, n, y, m, d, ok):
    for (n2, y2, m2, d2, ok2) in st.ghost.get('ymd', ()):
        lt = z3.Or(y < y2, z3.And(y == y2, z3.Or(m < m2, z3.And(m == m2, d < d2))))
        eq = z3.And(y == y2, m == m2, d == d2)
        st.pc.append(z3.Implies(z3.And(ok, ok2), z3.And((n == n2) == eq, (n < n2) == lt)))
    st.ghost['ymd'] = st.ghost.get('ymd', ()) + ((n, y, m, d, ok),)
def m_from_days(E, st, args, Ins, name):
    n = E.load(st, args[0], I64); n = I(E.sgn(n, 64) if isinstance(n, int) else n)
    E.oblige(st, z3.And(n >= FIRST, n <= LAST), "the day count denotes a date with a 16-bit year", "safety")
    if st.dead: return Outs()
    y, m, d = E.fresh_int(st, 16, "year", -32767, 32767), E.fresh_int(st, 8, "month", 1, 12), E.fresh_int(st, 8, "day", 1, 31)
    st.pc.append(valid(y, m, d)); relate(E, st, n, y, m, d, z3.BoolVal(True))
    return ret(st, Cat([(0, 2, y), (2, 1, m), (3, 1, d)], 4))
def m_to_days(E, st, args, Ins, name):
    p = args[0]
    y = E.load(st, p, I16); m = E.load(st, E.padd(p, 2), I8); d = E.load(st, E.padd(p, 3), I8)
    y = I(E.sgn(y, 16) if isinstance(y, int) else y); m = I(E.uns(m, 8)); d = I(E.uns(d, 8))
    n = E.fresh_int(st, 64, "days", -13000000, 13000000)
    ok = valid(y, m, d); st.pc.append(z3.Implies(ok, z3.And(n >= FIRST, n <= LAST))); relate(E, st, n, y, m, d, ok)
    return ret(st, n)
def install(E, cfg):
    E.regex_models += [(re.compile(r"std::chrono::year_month_day::_S_from_days\("), m_from_days), (re.compile(r"std::chrono::year_month_day::_M_days_since_epoch\("), m_to_days)]
