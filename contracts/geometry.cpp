// C20 range, C21 rectangle, C22 point/size/min/max, C23 line: the real headers of /repo/sdk/include/teiacare/sdk/geometry.
#include <gv/gv.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/math.hpp>
using namespace tc::sdk;
static bool same(int a, int b) { return a == b; }
static bool same(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
template <typename T> static T num(const char* n)
{
    T v = gv::any<T>(n);
    gv::requires_(v == v); // not NaN
    return v;
}
// ------------------------------------------------------------------ C20
template <typename T> static range<T> any_range(const char* a, const char* b)
{
    T lo = num<T>(a), hi = num<T>(b);
    gv::requires_(lo <= hi);
    return range<T>(lo, hi);
}
template <typename T> static void range_basics()
{
    T lo = num<T>("lo"), hi = num<T>("hi");
    gv::requires_(lo <= hi);
    const range<T> r(lo, hi);
    gv::ensures((r.min() == lo) & (r.max() == hi), "range(min,max) has the given bounds");
    gv::ensures(r.is_null() == (lo == hi), "is_null iff min == max");
    T lo2 = num<T>("lo2"), hi2 = num<T>("hi2");
    const range<T> s(lo2, hi2);
    gv::ensures((r == s) == ((lo == lo2) & (hi == hi2)), "== compares both bounds");
    gv::ensures((r != s) == !(r == s), "!= is the negation of ==");
    const range<T> d;
    gv::ensures((d.min() == T(0)) & (d.max() == T(0)), "the default range is (0,0)");
    range<T> c(s); range<T> a; a = r; range<T> mv(static_cast<range<T>&&>(c));
    gv::ensures((mv == s) & (a == r), "copies and moves keep both bounds");
}
GV_CONTRACT(C20, basics_int) { range_basics<int>(); }
GV_CONTRACT(C20, basics_double) { range_basics<double>(); }
template <typename T> static void range_setters()
{
    range<T> r = any_range<T>("lo", "hi");
    const T lo = r.min(), hi = r.max(), v = num<T>("v"), w = num<T>("w");
    r.set_min(v);
    gv::ensures(r.min() == v, "set_min installs the bound");
    gv::ensures(r.max() == (hi < v ? v : hi), "set_min keeps max unless it must move");
    range<T> s(lo, hi);
    s.set_max(w);
    gv::ensures(s.max() == w, "set_max installs the bound");
    gv::ensures(s.min() == (w < lo ? w : lo), "set_max keeps min unless it must move");
}
GV_CONTRACT(C20, setters_int) { range_setters<int>(); }
GV_CONTRACT(C20, setters_double) { range_setters<double>(); }
template <typename T> static void range_contains()
{
    const range<T> r = any_range<T>("lo", "hi"), s = any_range<T>("lo2", "hi2");
    const T v = num<T>("v");
    gv::ensures(r.contains(v) == ((r.min() <= v) & (v < r.max())), "contains(v) iff min <= v < max");
    gv::ensures(r.contains(s) == ((r.min() <= s.min()) & (s.max() <= r.max())), "contains(range) iff both bounds inside");
}
GV_CONTRACT(C20, contains_int) { range_contains<int>(); }
GV_CONTRACT(C20, contains_double) { range_contains<double>(); }
template <typename T> static void range_meet()
{
    const range<T> r = any_range<T>("lo", "hi"), s = any_range<T>("lo2", "hi2");
    const T v = num<T>("v");
    const bool meets = (r.min() < s.max()) & (s.min() < r.max());
    gv::ensures(r.intersects(s) == meets, "intersects iff each range starts strictly before the other ends");
    gv::ensures(r.intersects(s) == s.intersects(r), "intersects is symmetric");
    const range<T> i = r.get_intersection(s);
    const bool in_both = (r.min() <= v) & (v < r.max()) & (s.min() <= v) & (v < s.max());
    gv::ensures(((i.min() <= v) & (v < i.max())) == in_both, "get_intersection contains exactly the values in both");
    gv::ensures(gv::imp(!meets, i == range<T>()), "get_intersection of ranges that do not intersect is the default range");
    gv::ensures(gv::imp(meets, (i.min() == (r.min() < s.min() ? s.min() : r.min())) & (i.max() == (r.max() < s.max() ? r.max() : s.max()))), "get_intersection is [max of mins, min of maxs)");
}
GV_CONTRACT(C20, intersection_int) { range_meet<int>(); }
GV_CONTRACT(C20, intersection_double) { range_meet<double>(); }
template <typename T> static void range_union()
{
    const range<T> r = any_range<T>("lo", "hi"), s = any_range<T>("lo2", "hi2");
    const range<T> u = r.get_union(s);
    gv::ensures((u.min() <= r.min()) & (u.min() <= s.min()) & (r.max() <= u.max()) & (s.max() <= u.max()), "get_union covers both ranges");
    gv::ensures(((u.min() == r.min()) | (u.min() == s.min())) & ((u.max() == r.max()) | (u.max() == s.max())), "get_union is no larger than needed");
}
GV_CONTRACT(C20, union_int) { range_union<int>(); }
GV_CONTRACT(C20, union_double) { range_union<double>(); }
template <typename T> static void range_clamp()
{
    const range<T> r = any_range<T>("lo", "hi");
    const T v = num<T>("v"), w = num<T>("w");
    const T c = r.clamp(v);
    gv::ensures((r.min() <= c) & (c <= r.max()), "clamp lies in [min,max]");
    gv::ensures(gv::imp((r.min() <= v) & (v <= r.max()), c == v), "clamp keeps a value inside");
    gv::ensures(gv::imp((r.min() <= w) & (w <= r.max()) & (v < r.min()), c <= w), "clamp of a low value is min");
    gv::ensures(gv::imp((r.min() <= w) & (w <= r.max()) & (r.max() < v), w <= c), "clamp of a high value is max");
}
GV_CONTRACT(C20, clamp_int) { range_clamp<int>(); }
GV_CONTRACT(C20, clamp_double) { range_clamp<double>(); }
GV_CONTRACT(C20, lenght_int)
{
    const range<int> r = any_range<int>("lo", "hi");
    gv::requires_((int64_t)r.max() - (int64_t)r.min() <= 2147483647);
    gv::ensures((int64_t)r.lenght() == (int64_t)r.max() - (int64_t)r.min(), "lenght is max - min");
}
GV_CONTRACT(C20, lenght_double)
{
    const range<double> r = any_range<double>("lo", "hi");
    gv::ensures(same(r.lenght(), r.max() - r.min()), "lenght is max - min");
}
static bool near(double a, double b, double scale)
{
    const double d = a < b ? b - a : a - b;
#ifdef GV_NATIVE
    return d <= 1e-12 * scale;
#else
    return d == 0; // real arithmetic: exact
#endif
}
static double mag(double a) { return a < 0 ? -a : a; }
GV_CONTRACT(C20, map)
{
    const double lo = num<double>("lo"), hi = num<double>("hi"), t = num<double>("t");
    gv::requires_((lo <= hi) & (mag(lo) <= 1e100) & (mag(hi) <= 1e100) & (mag(t) <= 1e100));
    const range<double> r(lo, hi);
    gv::ensures(near(r.map(t), lo + t * (hi - lo), mag(lo) + mag(t) * (mag(hi) + mag(lo))), "map(t) is min + t * (max - min)");
    gv::ensures(near(r.map(0.0), lo, mag(lo) + mag(hi)), "map(0) is min");
    gv::ensures(near(r.map(1.0), hi, mag(lo) + mag(hi)), "map(1) is max");
    const int a = gv::any<int>("a"), b = gv::any<int>("b");
    gv::requires_((a <= b) & (a >= -(1 << 29)) & (b <= (1 << 29)));
    const range<int> q(a, b);
    gv::ensures(near(q.map(t), (double)a + t * (double)((int64_t)b - a), mag(a) + mag(t) * (mag(b) + mag(a))), "map(t) is min + t * (max - min) for int bounds");
}
// ------------------------------------------------------------------ C21
static const int LIM = 1 << 29;
static int coord(const char* n) { int v = gv::any<int>(n); gv::requires_((v >= -LIM) & (v <= LIM)); return v; }
static int extent(const char* n) { int v = gv::any<int>(n); gv::requires_((v >= 0) & (v <= LIM)); return v; }
struct R { int x, y, w, h; };
static R anyR(const char* x, const char* y, const char* w, const char* h) { R r; r.x = coord(x); r.y = coord(y); r.w = extent(w); r.h = extent(h); return r; }
static rectangle<int> mk(R r) { return rectangle<int>(r.x, r.y, r.w, r.h); }
static bool isR(const rectangle<int>& q, int x, int y, int w, int h) { return (q.top_left().x() == x) & (q.top_left().y() == y) & (q.width() == w) & (q.height() == h); }
static bool nullR(R r) { return (r.w <= 0) & (r.h <= 0); }
GV_CONTRACT(C21, basics)
{
    const R a = anyR("x", "y", "w", "h");
    const rectangle<int> r = mk(a);
    gv::ensures(isR(r, a.x, a.y, a.w, a.h), "the constructor stores position and size");
    const rectangle<int> p(point<int>(a.x, a.y), a.w, a.h);
    gv::ensures(isR(p, a.x, a.y, a.w, a.h), "the point constructor stores position and size");
    gv::ensures((r.top_right().x() == a.x + a.w) & (r.top_right().y() == a.y), "top_right");
    gv::ensures((r.bottom_left().x() == a.x) & (r.bottom_left().y() == a.y + a.h), "bottom_left");
    gv::ensures((r.bottom_right().x() == a.x + a.w) & (r.bottom_right().y() == a.y + a.h), "bottom_right");
    gv::ensures((r.size().width() == a.w) & (r.size().height() == a.h), "size");
    gv::ensures(r.is_null() == nullR(a), "is_null iff both extents are not positive");
    const R b = anyR("x2", "y2", "w2", "h2");
    const rectangle<int> s = mk(b);
    gv::ensures((r == s) == ((a.x == b.x) & (a.y == b.y) & (a.w == b.w) & (a.h == b.h)), "== compares position and size");
    gv::ensures((r != s) == !(r == s), "!= is the negation of ==");
    gv::ensures(isR(rectangle<int>(), 0, 0, 0, 0), "the default rectangle is zero");
}
GV_CONTRACT(C21, setters)
{
    const R a = anyR("x", "y", "w", "h");
    const int u = coord("u"), v = coord("v");
    rectangle<int> r = mk(a); r.set_width(u); gv::ensures(isR(r, a.x, a.y, u, a.h), "set_width");
    r = mk(a); r.set_height(u); gv::ensures(isR(r, a.x, a.y, a.w, u), "set_height");
    r = mk(a); r.set_size(u, v); gv::ensures(isR(r, a.x, a.y, u, v), "set_size");
    r = mk(a); r.set_position(point<int>(u, v)); gv::ensures(isR(r, u, v, a.w, a.h), "set_position");
}
GV_CONTRACT(C21, area)
{
    const R a = anyR("x", "y", "w", "h");
    gv::requires_((int64_t)a.w * a.h <= 2147483647);
    gv::ensures((int64_t)mk(a).area() == (int64_t)a.w * a.h, "area is width * height");
}
GV_CONTRACT(C21, center)
{
    const R a = anyR("x", "y", "w", "h");
    const point<double> c = mk(a).center();
    gv::ensures((2.0 * c.x() == 2.0 * a.x + a.w) & (2.0 * c.y() == 2.0 * a.y + a.h), "center is the midpoint");
}
GV_CONTRACT(C21, contains)
{
    const R a = anyR("x", "y", "w", "h"), b = anyR("x2", "y2", "w2", "h2");
    const int px = coord("px"), py = coord("py");
    const rectangle<int> r = mk(a), s = mk(b);
    const bool in_a = (px > a.x) & (py > a.y) & (px < a.x + a.w) & (py < a.y + a.h);
    const bool in_b = (px > b.x) & (py > b.y) & (px < b.x + b.w) & (py < b.y + b.h);
    gv::ensures(r.contains(point<int>(px, py)) == in_a, "contains(point) iff strictly inside");
    gv::ensures(gv::imp(r.contains(s) & in_b, in_a), "contains(rectangle) implies its interior is inside");
}
GV_CONTRACT(C21, intersection)
{
    const R a = anyR("x", "y", "w", "h"), b = anyR("x2", "y2", "w2", "h2");
    const int px = coord("px"), py = coord("py");
    const rectangle<int> r = mk(a), s = mk(b);
    const bool meets = (a.x < b.x + b.w) & (b.x < a.x + a.w) & (a.y < b.y + b.h) & (b.y < a.y + a.h) & !nullR(a) & !nullR(b);
    gv::ensures(r.intersects(s) == meets, "intersects iff the rectangles overlap and neither is null");
    gv::ensures(r.intersects(s) == s.intersects(r), "intersects is symmetric");
    const rectangle<int> i = r.get_intersection(s);
    const bool in_a = (px > a.x) & (py > a.y) & (px < a.x + a.w) & (py < a.y + a.h);
    const bool in_b = (px > b.x) & (py > b.y) & (px < b.x + b.w) & (py < b.y + b.h);
    const int ix = i.top_left().x(), iy = i.top_left().y();
    gv::ensures(((px > ix) & (py > iy) & (px < ix + i.width()) & (py < iy + i.height())) == (in_a & in_b), "get_intersection contains exactly the common interior points");
    gv::ensures((i.width() >= 0) & (i.height() >= 0), "get_intersection has non-negative size");
    const int mx = a.x < b.x ? b.x : a.x, my = a.y < b.y ? b.y : a.y;
    const int ex = a.x + a.w < b.x + b.w ? a.x + a.w : b.x + b.w, ey = a.y + a.h < b.y + b.h ? a.y + a.h : b.y + b.h;
    gv::ensures(gv::imp(meets & (mx < ex) & (my < ey), isR(i, mx, my, ex - mx, ey - my)), "get_intersection is the overlap");
}
GV_CONTRACT(C21, union)
{
    const R a = anyR("x", "y", "w", "h"), b = anyR("x2", "y2", "w2", "h2");
    const rectangle<int> r = mk(a), s = mk(b), u = r.get_union(s);
    const int mx = a.x < b.x ? a.x : b.x, my = a.y < b.y ? a.y : b.y;
    const int ex = a.x + a.w < b.x + b.w ? b.x + b.w : a.x + a.w, ey = a.y + a.h < b.y + b.h ? b.y + b.h : a.y + a.h;
    gv::ensures(gv::imp(nullR(b), u == r), "get_union with a null rectangle is this rectangle");
    gv::ensures(gv::imp(nullR(a) & !nullR(b), u == s), "get_union of a null rectangle is the other");
    gv::ensures(gv::imp(!nullR(a) & !nullR(b), isR(u, mx, my, ex - mx, ey - my)), "get_union is the bounding rectangle");
}
template <typename Rect> concept can_translate = requires(Rect r) { r.translated(1, 2); };
GV_CONTRACT(C21, translate)
{
    const R a = anyR("x", "y", "w", "h");
    const int dx = coord("dx"), dy = coord("dy");
    rectangle<int> r = mk(a);
    r.translate(dx, dy);
    gv::ensures(isR(r, a.x + dx, a.y + dy, a.w, a.h), "translate moves by the delta and keeps the size");
    const rectangle<int> s = mk(a);
    const rectangle<int> t = s.translated(dx, dy);
    gv::ensures(isR(t, a.x + dx, a.y + dy, a.w, a.h), "translated moves by the delta and keeps the size");
    gv::ensures(isR(s, a.x, a.y, a.w, a.h), "translated leaves the rectangle unchanged");
}
// line::intersects is used through its own contract (C23): here an uninterpreted function of the two segments
static const int LL = 1 << 24;
static int lcoord(const char* n) { int v = gv::any<int>(n); gv::requires_((v >= -LL) & (v <= LL)); return v; }
GV_CONTRACT(C21, intersects_line)
{
    R a; a.x = lcoord("x"); a.y = lcoord("y"); a.w = lcoord("w"); a.h = lcoord("h");
    gv::requires_((a.w >= 0) & (a.h >= 0));
    const point<int> p(lcoord("px"), lcoord("py")), q(lcoord("qx"), lcoord("qy"));
    const rectangle<int> r = mk(a);
    const line<int> l(p, q);
    const bool in_p = (p.x() > a.x) & (p.y() > a.y) & (p.x() < a.x + a.w) & (p.y() < a.y + a.h);
    const bool in_q = (q.x() > a.x) & (q.y() > a.y) & (q.x() < a.x + a.w) & (q.y() < a.y + a.h);
    const point<int> tl(a.x, a.y), tr(a.x + a.w, a.y), bl(a.x, a.y + a.h), br(a.x + a.w, a.y + a.h);
    const bool edges = l.intersects(line<int>(tl, tr)) | l.intersects(line<int>(tr, br)) | l.intersects(line<int>(br, bl)) | l.intersects(line<int>(bl, tl));
    gv::ensures(r.intersects(l) == (in_p | in_q | edges), "intersects(line) iff an end point is strictly inside or the segment meets an edge");
}
// ------------------------------------------------------------------ C22
template <typename T> struct lim { static bool ok(T) { return true; } };
template <> struct lim<int> { static bool ok(int v) { return (v >= -(1 << 30)) & (v < (1 << 30)); } };
template <typename T> static T pc(const char* n) { T v = num<T>(n); gv::requires_(lim<T>::ok(v)); return v; }
template <typename T> static void point_algebra()
{
    const T x = pc<T>("x"), y = pc<T>("y"), u = pc<T>("u"), v = pc<T>("v");
    const point<T> p(x, y), q(u, v);
    gv::ensures((p.x() == x) & (p.y() == y), "the constructor stores both components");
    gv::ensures(same((p + q).x(), x + u) & same((p + q).y(), y + v), "+ adds componentwise");
    gv::ensures(same((p - q).x(), x - u) & same((p - q).y(), y - v), "- subtracts componentwise");
    point<T> a = p; point<T>& ra = (a += q);
    gv::ensures(same(a.x(), x + u) & same(a.y(), y + v) & (&ra == &a), "+= adds componentwise");
    point<T> b = p; point<T>& rb = (b -= q);
    gv::ensures(same(b.x(), x - u) & same(b.y(), y - v) & (&rb == &b), "-= subtracts componentwise");
    point<T> c = p; c.add_delta(u, v);
    gv::ensures(same(c.x(), x + u) & same(c.y(), y + v), "add_delta adds componentwise");
    point<T> d = p; d.sub_delta(u, v);
    gv::ensures(same(d.x(), x - u) & same(d.y(), y - v), "sub_delta subtracts componentwise");
    point<T> e = p; e.set_x(u);
    gv::ensures((e.x() == u) & (e.y() == y), "set_x sets x only");
    point<T> f = p; f.set_y(v);
    gv::ensures((f.x() == x) & (f.y() == v), "set_y sets y only");
    gv::ensures((p == q) == ((x == u) & (y == v)), "== compares both components");
    gv::ensures((p != q) == !(p == q), "!= is the negation of ==");
    gv::ensures(p.is_origin() == ((x == T(0)) & (y == T(0))), "is_origin iff both components are zero");
    gv::ensures((point<T>().x() == T(0)) & (point<T>().y() == T(0)), "the default point is the origin");
}
GV_CONTRACT(C22, point_int) { point_algebra<int>(); }
GV_CONTRACT(C22, point_double) { point_algebra<double>(); }
GV_CONTRACT(C22, point_scale_int)
{
    const int x = gv::any<int>("x"), y = gv::any<int>("y"), k = gv::any<int>("k");
    gv::requires_((x >= -32768) & (x <= 32767) & (y >= -32768) & (y <= 32767) & (k >= -32768) & (k <= 32767));
    const point<int> p(x, y);
    gv::ensures(((p * k).x() == x * k) & ((p * k).y() == y * k), "* scales both components");
    point<int> a = p; a *= k;
    gv::ensures((a.x() == x * k) & (a.y() == y * k), "*= scales both components");
    gv::requires_(k != 0);
    gv::ensures(((p / k).x() == x / k) & ((p / k).y() == y / k), "/ divides both components");
    point<int> b = p; b /= k;
    gv::ensures((b.x() == x / k) & (b.y() == y / k), "/= divides both components");
}
GV_CONTRACT(C22, point_scale_double)
{
    const double x = num<double>("x"), y = num<double>("y"), k = num<double>("k");
    gv::requires_((mag(x) <= 1e100) & (mag(y) <= 1e100) & (mag(k) <= 1e100));
    const point<double> p(x, y);
    const double sx = mag(x) * mag(k), sy = mag(y) * mag(k);
    gv::ensures(near((p * k).x(), x * k, sx) & near((p * k).y(), y * k, sy), "* scales both components");
    point<double> a = p; a *= k;
    gv::ensures(near(a.x(), x * k, sx) & near(a.y(), y * k, sy), "*= scales both components");
    gv::requires_(mag(k) >= 1e-100);
    point<double> b = p; b /= k;
    const point<double> c = p / k;
    gv::ensures(near(c.x() * k, x, mag(x)) & near(c.y() * k, y, mag(y)), "/ divides both components");
    gv::ensures(near(b.x() * k, x, mag(x)) & near(b.y() * k, y, mag(y)), "/= divides both components");
}
GV_CONTRACT(C22, point_scale_mixed)
{
    const int x = gv::any<int>("x"), y = gv::any<int>("y"), k = gv::any<int>("k");
    gv::requires_((x >= -1000000) & (x <= 1000000) & (y >= -1000000) & (y <= 1000000) & (k >= -8000) & (k <= 8000));
    const point<int> p(x, y);
    const double s = k * 0.25; // exact scalars
    const point<int> q = p * s;
    gv::ensures((q.x() == (int)(((int64_t)x * k) / 4)) & (q.y() == (int)(((int64_t)y * k) / 4)), "* by a real scalar truncates each product");
    point<int> a = p; a *= s;
    gv::ensures((a.x() == q.x()) & (a.y() == q.y()), "*= agrees with * for real scalars");
}
GV_CONTRACT(C22, distance_int)
{
    const int x = gv::any<int>("x"), y = gv::any<int>("y"), u = gv::any<int>("u"), v = gv::any<int>("v");
    gv::requires_((x >= -16000) & (x <= 16000) & (y >= -16000) & (y <= 16000) & (u >= -16000) & (u <= 16000) & (v >= -16000) & (v <= 16000));
    const point<int> p(x, y), q(u, v);
    const int64_t d = p.distance(q), o = p.distance_from_origin();
    const int64_t dd = (int64_t)(x - u) * (x - u) + (int64_t)(y - v) * (y - v), oo = (int64_t)x * x + (int64_t)y * y;
    gv::ensures((d >= 0) & (d * d <= dd) & (dd < (d + 1) * (d + 1)), "distance is the Euclidean distance truncated");
    gv::ensures((o >= 0) & (o * o <= oo) & (oo < (o + 1) * (o + 1)), "distance_from_origin is the Euclidean norm truncated");
}
GV_CONTRACT(C22, distance_double)
{
    const double x = num<double>("x"), y = num<double>("y"), u = num<double>("u"), v = num<double>("v");
    gv::requires_((mag(x) <= 1e100) & (mag(y) <= 1e100) & (mag(u) <= 1e100) & (mag(v) <= 1e100));
    const point<double> p(x, y), q(u, v);
    const double d = p.distance(q), o = p.distance_from_origin();
    const double dd = (x - u) * (x - u) + (y - v) * (y - v), oo = x * x + y * y;
    gv::ensures((d >= 0.0) & near(d * d, dd, dd), "distance is the Euclidean distance");
    gv::ensures((o >= 0.0) & near(o * o, oo, oo), "distance_from_origin is the Euclidean norm");
}
template <typename T> static void size_algebra()
{
    const T w = num<T>("w"), h = num<T>("h"), u = num<T>("u"), v = num<T>("v");
    const size<T> s(w, h), t(u, v);
    gv::ensures((s.width() == w) & (s.height() == h), "the constructor stores both extents");
    gv::ensures((s == t) == ((w == u) & (h == v)), "== compares both extents");
    gv::ensures((s != t) == !(s == t), "!= is the negation of ==");
    gv::ensures(s.is_null() == ((w == T(0)) & (h == T(0))), "is_null iff both extents are zero");
    size<T> a = s; a.set_width(u);
    gv::ensures((a.width() == u) & (a.height() == h), "set_width sets the width only");
    size<T> b = s; b.set_height(v);
    gv::ensures((b.width() == w) & (b.height() == v), "set_height sets the height only");
}
GV_CONTRACT(C22, size_int) { size_algebra<int>(); }
GV_CONTRACT(C22, size_double) { size_algebra<double>(); }
template <typename T> static void minmax()
{
    const T a = num<T>("a"), b = num<T>("b"), c = num<T>("c"), d = num<T>("d");
    T m = tc::sdk::max(a, b);
    gv::ensures(((m == a) | (m == b)) & (a <= m) & (b <= m), "max of two");
    m = tc::sdk::max(a, b, c);
    gv::ensures(((m == a) | (m == b) | (m == c)) & (a <= m) & (b <= m) & (c <= m), "max of three");
    m = tc::sdk::max(a, b, c, d);
    gv::ensures(((m == a) | (m == b) | (m == c) | (m == d)) & (a <= m) & (b <= m) & (c <= m) & (d <= m), "max of four");
    m = tc::sdk::min(a, b);
    gv::ensures(((m == a) | (m == b)) & (m <= a) & (m <= b), "min of two");
    m = tc::sdk::min(a, b, c);
    gv::ensures(((m == a) | (m == b) | (m == c)) & (m <= a) & (m <= b) & (m <= c), "min of three");
    m = tc::sdk::min(a, b, c, d);
    gv::ensures(((m == a) | (m == b) | (m == c) | (m == d)) & (m <= a) & (m <= b) & (m <= c) & (m <= d), "min of four");
}
GV_CONTRACT(C22, minmax_int) { minmax<int>(); }
GV_CONTRACT(C22, minmax_double) { minmax<double>(); }
// ------------------------------------------------------------------ C23
GV_CONTRACT(C23, intersection)
{
    const int64_t ax = lcoord("ax"), ay = lcoord("ay"), bx = lcoord("bx"), by = lcoord("by");
    const int64_t cx = lcoord("cx"), cy = lcoord("cy"), dx = lcoord("dx"), dy = lcoord("dy");
    const line<int> l(point<int>(ax, ay), point<int>(bx, by)), m(point<int>(cx, cy), point<int>(dx, dy));
    // exact integer oracle: orientation form of the segment intersection test
    const int64_t den = (ax - bx) * (cy - dy) - (ay - by) * (cx - dx);
    const int64_t tn = (ax - cx) * (cy - dy) - (ay - cy) * (cx - dx); // t = tn / den along this line
    const int64_t un = (ax - cx) * (ay - by) - (ay - cy) * (ax - bx); // u = un / den along the other
    const bool t_in = den > 0 ? ((tn >= 0) & (tn <= den)) : ((tn <= 0) & (tn >= den));
    const bool u_in = den > 0 ? ((un >= 0) & (un <= den)) : ((un <= 0) & (un >= den));
    const bool meets = (den != 0) & t_in & u_in;
    const auto p = l.get_intersection(m);
    gv::ensures(p.has_value() == meets, "get_intersection yields a point iff the non-parallel segments meet");
    gv::ensures(l.intersects(m) == meets, "intersects iff the non-parallel segments meet");
    if (p.has_value())
    {
        const double px = p->x(), py = p->y(), s = 1.0 + (den > 0 ? (double)den : -(double)den);
        // the point is A + t (B - A): on the carrier of this line at parameter t
        const double k = 1e8;
        gv::ensures(near((px - ax) * den, (double)tn * (bx - ax), s * k) & near((py - ay) * den, (double)tn * (by - ay), s * k), "the point is on this segment at t");
        gv::ensures(near((px - cx) * den, (double)un * (dx - cx), s * k) & near((py - cy) * den, (double)un * (dy - cy), s * k), "the point is on the other segment at u");
    }
}
template <typename T> static void line_basics()
{
    const T ax = num<T>("ax"), ay = num<T>("ay"), bx = num<T>("bx"), by = num<T>("by"), cx = num<T>("cx"), cy = num<T>("cy"), dx = num<T>("dx"), dy = num<T>("dy");
    const point<T> a(ax, ay), b(bx, by), c(cx, cy), d(dx, dy);
    const line<T> l(a, b), m(c, d);
    gv::ensures((l.start() == a) & (l.end() == b), "the constructor stores both ends");
    const bool ac = (ax == cx) & (ay == cy), bd = (bx == dx) & (by == dy), ad = (ax == dx) & (ay == dy), bc = (bx == cx) & (by == cy);
    gv::ensures((l == m) == ((ac & bd) | (ad & bc)), "== ignores direction");
    gv::ensures((l != m) == !(l == m), "!= is the negation of ==");
    gv::ensures(l.is_null() == ((ax == bx) & (ay == by)), "is_null iff both ends coincide");
    gv::ensures(l.is_vertical() == (ax == bx), "is_vertical iff x coordinates agree");
    gv::ensures(l.is_horizontal() == (ay == by), "is_horizontal iff y coordinates agree");
    line<T> e = l; e.set_start(c);
    gv::ensures((e.start() == c) & (e.end() == b), "set_start sets the start only");
    line<T> f = l; f.set_end(d);
    gv::ensures((f.start() == a) & (f.end() == d), "set_end sets the end only");
}
GV_CONTRACT(C23, basics_int) { line_basics<int>(); }
GV_CONTRACT(C23, basics_double) { line_basics<double>(); }
