// P34: geometric constructions.
// VH-TECH: the defining equations of each construction evaluated on the returned points over generated well-conditioned, degenerate, tangent and touching configurations, with an independent long double oracle (de Boor for NURBS), under ASan+UBSan
#include "vh.hpp"
#include <iomanip>
using namespace vh;
using namespace jm;
typedef long double ld;
static const ld PI = acosl(-1.0L);
struct V
{
   ld x, y, z;
   V(ld a = 0, ld b = 0, ld d = 0): x(a), y(b), z(d) {}
   V(const Vertex3& v): x(v.x), y(v.y), z(v.z) {}
   V(const Vertex2& v): x(v.x), y(v.y), z(0) {}
   V operator+(const V& o) const { return V(x + o.x, y + o.y, z + o.z); }
   V operator-(const V& o) const { return V(x - o.x, y - o.y, z - o.z); }
   V operator*(ld f) const { return V(x * f, y * f, z * f); }
};
static ld dot(const V& a, const V& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(const V& a, const V& b) { return V(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
static ld len(const V& a) { return sqrtl(dot(a, a)); }
static ld cross2(const V& a, const V& b) { return a.x * b.y - a.y * b.x; }
static std::string show(const Vertex3& v) { std::ostringstream o; o << std::setprecision(17) << "(" << v.x << "," << v.y << "," << v.z << ")"; return o.str(); }
static std::string show(const Vertex2& v) { std::ostringstream o; o << std::setprecision(17) << "(" << v.x << "," << v.y << ")"; return o.str(); }
static bool nan(const Vertex2& v) { return std::isnan(v.x) && std::isnan(v.y); }
static bool nan(const Vertex3& v) { return std::isnan(v.x) && std::isnan(v.y) && std::isnan(v.z); }
static double coord(Rng& r) { return r.chance(0.3) ? (double)r.range(-10, 10) : r.real(-1, 1) * std::pow(10.0, r.real(-1, 2)); }
static Vertex3 pos3(Rng& r) { double a = coord(r), b = coord(r); return Vertex3(a, b, coord(r)); }
static Vertex2 pos2(Rng& r) { double a = coord(r); return Vertex2(a, coord(r)); }
static Vertex3 dir3(Rng& r)
{
   for(;;)
   {
      Vertex3 v;
      if(r.chance(0.3)) { double a = (double)r.range(-4, 4), b = (double)r.range(-4, 4); v = Vertex3(a, b, (double)r.range(-4, 4)); }
      else { double s = std::pow(10.0, r.real(-1, 2)), a = r.real(-1, 1) * s, b = r.real(-1, 1) * s; v = Vertex3(a, b, r.real(-1, 1) * s); }
      ld l = len(v);
      if(l >= 0.1 && l <= 100)return v;
   }
}
static Vertex2 dir2(Rng& r)
{
   for(;;)
   {
      Vertex2 v;
      if(r.chance(0.3)) { double a = (double)r.range(-4, 4); v = Vertex2(a, (double)r.range(-4, 4)); }
      else { double s = std::pow(10.0, r.real(-1, 2)), a = r.real(-1, 1) * s; v = Vertex2(a, r.real(-1, 1) * s); }
      ld l = len(v);
      if(l >= 0.1 && l <= 100)return v;
   }
}
static Vertex3 orthogonal(Rng& r, const Vertex3& n)   // rounded
{
   for(;;)
   {
      V o = cross(n, dir3(r));
      ld l = len(o);
      if(l < 0.01 * len(n))continue;
      o = o * (1 / l);
      return Vertex3((double)o.x, (double)o.y, (double)o.z);
   }
}
static const ld TOL = 1e-9L;   // relative to the size of the configuration (about 1000)
static ld size(std::initializer_list<V> l) { ld s = 1; for(const V& v : l)s = std::max(s, len(v)); return s; }

VH_WORKLOAD(planes, 40000, 2000000)
{
   Rng& r = c.r;
   Vertex3 q = pos3(r), n = dir3(r), p = pos3(r), d = dir3(r);
   ld s = dot(n, d) / len(n) / len(d);
   std::string in = "plane " + show(q) + " normal " + show(n) + " line " + show(p) + " direction " + show(d);
   if(r.chance(0.1))
   {
      // A line parallel to the plane
      double a = (double)r.range(-4, 4), b = (double)r.range(-4, 4), e = (double)r.range(-4, 4);
      if(a == 0 && b == 0 && e == 0)e = 1;
      n = Vertex3(a, b, e);
      if(r.chance(0.5))d = Vertex3(b, -a, 0);
      else d = Vertex3(0, e, -b);
      VH_CHECK(nan(intersectionPointLineAndPlane(q, n, p, d, true)) && nan(intersectionPointLineAndPlane(q, n, p, d, false)), "plane-parallel", "line " << show(d) << " and a parallel plane " << show(n) << " intersect");
      count("line-parallel-to-plane");
   }
   else if(fabsl(s) > 1e-3L)
   {
      ld lambda = dot(n, V(q) - V(p)) / dot(n, d);
      V w = V(p) + V(d) * lambda;
      ld tol = TOL * size({q, p, w}) / fabsl(s);
      Vertex3 x = intersectionPointLineAndPlane(q, n, p, d, true);
      VH_CHECK(len(V(x) - w) <= tol, "line-plane", in << " intersect at " << show(x));
      x = intersectionPointLineAndPlane(q, n, p, d, false);
      if(lambda >= 0 && lambda <= 1)
      {
         VH_CHECK(len(V(x) - w) <= tol, "segment-plane", in << " segment intersects at " << show(x));
         count("segment-hits-plane");
      }
      else if(lambda < -1e-5L || lambda > 1 + 1e-5L)
      {
         VH_CHECK(nan(x), "segment-beside-plane", in << " intersect at " << show(x) << " beyond the segment");
         count("segment-misses-plane");
      }
      count("line-hits-plane");
   }
   // The closest point of the plane
   ld h = dot(n, V(p) - V(q)) / len(n);
   V foot = V(p) - V(n) * (h / len(n));
   Vertex3 x = closestPointOnPlane(p, q, n);
   ld tol = TOL * size({q, p});
   VH_CHECK(len(V(x) - foot) <= tol, "closest-on-plane", "closest to " << show(p) << " on plane " << show(q) << " normal " << show(n) << " is " << show(x));
   VH_CHECK(fabsl((ld)distancePointToPlane(p, q, n) - fabsl(h)) <= tol, "distance-plane", "distance of " << show(p) << " to plane " << show(q) << " normal " << show(n) << " is " << distancePointToPlane(p, q, n));
   // A point at a chosen distance
   Vertex3 o = orthogonal(r, n);
   ld off = r.chance(0.5) ? (ld)r.real(-3e-6, 3e-6) : (ld)r.real(-10, 10);
   V at = V(q) + V(o) * r.real(-50, 50) + V(n) * (off / len(n));
   Vertex3 y((double)at.x, (double)at.y, (double)at.z);
   double maxd = r.chance(0.5) ? 0 : r.real(0, 12);
   ld m = fabsl(off) - maxd;
   if(m < 1e-6L - 1e-9L)VH_CHECK(isPointOnPlane(y, q, n, maxd), "on-plane", show(y) << " is not on plane " << show(q) << " normal " << show(n) << " within " << maxd);
   if(m > 1e-6L + 1e-9L)VH_CHECK(!isPointOnPlane(y, q, n, maxd), "off-plane", show(y) << " is on plane " << show(q) << " normal " << show(n) << " within " << maxd);
   if(m < 1e-6L)count("point-on-plane");
   else count("point-off-plane");
   distinct(hashStr(in));
}
VH_WORKLOAD(lines, 40000, 2000000)
{
   Rng& r = c.r;
   Vertex3 a = pos3(r), d = dir3(r), p = pos3(r);
   ld lambda = dot(V(p) - V(a), d) / dot(d, d);
   V foot = V(a) + V(d) * lambda;
   ld dist = len(V(p) - foot), tol = TOL * size({a, p});
   std::string in = "point " + show(p) + " line " + show(a) + " direction " + show(d);
   Vertex3 x = closestPointOnLine(p, a, d);
   VH_CHECK(len(V(x) - foot) <= tol, "closest-on-line", in << " closest " << show(x));
   VH_CHECK(fabsl(distancePointToLine(p, a, d) - dist) <= tol, "distance-line", in << " distance " << distancePointToLine(p, a, d));
   Vertex2 p2(p.x, p.y), a2(a.x, a.y), d2(d.x, d.y);
   if(len(d2) >= 0.1)
   {
      ld l2 = dot(V(p2) - V(a2), d2) / dot(d2, d2);
      Vertex2 y = closestPointOnLine(p2, a2, d2);
      VH_CHECK(len(V(y) - (V(a2) + V(d2) * l2)) <= tol, "closest-on-line-2d", show(p2) << " line " << show(a2) << " direction " << show(d2) << " closest " << show(y));
      VH_CHECK(fabsl(distancePointToPoint(p2, a2) - len(V(p2) - V(a2))) <= tol, "distance-points-2d", show(p2) << " " << show(a2));
      count("closest-2d");
   }
   VH_CHECK(fabsl(distancePointToPoint(p, a) - len(V(p) - V(a))) <= tol, "distance-points", show(p) << " " << show(a));
   // Segments
   Vertex3 e = a + d;
   lambda = dot(V(p) - V(a), V(e) - V(a)) / dot(V(e) - V(a), V(e) - V(a));
   x = closestPointOnLine(p, a, e, true);
   VH_CHECK(len(V(x) - foot) <= tol, "closest-on-extended", in << " closest " << show(x));
   VH_CHECK(fabsl(distancePointToLine(p, a, e, true) - dist) <= tol, "distance-extended", in << " distance " << distancePointToLine(p, a, e, true));
   x = closestPointOnLine(p, a, e, false);
   if(lambda >= 0 && lambda <= 1) { VH_CHECK(len(V(x) - foot) <= tol, "closest-on-segment", in << " closest " << show(x)); count("beside-segment"); }
   else if(lambda < -1e-5L || lambda > 1 + 1e-5L) { VH_CHECK(nan(x), "closest-beyond-segment", in << " closest " << show(x)); count("beyond-segment"); }
   ld sd = lambda < 0 ? len(V(p) - V(a)) : lambda > 1 ? len(V(p) - V(e)) : dist;
   // Up to the tolerance of one millionth of its length beyond its ends the line goes on
   VH_CHECK(fabsl(distancePointToLine(p, a, e, false) - sd) <= tol + 2e-6L * len(d), "distance-segment", in << " segment distance " << distancePointToLine(p, a, e, false) << " want " << (double)sd);
   // Points at a chosen distance
   Vertex3 o = orthogonal(r, d);
   ld off = r.chance(0.7) ? (ld)r.real(0, 3e-6) : (ld)r.real(0, 10);
   double along = r.chance(0.2) ? (double)r.range(0, 1) : r.real(-1, 2);
   V at = V(a) + V(d) * along + V(o) * off;
   Vertex3 q((double)at.x, (double)at.y, (double)at.z);
   bool near = off < 1e-6L - 1e-9L, far = off > 1e-6L + 1e-9L;
   if(near)VH_CHECK(isPointOnLine(q, a, d) && isPointOnLine(q, a, e, true), "on-line", show(q) << " is not on line " << show(a) << " direction " << show(d) << " distance " << (double)off);
   if(far)VH_CHECK(!isPointOnLine(q, a, d) && !isPointOnLine(q, a, e, true) && !isPointOnLine(q, a, e, false), "off-line", show(q) << " is on line " << show(a) << " direction " << show(d) << " distance " << (double)off);
   if(near && along >= 0 && along <= 1) { VH_CHECK(isPointOnLine(q, a, e, false), "on-segment", show(q) << " is not on segment " << show(a) << " " << show(e)); count("point-on-segment"); }
   if(along < -1e-4 || along > 1.0001)VH_CHECK(!isPointOnLine(q, a, e, false), "off-segment", show(q) << " is on segment " << show(a) << " " << show(e));
   Vertex3 t = p;
   t.x += (double)off;
   ld td = len(V(t) - V(p));
   if(fabsl(td - 1e-6L) > 1e-9L)VH_CHECK(isSamePoint(p, t) == (td < 1e-6L) && isSamePoint(t, p) == (td < 1e-6L), "same-point", show(p) << " and " << show(t) << " same: " << isSamePoint(p, t));
   count(near ? "point-on-line" : "point-off-line");
   distinct(hashStr(in));
}
VH_WORKLOAD(twolines, 40000, 2000000)
{
   Rng& r = c.r;
   Vertex3 p = pos3(r), d = dir3(r), q = pos3(r), e;
   int kind = (int)r.below(4);
   if(kind == 0)
   {
      // Parallel
      int f = (int)r.range(1, 4);
      double a = (double)r.range(-4, 4), b = (double)r.range(-4, 4), g = (double)r.range(-4, 4);
      if(a == 0 && b == 0 && g == 0)a = 1;
      d = Vertex3(a, b, g);
      e = r.chance(0.5) ? d * f : d * -f;
      ld want = len(cross(V(q) - V(p), d)) / len(d);
      VH_CHECK(fabsl(distanceLineToLine(p, d, q, e) - want) <= TOL * size({p, q}), "distance-parallel", "lines " << show(p) << " " << show(d) << " and " << show(q) << " " << show(e) << " have distance " << distanceLineToLine(p, d, q, e));
      VH_CHECK(nan(intersectionPoint(p, d, q, e)), "parallel-intersect", "parallel lines " << show(p) << " " << show(d) << " and " << show(q) << " " << show(e) << " intersect");
      if(r.chance(0.3))VH_CHECK(nan(intersectionPoint(p, d, p + d * 2.0, e)), "collinear-intersect", "collinear lines " << show(p) << " " << show(d) << " intersect");
      count("parallel-lines");
      return;
   }
   e = dir3(r);
   if(kind == 1)
   {
      // Nearly parallel
      double s = std::pow(10.0, r.real(-2.5, -1));
      e = d + orthogonal(r, d) * (s * (double)len(d));
      if(r.chance(0.5))e = e * -1.0;
   }
   ld sine = len(cross(d, e)) / len(d) / len(e);
   if(sine < 2e-3L) { count("skipped"); return; }
   bool meet = kind == 3 || (kind == 1 && r.chance(0.5));
   if(meet)
   {
      // Lines that meet
      V m = V(p) + V(d) * r.real(-3, 3) + V(e) * r.real(-3, 3);
      q = Vertex3((double)m.x, (double)m.y, (double)m.z);
   }
   std::string in = "lines " + show(p) + " " + show(d) + " and " + show(q) + " " + show(e);
   V n = cross(d, e);
   ld dist = fabsl(dot(V(q) - V(p), n)) / len(n);
   // x on the second line: (q + t e - p) . (d x n) = 0
   V n2 = cross(d, n);
   ld t = dot(V(p) - V(q), n2) / dot(e, n2);
   V w = V(q) + V(e) * t;
   ld tol = 2 * TOL * size({p, q, w}) / sine;
   Vertex3 x = closestPointOnLine(p, d, q, e);
   VH_CHECK(len(V(x) - w) <= tol, "closest-of-lines", in << " closest point of the second " << show(x));
   VH_CHECK(fabsl(distanceLineToLine(p, d, q, e) - dist) <= tol, "distance-lines", in << " have distance " << distanceLineToLine(p, d, q, e) << " want " << (double)dist);
   VH_CHECK(fabsl(distanceLineToLine(q, e, p, d) - dist) <= tol, "distance-lines-swapped", in << " have swapped distance " << distanceLineToLine(q, e, p, d) << " want " << (double)dist);
   x = intersectionPoint(p, d, q, e);
   if(dist < 1e-7L)
   {
      VH_CHECK(len(V(x) - w) <= tol, "intersection", in << " intersect at " << show(x));
      count("meeting-lines");
   }
   else if(dist > 1e-5L)
   {
      VH_CHECK(nan(x), "skew-intersect", in << " with distance " << (double)dist << " intersect at " << show(x));
      count("skew-lines");
   }
   if(kind == 1)count("nearly-parallel-lines");
   distinct(hashStr(in));
}
VH_WORKLOAD(plane_lines, 60000, 3000000)   // 2D
{
   Rng& r = c.r;
   Vertex2 p = pos2(r), d = dir2(r), q = pos2(r), e = dir2(r);
   if(r.chance(0.15))
   {
      double a = (double)r.range(-4, 4), b = (double)r.range(-4, 4);
      if(a == 0 && b == 0)a = 1;
      d = Vertex2(a, b);
      e = d * (double)(r.chance(0.5) ? r.range(1, 3) : -r.range(1, 3));
      if(r.chance(0.3)) { p = Vertex2((double)r.range(-10, 10), (double)r.range(-10, 10)); q = p + d * (double)r.range(-3, 3); }
      VH_CHECK(nan(intersectionPoint(p, d, q, e)), "parallel-2d", "parallel lines " << show(p) << " " << show(d) << " and " << show(q) << " " << show(e) << " intersect");
      VH_CHECK(!crosses(p, p + d, q, q + e) || q.x != q.x, "parallel-crosses", "parallel lines " << show(p) << " " << show(d) << " and " << show(q) << " " << show(e) << " cross");
      VH_CHECK(nan(extensionPointOnLine(p, d, q, q + e)), "parallel-extension", "ray " << show(p) << " " << show(d) << " hits parallel line " << show(q) << " " << show(e));
      count("parallel-2d");
      return;
   }
   if(r.chance(0.3))
   {
      // Small integers: meet in end points
      p = Vertex2((double)r.range(-3, 3), (double)r.range(-3, 3));
      q = Vertex2((double)r.range(-3, 3), (double)r.range(-3, 3));
      d = Vertex2((double)r.range(-3, 3), (double)r.range(-3, 3));
      e = Vertex2((double)r.range(-3, 3), (double)r.range(-3, 3));
      if(len(d) == 0 || len(e) == 0)return;
      if(r.chance(0.3))q = p + d;
      if(r.chance(0.3))e = p - q;
      if(len(e) == 0)return;
   }
   Vertex2 pe = p + d, qe = q + e;
   V D = V(pe) - V(p), E = V(qe) - V(q);
   ld sine = fabsl(cross2(d, e)) / len(d) / len(e);
   if(sine < 2e-3L) { count("skipped"); return; }
   std::string in = "lines " + show(p) + " to " + show(pe) + " and " + show(q) + " to " + show(qe);
   ld t = cross2(V(q) - V(p), E) / cross2(D, E), u = cross2(V(q) - V(p), D) / cross2(D, E);
   V w = V(p) + D * t;
   ld tol = TOL * 10 * size({p, q, w}) / sine;
   Vertex2 x = intersectionPoint(p, d, q, e);
   VH_CHECK(len(V(x) - w) <= tol, "intersection-2d", in << " intersect at " << show(x));
   ld bt = std::min(t, 1 - t), bu = std::min(u, 1 - u);   // inside if not negative
   bool hit = bt >= -1e-12L && bu >= -1e-12L, miss = bt < -1e-5L || bu < -1e-5L;
   if(hit || miss)
   {
      VH_CHECK(crosses(p, pe, q, qe) == hit, "crosses", in << (hit ? " do not cross" : " cross"));
      VH_CHECK(crosses(q, qe, p, pe) == hit && crosses(pe, p, q, qe) == hit, "crosses-swapped", in << (hit ? " do not cross if swapped" : " cross if swapped"));
      count(hit ? "crossing" : "not-crossing");
      if(hit && (bt < 1e-12L || bu < 1e-12L))count("crossing-at-ends");
   }
   // The ray from p in direction d
   x = extensionPointOnLine(p, d, q, qe);
   ld ahead = t * len(d);
   if(bu >= -1e-12L && ahead > 1e-3L) { VH_CHECK(len(V(x) - w) <= tol, "extension-line", "ray " << show(p) << " direction " << show(d) << " hits line " << show(q) << " to " << show(qe) << " at " << show(x)); count("ray-hits-line"); }
   else if(bu < -1e-5L || ahead < -1e-5L || fabsl(ahead) < 1e-8L) { VH_CHECK(nan(x), "extension-line-none", "ray " << show(p) << " direction " << show(d) << " hits line " << show(q) << " to " << show(qe) << " at " << show(x)); count("ray-misses-line"); }
   // Bisectors
   ld angle = acosl(std::max(-1.0L, std::min(1.0L, dot(d, e) / len(d) / len(e))));
   if(angle < 3)
   {
      V b = V(angleBisector(d, e));
      ld half = dot(b, d) / len(b) / len(d);
      VH_CHECK(fabsl(half - cosl(angle / 2)) < 1e-9L && fabsl(dot(b, e) / len(b) / len(e) - half) < 1e-9L, "bisector-2d", "bisector of " << show(d) << " and " << show(e) << " is " << show(angleBisector(d, e)));
   }
   Vertex3 d3 = dir3(r), e3 = dir3(r);
   angle = acosl(std::max(-1.0L, std::min(1.0L, dot(d3, e3) / len(d3) / len(e3))));
   if(angle < 3)
   {
      V b = V(angleBisector(d3, e3));
      ld half = dot(b, d3) / len(b) / len(d3);
      VH_CHECK(fabsl(half - cosl(angle / 2)) < 1e-9L && fabsl(dot(b, e3) / len(b) / len(e3) - half) < 1e-9L, "bisector", "bisector of " << show(d3) << " and " << show(e3) << " is " << show(angleBisector(d3, e3)));
      count("bisectors");
   }
   // Circle touching two lines
   if(sine > 0.05L)
   {
      double rad = r.real(0.1, 50);
      Vertex2 c0(7, 7);
      Status s = circleParameterBy2TangentsRadius(c0, rad, p, d, q, e);
      ld d1 = fabsl(cross2(V(c0) - V(p), d)) / len(d), d2 = fabsl(cross2(V(c0) - V(q), e)) / len(e);
      tol = TOL * 100 * size({p, q, w, V(rad, 0)}) / sine / sine;
      VH_CHECK(s == Status::eOK && fabsl(d1 - rad) <= tol && fabsl(d2 - rad) <= tol, "tangent-circle", "circle of radius " << rad << " touching " << in << " has centre " << show(c0) << " at distances " << (double)d1 << " and " << (double)d2);
      V s1 = V(p) - w, s2 = V(q) - w;
      if(len(s1) > 1e-3L && len(s2) > 1e-3L)
      {
         // In the quadrant of the two points
         ld k = cross2(s1, s2), a = cross2(V(c0) - w, s2) / k, b = cross2(s1, V(c0) - w) / k;
         VH_CHECK(a > 0 && b > 0, "tangent-quadrant", "circle of radius " << rad << " touching " << in << " has centre " << show(c0) << " in another quadrant");
         count("tangent-circles");
      }
   }
   distinct(hashStr(in));
}
VH_WORKLOAD(circles, 50000, 2000000)
{
   Rng& r = c.r;
   static const int triples[][3] = {{3, 4, 5}, {5, 12, 13}, {8, 15, 17}, {7, 24, 25}, {20, 21, 29}, {1, 0, 1}, {0, 1, 1}};
   Vertex2 a = pos2(r), b = pos2(r), x, y;
   double ra = r.real(0.1, 50), rb = r.real(0.1, 50);
   bool tangent = r.chance(0.3);
   if(tangent)
   {
      const int* t = triples[r.below(7)];
      int k = (int)r.range(1, 5) * (r.chance(0.5) ? 1 : -1), l = r.chance(0.5) ? 1 : -1;
      a = Vertex2((double)r.range(-50, 50), (double)r.range(-50, 50));
      b = a + Vertex2(t[0] * k, t[1] * abs(k) * l);
      double dist = t[2] * abs(k);
      if(r.chance(0.5)) { ra = (double)r.range(1, (int)dist * 4 - 1) / 4; rb = dist - ra; }
      else { ra = (double)r.range(1, 100) / 4; rb = dist + ra; if(r.chance(0.5))std::swap(ra, rb); }
   }
   else if(r.chance(0.3))
   {
      // overlapping by no more than rounding can make of it
      ld phi = r.real(0, 6.28), d = r.chance(0.5) ? (ld)ra + rb : fabsl((ld)ra - rb);
      d = d + (d == (ld)ra + rb ? -1 : 1) * powl(10, -(ld)r.real(7, 15)) * (ra + rb);
      b = Vertex2((double)(a.x + d * cosl(phi)), (double)(a.y + d * sinl(phi)));
   }
   ld dist = len(V(b) - V(a));
   std::string in = "circles " + show(a) + " radius " + std::to_string(ra) + " and " + show(b) + " radius " + std::to_string(rb);
   intersectionPointsOfCircles(a, ra, b, rb, x, y);
   ld gap = std::max(dist - (ra + rb), fabsl((ld)ra - rb) - dist);   // positive: apart or nested
   ld big = size({a, b, V(ra, 0), V(rb, 0)});
   auto on = [&](const Vertex2& p, ld tol) { return fabsl(len(V(p) - V(a)) - ra) <= tol && fabsl(len(V(p) - V(b)) - rb) <= tol; };
   if(tangent)
   {
      VH_CHECK(on(x, 1e-6L) && on(y, 1e-6L) && len(V(x) - V(y)) < 1e-4L, "circles-touch", in << " touch, found " << show(x) << " and " << show(y));
      count("touching-circles");
   }
   else if(gap < -1e-6L)
   {
      ld aa = ((ld)ra * ra - (ld)rb * rb + dist * dist) / (2 * dist), h = sqrtl(std::max(0.0L, (ld)ra * ra - aa * aa));
      ld tol = TOL * 100 * big * big / std::min(h, dist);
      VH_CHECK(on(x, tol) && on(y, tol), "circles-intersect", in << " intersect at " << show(x) << " and " << show(y));
      VH_CHECK(fabsl(len(V(x) - V(y)) - 2 * h) <= 2 * tol, "circles-two", in << " intersect at " << show(x) << " and " << show(y) << " want " << (double)(2 * h) << " apart");
      count("intersecting-circles");
   }
   else if(gap < -2e-15L * big && dist > 0.1L)
   {
      VH_CHECK(on(x, 1e-5L * big) && on(y, 1e-5L * big), "circles-nearly-touch", in << " overlap by " << (double) - gap << ", found " << show(x) << " and " << show(y));
      count("nearly-touching-circles");
   }
   else if(gap > 1e-9L)
   {
      VH_CHECK(nan(x) && nan(y), "circles-apart", in << " intersect at " << show(x) << " and " << show(y));
      count("separate-circles");
   }
   if(r.chance(0.05))
   {
      intersectionPointsOfCircles(a, ra, a, ra, x, y);
      VH_CHECK(nan(x) && nan(y), "circles-same", "the same circle " << show(a) << " " << ra << " intersects itself at " << show(x));
      intersectionPointsOfCircles(a, ra, a, ra + 1, x, y);
      VH_CHECK(nan(x) && nan(y), "circles-concentric", "concentric circles " << show(a) << " intersect at " << show(x));
      count("same-circles");
   }
   // Circle in space
   Vertex3 ctr = pos3(r), n = dir3(r), p = pos3(r);
   double rad = r.real(0.1, 50);
   int kind = (int)r.below(4);
   if(kind == 0)p = ctr + n * r.real(-5, 5);   // on the axis (nearly)
   else if(kind == 1)p = ctr;
   V rel = V(p) - V(ctr);
   ld h = dot(rel, n) / len(n);
   ld off = len(rel - V(n) * (h / len(n)));
   ld want = hypotl(h, off - rad);
   Vertex3 cp = closestPointOnCircle(p, ctr, rad, n);
   std::string ci = "circle " + show(ctr) + " radius " + std::to_string(rad) + " normal " + show(n) + " point " + show(p);
   ld tol = 1e-8L * size({ctr, p, V(rad, 0)});
   if(off < 1e-9L || off > 1e-5L)
   {
      VH_CHECK(fabsl(len(V(cp) - V(ctr)) - rad) <= tol && fabsl(dot(V(cp) - V(ctr), n)) / len(n) <= tol + (off < 1e-4L ? 1e-4L : 0), "closest-circle-on", ci << " closest " << show(cp) << " is not on the circle");
      VH_CHECK(fabsl(len(V(cp) - V(p)) - want) <= tol + (off < 1e-4L ? 1e-4L : 0), "closest-circle", ci << " closest " << show(cp) << " distance " << (double)len(V(cp) - V(p)) << " want " << (double)want);
      VH_CHECK(fabsl(distancePointToCircle(p, ctr, rad, n) - want) <= tol + (off < 1e-4L ? 1e-4L : 0), "distance-circle", ci << " distance " << distancePointToCircle(p, ctr, rad, n) << " want " << (double)want);
      count(off < 1e-9L ? "on-axis" : "beside-axis");
   }
   // Points at a chosen distance
   Vertex3 o = orthogonal(r, n);
   ld f = r.chance(0.6) ? (ld)r.real(-3e-6, 3e-6) : (ld)r.real(-0.05, 10), dirn = r.unit() * 2 * PI;
   V on3 = V(ctr) + V(o) * (rad / len(o) + f * cosl(dirn)) + V(n) * (f * sinl(dirn) / len(n));
   p = Vertex3((double)on3.x, (double)on3.y, (double)on3.z);
   if(fabsl(fabsl(f) - 1e-6L) > 2e-9L)VH_CHECK(isPointOnCircle(p, ctr, rad, n) == (fabsl(f) < 1e-6L), "on-circle", "circle " << show(ctr) << " radius " << rad << " normal " << show(n) << " point " << show(p) << " at distance " << (double)fabsl(f));
   count(fabsl(f) < 1e-6L ? "point-on-circle" : "point-off-circle");
   // Three points
   Vertex2 q[3];
   if(r.chance(0.2))
   {
      for(Vertex2& v : q)v = Vertex2((double)r.range(-20, 20), (double)r.range(-20, 20));
      if(r.chance(0.4))q[2] = q[0] + (q[1] - q[0]) * (double)r.range(-2, 2);
   }
   else for(Vertex2& v : q)v = pos2(r);
   ld area = cross2(V(q[1]) - V(q[0]), V(q[2]) - V(q[0]));
   bool whole = true;
   for(const Vertex2& v : q)whole = whole && v.x == std::floor(v.x) && v.y == std::floor(v.y);
   Vertex2 centre;
   double rr = -1;
   Status s = circleParameterBy3Points(centre, rr, q[0], q[1], q[2]);
   std::string ti = show(q[0]) + " " + show(q[1]) + " " + show(q[2]);
   ld sz = size({q[0], q[1], q[2]});
   if(area == 0 && whole)
   {
      VH_CHECK(s != Status::eOK, "collinear-circle", "collinear " << ti << " have the centre " << show(centre));
      count("collinear-points");
   }
   else if(fabsl(area) > 1e-3L * sz * sz)
   {
      ld t = 1e-9L * sz * sz * sz * sz / fabsl(area) + 1e-9L * sz;
      bool ok = s == Status::eOK;
      for(const Vertex2& v : q)ok = ok && fabsl(len(V(v) - V(centre)) - rr) <= t;
      VH_CHECK(ok, "three-points", ti << " have the centre " << show(centre) << " radius " << rr);
      count("three-points");
   }
   distinct(hashStr(in));
}
// First hit of the ray with the ellipse (axes a along x rotated by rot, b), polar angle of the ellipse
// frame within [start,end]
static bool inArc(ld angle, ld start, ld end, ld& margin)
{
   ld span = fmodl(end - start, 2 * PI);
   if(span <= 0)span += 2 * PI;
   ld rel = fmodl(angle - start, 2 * PI);
   if(rel < 0)rel += 2 * PI;
   margin = std::min(std::min(fabsl(rel), fabsl(rel - span)), fabsl(2 * PI - rel));
   if(fabsl(span - 2 * PI) < 1e-9L || span < 1e-9L) { margin = 1; return true; }
   if(span < 1e-5L || fabsl(span - 2 * PI) < 1e-5L)margin = 0;   // empty or whole within the tolerance
   return rel <= span;
}
static void ray(Rng& r, bool ellipse)
{
   Vertex2 o = pos2(r), d = dir2(r), ctr = pos2(r), axis;
   double rad = r.real(0.2, 40), ratio = 1;
   if(r.chance(0.3))o = ctr + Vertex2(r.real(-1, 1) * rad, r.real(-1, 1) * rad);
   if(r.chance(0.4)) { Vertex2 aim = ctr + Vertex2(r.real(-1, 1) * rad, r.real(-1, 1) * rad) - o; ld l = len(aim); if(l >= 0.1 && l <= 100)d = aim; }
   static const double quarters[] = {-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8};
   double start, end;
   axis = Vertex2(rad, 0);
   if(ellipse)
   {
      ratio = r.real(0.1, 2);
      start = quarters[r.below(12)] * M_PI / 2;
      end = quarters[r.below(12)] * M_PI / 2;
      if(r.chance(0.6))
      {
         double k = r.real(-M_PI, M_PI);
         axis = Vertex2(rad * cos(k), rad * sin(k));
         start = 0;
         end = 2 * M_PI;
      }
   }
   else
   {
      start = r.chance(0.3) ? quarters[r.below(12)] * M_PI / 2 : r.real(-10, 10);
      end = r.chance(0.2) ? start + 2 * M_PI : r.chance(0.3) ? quarters[r.below(12)] * M_PI / 2 : r.real(-10, 10);
   }
   ld k = atan2l(axis.y, axis.x), A = len(axis), B = A * ratio;
   auto turn = [&](const V& v) { return V(v.x * cosl(k) + v.y * sinl(k), -v.x * sinl(k) + v.y * cosl(k)); };
   V Q = turn(V(o) - V(ctr)), D = turn(d);
   ld qa = D.x * D.x / A / A + D.y * D.y / B / B, qb = (D.x * Q.x / A / A + D.y * Q.y / B / B) / qa, qc = (Q.x * Q.x / A / A + Q.y * Q.y / B / B - 1) / qa;
   ld rt = qb * qb - qc;
   std::ostringstream is;
   is << std::setprecision(17) << "ray " << show(o) << " direction " << show(d) << (ellipse ? " ellipse " : " arc ") << show(ctr) << " axis " << show(axis) << " ratio " << ratio << " from " << start << " to " << end;
   if(fabsl(rt) < 1e-5L) { count("skipped"); return; }
   Vertex2 x = ellipse ? extensionPointOnEllipse(o, d, ctr, axis, ratio, start, end) : extensionPointOnArc(o, d, ctr, rad, start, end);
   const char* hitKey = ellipse ? "ellipse-hit" : "arc-hit";
   if(rt < 0)
   {
      VH_CHECK(nan(x), "ray-miss", is.str() << " hits at " << show(x));
      count(ellipse ? "ellipse-missed" : "arc-missed");
      return;
   }
   bool sure = true, have = false;
   ld best = 0;
   int candidates = 0;
   for(int i = 0; i < 2; i++)
   {
      ld n = -qb + (i ? 1 : -1) * sqrtl(rt), margin;
      if(n < -1e-5L)continue;
      if(n < 1e-5L) { if(n > 1e-9L)sure = false; continue; }
      V h = Q + D * n;
      candidates++;
      bool in = inArc(atan2l(h.y, h.x), start, end, margin);
      if(margin < 1e-5L) { sure = false; }
      if(in && !have) { have = true; best = n; }
   }
   if(!sure) { count("skipped"); return; }
   if(!have)
   {
      VH_CHECK(nan(x), "ray-none", is.str() << " hits at " << show(x));
      count(candidates ? "hit-outside-arc" : "hit-behind");
      return;
   }
   V w = V(o) + V(d) * best;
   ld tol = 1e-8L * size({o, ctr, w}) * size({o, ctr, w}) / std::min(1.0L, sqrtl(rt)) / std::min(A, B);
   VH_CHECK(len(V(x) - w) <= tol, hitKey, is.str() << " hits at " << show(x) << " want (" << (double)w.x << "," << (double)w.y << ")");
   count(ellipse ? "ellipse-hits" : "arc-hits");
   if(candidates == 2)count("first-of-two");
   distinct(hashStr(is.str()));
}
VH_WORKLOAD(arcs, 40000, 2000000) { ray(c.r, false); }
VH_WORKLOAD(ellipses, 40000, 2000000) { ray(c.r, true); }
VH_WORKLOAD(tangents, 5000, 200000)
{
   // A ray exactly touching a circle is reported, up to the tolerance of the library
   Rng& r = c.r;
   Vertex2 ctr((double)r.range(-20, 20), (double)r.range(-20, 20));
   double rad = (double)r.range(1, 20);
   int side = (int)r.below(4);
   double away = (double)r.range(1, 10), speed = (double)r.range(1, 3);
   static const int dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1};
   Vertex2 touch = ctr + Vertex2(dx[side] * rad, dy[side] * rad), d(-dy[side] * speed, dx[side] * speed);
   Vertex2 o = touch - d * away;
   Vertex2 x = extensionPointOnArc(o, d, ctr, rad, 0, 2 * M_PI);
   VH_CHECK(len(V(x) - V(touch)) < 1e-2L, "tangent-ray", "ray " << show(o) << " direction " << show(d) << " touches circle " << show(ctr) << " radius " << rad << " at " << show(x));
   x = extensionPointOnArc(o, d * -1.0, ctr, rad, 0, 2 * M_PI);
   VH_CHECK(nan(x), "tangent-behind", "ray away from the touching point hits at " << show(x));
   // An arc that contains the touching point, or not
   double at = side * M_PI / 2, gap = r.real(0.1, 2), rest = r.real(0.1, 2 * M_PI - gap - 0.1);
   bool inside = r.chance(0.5);
   double from = inside ? at - std::min(gap, rest) : at + gap, to = inside ? at + r.real(0.1, 2 * M_PI - 0.2 - (at - from)) : at + gap + std::min(rest, 2 * M_PI - gap - 0.1 - gap);
   if(r.chance(0.3)) { double turn = 2 * M_PI * (double)r.range(-2, 2); from += turn; to += turn; }
   if(inside || to > from + 0.05)
   {
      x = extensionPointOnArc(o, d, ctr, rad, from, to);
      if(inside)VH_CHECK(len(V(x) - V(touch)) < 1e-2L, "tangent-arc", "ray " << show(o) << " direction " << show(d) << " touches arc " << show(ctr) << " radius " << rad << " from " << from << " to " << to << " at " << show(x));
      else VH_CHECK(nan(x), "tangent-beside-arc", "ray " << show(o) << " direction " << show(d) << " touches the circle beside the arc " << show(ctr) << " radius " << rad << " from " << from << " to " << to << ", found " << show(x));
      count(inside ? "tangent-arcs" : "tangents-beside-arc");
   }
   count("tangent-rays");
   distinct(hashStr(show(o) + show(d)));
}
VH_WORKLOAD(nurbs, 12000, 400000)
{
   Rng& r = c.r;
   uint32 p = (uint32)r.range(1, 5), n = p + 1 + (uint32)r.below(8);
   std::vector<Vertex3> cp(n);
   std::vector<double> w(n), k;
   for(Vertex3& v : cp)v = pos3(r);
   bool flat = r.chance(0.3);
   for(double& x : w)x = flat ? 1 : r.real(0.1, 10);
   bool clamped = r.chance(0.75);
   if(clamped)
   {
      double t = 0;
      for(uint32 i = 0; i <= p; i++)k.push_back(0);
      while(k.size() < n)
      {
         t += r.chance(0.5) ? 1 : r.real(0.01, 3);
         uint32 mult = r.chance(0.8) ? 1 : (uint32)r.range(1, p);
         for(uint32 i = 0; i < mult && k.size() < n; i++)k.push_back(t);
      }
      t += r.chance(0.5) ? 1 : r.real(0.01, 3);
      for(uint32 i = 0; i <= p; i++)k.push_back(t);
   }
   else
   {
      double t = r.chance(0.5) ? 0 : r.real(-2, 0);
      for(uint32 i = 0; i < n + p + 1; i++) { k.push_back(t); t += r.chance(0.5) ? 1 : r.real(0.01, 3); }
   }
   Nurbs curve(p, cp.data(), n, k.data(), (uint32)k.size(), w.data(), n);
   VH_CHECK(curve.controlPointCount() == n && curve.knotCount() == k.size(), "nurbs-counts", "counts " << curve.controlPointCount() << " " << curve.knotCount());
   for(uint32 i = 0; i < k.size(); i++)VH_CHECK(curve.knot(i) == k[i], "nurbs-knot", "knot " << i << " is " << curve.knot(i));
   VH_CHECK(curve.start() == 0 && curve.end() == k.back(), "nurbs-range", "from " << curve.start() << " to " << curve.end());
   double lo = k[p], hi = k[n];
   for(int rep = 0; rep < 6; rep++)
   {
      double t = r.real(lo, hi);
      if(rep == 0)t = lo;
      else if(rep == 1 && clamped)t = curve.end();
      else if(rep == 2)t = k[(size_t)r.range((int)p, (int)n - 1)];
      if(t < lo || (t >= hi && !clamped))continue;
      // de Boor in homogeneous coordinates
      uint32 s = p;
      while(s + 1 < n && k[s + 1] <= t)s++;
      struct H { V v; ld w; };
      std::vector<H> d(p + 1);
      for(uint32 j = 0; j <= p; j++) { uint32 i = j + s - p; d[j].v = V(cp[i]) * w[i]; d[j].w = w[i]; }
      for(uint32 l = 1; l <= p; l++)
         for(uint32 j = p; j >= l; j--)
         {
            uint32 i = j + s - p;
            ld den = (ld)k[i + p - l + 1] - k[i], a = den == 0 ? 0 : ((ld)t - k[i]) / den;
            d[j].v = d[j - 1].v * (1 - a) + d[j].v * a;
            d[j].w = d[j - 1].w * (1 - a) + d[j].w * a;
         }
      V want = d[p].v * (1 / d[p].w);
      Vertex3 x = curve.point(t);
      ld big = 1;
      for(const Vertex3& v : cp)big = std::max(big, len(v));
      VH_CHECK(len(V(x) - want) <= 1e-9L * big, "nurbs-point", "degree " << p << " with " << n << " control points" << (clamped ? ", clamped," : "") << " at " << std::setprecision(17) << t << " of " << lo << ".." << hi << " is " << show(x) << " want (" << (double)want.x << "," << (double)want.y << "," << (double)want.z << ")");
      if(clamped && (t == lo || t == hi))
      {
         const Vertex3& e = t == lo ? cp.front() : cp.back();
         VH_CHECK(len(V(x) - V(e)) <= 1e-9L * big, "nurbs-end", "at the end " << t << " the curve is at " << show(x) << " instead of " << show(e));
         count("nurbs-ends");
      }
      count("nurbs-points");
   }
   distinct(mix(n, hashBytes(k.data(), k.size() * sizeof(double))));
}
VH_REQUIRE("tangent-arcs", "tangents-beside-arc", "line-parallel-to-plane", "segment-hits-plane", "segment-misses-plane", "line-hits-plane", "point-on-plane", "point-off-plane", "closest-2d", "beside-segment", "beyond-segment", "point-on-segment", "point-on-line", "point-off-line", "parallel-lines", "meeting-lines", "skew-lines", "nearly-parallel-lines", "parallel-2d", "crossing", "not-crossing", "crossing-at-ends", "ray-hits-line", "ray-misses-line", "bisectors", "tangent-circles", "touching-circles", "nearly-touching-circles", "intersecting-circles", "separate-circles", "same-circles", "on-axis", "beside-axis", "point-on-circle", "point-off-circle", "collinear-points", "three-points", "ellipse-missed", "arc-missed", "hit-outside-arc", "hit-behind", "ellipse-hits", "arc-hits", "first-of-two", "tangent-rays", "nurbs-ends", "nurbs-points")
VH_DRIVER("P34", "every returned point satisfies its defining equation and is the closest or first one, points are missing only where none exists")
