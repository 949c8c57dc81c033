// P35: rectangles and extents.
// VH-TECH: operation histories on rectangles with exactly representable coordinates against an interval model, set operations judged by membership of every edge, corner and neighbouring grid point, extents of points and nested extents in every order against the componentwise minimum and maximum, under ASan+UBSan
#include "vh.hpp"
using namespace vh;
using namespace jm;
struct Box { double l = 0, t = 0, r = 0, b = 0; };
static std::string show(const Rect& x) { std::ostringstream o; o.precision(17); o << "<" << x.x() << "," << x.y() << "," << x.width() << "," << x.height() << ">"; return o.str(); }
static std::string show(const Box& x) { std::ostringstream o; o.precision(17); o << "[" << x.l << ".." << x.r << "]x[" << x.t << ".." << x.b << "]"; return o.str(); }
static Rect rect(const Box& b) { return Rect(b.l, b.t, b.r - b.l, b.b - b.t); }
static bool same(const Point& p, double x, double y) { return p.x() == x && p.y() == y; }
static double unit;
static double co(Rng& r) { return (double)r.range(-8, 8) * unit; }
static Box box(Rng& r, bool norm)
{
   Box b;
   b.l = co(r);
   b.t = co(r);
   b.r = co(r);
   b.b = co(r);
   if(r.chance(0.15))b.r = b.l;
   if(r.chance(0.15))b.b = b.t;
   if(norm) { if(b.r < b.l)std::swap(b.l, b.r); if(b.b < b.t)std::swap(b.b, b.t); }
   return b;
}
static void is(const Rect& x, const Box& w, const std::string& op)
{
   VH_CHECK(x.left() == w.l && x.top() == w.t && x.right() == w.r && x.bottom() == w.b, "edges-" + op.substr(0, op.find(' ')), op << " gives " << show(x) << " with edges " << x.left() << " " << x.top() << " " << x.right() << " " << x.bottom() << " want " << show(w));
   double cx = (w.l + w.r) / 2, cy = (w.t + w.b) / 2;
   VH_CHECK(x.x() == w.l && x.y() == w.t && x.width() == w.r - w.l && x.height() == w.b - w.t && same(x.origin(), w.l, w.t) && x.size() == Size(w.r - w.l, w.b - w.t), "parts", "origin or size of " << show(x) << " after " << op << " want " << show(w));
   VH_CHECK(same(x.topLeft(), w.l, w.t) && same(x.topRight(), w.r, w.t) && same(x.bottomLeft(), w.l, w.b) && same(x.bottomRight(), w.r, w.b), "corners", "corners of " << show(x) << " want " << show(w));
   VH_CHECK(same(x.center(), cx, cy) && same(x.topCenter(), cx, w.t) && same(x.bottomCenter(), cx, w.b) && same(x.leftCenter(), w.l, cy) && same(x.rightCenter(), w.r, cy), "centers", "centers of " << show(x) << " want " << show(w));
   VH_CHECK(x.isEmpty() == (w.l == w.r || w.t == w.b), "empty", show(x) << ".isEmpty() is " << x.isEmpty());
   count("states");
}
static bool in(const Box& b, double x, double y) { return x >= b.l && x <= b.r && y >= b.t && y <= b.b; }
static void sets(Rng& r)
{
   Box A = box(r, true), B = box(r, true);
   if(r.chance(0.2))B.l = A.r, B.r = std::max(B.r, B.l);
   Rect a = rect(A), b = rect(B);
   std::string what = show(a) + " and " + show(b);
   bool overlap = A.l <= B.r && B.l <= A.r && A.t <= B.b && B.t <= A.b;
   VH_CHECK(a.intersects(b) == overlap && b.intersects(a) == overlap, "intersects", what << ": intersects is " << a.intersects(b) << b.intersects(a));
   Rect s = a.intersection(b), i = a, u = a, s2 = b.intersection(a);
   i.intersect(b);
   u.unionWith(b);
   Rect self = a;
   self.unionWith(a);
   is(self, A, "unionWith itself");
   Box U = {std::min(A.l, B.l), std::min(A.t, B.t), std::max(A.r, B.r), std::max(A.b, B.b)};
   is(u, U, "unionWith of " + what);
   if(!overlap)
   {
      VH_CHECK(s.isEmpty() && s2.isEmpty() && i.isEmpty() && !(s.width() < 0) && !(i.width() < 0) && !(i.height() < 0), "disjoint", "intersection of the disjoint " << what << " is " << show(s) << ", " << show(s2) << ", intersect gives " << show(i));
      count("disjoint");
      return;
   }
   is(s, {std::max(A.l, B.l), std::max(A.t, B.t), std::min(A.r, B.r), std::min(A.b, B.b)}, "intersection of " + what);
   is(s2, {std::max(A.l, B.l), std::max(A.t, B.t), std::min(A.r, B.r), std::min(A.b, B.b)}, "intersection of " + what);
   is(i, {std::max(A.l, B.l), std::max(A.t, B.t), std::min(A.r, B.r), std::min(A.b, B.b)}, "intersect of " + what);
   double xs[4] = {A.l, A.r, B.l, B.r}, ys[4] = {A.t, A.b, B.t, B.b};
   for(double x0 : xs)for(int dx = -1; dx <= 1; dx++)for(double y0 : ys)for(int dy = -1; dy <= 1; dy++)
            {
               double x = x0 + dx * unit / 2, y = y0 + dy * unit / 2;
               bool ia = in(A, x, y), ib = in(B, x, y);
               VH_CHECK(a.contains(x, y) == ia && a.contains(Point(x, y)) == ia && a.contains(Vertex2(x, y)) == ia, "contains", show(a) << " contains (" << x << "," << y << "): " << a.contains(x, y));
               VH_CHECK(s.contains(x, y) == (ia && ib) && i.contains(x, y) == (ia && ib), "member-intersection", "(" << x << "," << y << ") in the intersection of " << what << ": " << s.contains(x, y) << i.contains(x, y));
               VH_CHECK(!(ia || ib) || u.contains(x, y), "member-union", "(" << x << "," << y << ") is not in the union of " << what);
               count("points");
            }
   count(s.isEmpty() ? "touching" : "overlapping");
   if(A.l <= B.l && A.r >= B.r && A.t <= B.t && A.b >= B.b)count("nested");
}
VH_WORKLOAD(rectangles, 40000, 800000)
{
   Rng& r = c.r;
   unit = ldexp(1, (int)r.range(-10, 40));
   sets(r);
   Box m = box(r, false);
   Rect x = rect(m);
   switch(r.below(4))
   {
      case 0: x = Rect(Point(m.l, m.t), Size(m.r - m.l, m.b - m.t)); break;
      case 1: x = Rect(m.l, m.t, Size(m.r - m.l, m.b - m.t)); break;
      case 2:
         x = Rect();
         is(x, Box(), "new");
         x.setOrigin(m.l, m.t);
         x.setSize(m.r - m.l, m.b - m.t);
         break;
      default: break;
   }
   is(x, m, "construction");
   uint64_t sig = 0;
   for(int k = 0; k < 8; k++)
   {
      double v = co(r), w = co(r), W = m.r - m.l, H = m.b - m.t;
      int op = (int)r.below(24);
      sig = mix(sig, (uint64_t)op);
      std::ostringstream name;
      name << "operation-" << op << " (" << v << ", " << w << ") on " << show(m);
      Box o = box(r, false);
      switch(op)
      {
         case 0: x.setX(v); m.l = v; m.r = v + W; break;
         case 1: x.setY(v); m.t = v; m.b = v + H; break;
         case 2: x.setWidth(v); m.r = m.l + v; break;
         case 3: x.setHeight(v); m.b = m.t + v; break;
         case 4: x.setSize(Size(v, w)); m.r = m.l + v; m.b = m.t + w; break;
         case 5: x.setOrigin(Point(v, w)); m = {v, w, v + W, w + H}; break;
         case 6: x.moveLeft(v); m.l += v; break;
         case 7: x.moveRight(v); m.r += v; break;
         case 8: x.moveBottom(v); m.b += v; break;
         case 9: x.setTop(v); m.t = v; break;
         case 10: x.setBottom(v); m.b = v; break;
         case 11: x.setLeft(v); m.l = v; break;
         case 12: x.setRight(v); m.r = v; break;
         case 13: x.moveHorizontal(v); m.l += v; m.r += v; break;
         case 14: x.moveVertical(v); m.t += v; m.b += v; break;
         case 15: x.move(Point(v, w)); m = {m.l + v, m.t + w, m.r + v, m.b + w}; break;
         case 16: x.alignTopLeft(rect(o)); m = {o.l, o.t, o.l + W, o.t + H}; break;
         case 17: x.alignBottomLeft(rect(o)); m = {o.l, o.b - H, o.l + W, o.b}; break;
         case 18: x.shiftTop(v); m.t += v; break;
         case 19: x.shiftLeft(v); m.l += v; break;
         case 20: x.shiftRight(v); m.r += v; break;
         case 21: x.shiftBottom(v); m.b += v; break;
         default:
            if(m.r < m.l || m.b < m.t)count("normalised");
            x.normalize();
            if(m.r < m.l)std::swap(m.l, m.r);
            if(m.b < m.t)std::swap(m.t, m.b);
            break;
      }
      is(x, m, name.str());
      if(fabs(m.l) + fabs(m.r) + fabs(m.t) + fabs(m.b) > 1000 * unit) { m = box(r, false); x = rect(m); }
   }
   distinct(sig);
}
// Edges of any size: what every operation computes is right within rounding
VH_WORKLOAD(rounded, 30000, 600000)
{
   Rng& r = c.r;
   double scale = pow(10, r.real(-60, 60)), M = 0;
   auto num = [&]()
   {
      double v = r.chance(0.1) ? 0.0 : r.real(-1, 1) * scale * (r.chance(0.4) ? pow(10, r.real(-12, 12)) : 1);
      M = std::max(M, fabs(v));
      return v;
   };
   auto any = [&](bool norm)
   {
      Box b = {num(), num(), num(), num()};
      if(r.chance(0.1))b.r = b.l;
      if(norm) { if(b.r < b.l)std::swap(b.l, b.r); if(b.b < b.t)std::swap(b.t, b.b); }
      return b;
   };
   auto near = [&](const Rect & x, const Box & w, const std::string & op, int steps)
   {
      double tol = 16 * 2.220446049250313e-16 * M * (steps + 1), v[8] = {x.left(), x.top(), x.right(), x.bottom(), x.x() + x.width(), x.y() + x.height(), x.bottomRight().x(), x.topLeft().y()}, e[8] = {w.l, w.t, w.r, w.b, w.r, w.b, w.r, w.t};
      for(int i = 0; i < 8; i++)VH_CHECK(fabs(v[i] - e[i]) <= tol, "rounded-" + op.substr(0, op.find(' ')), op << " gives " << show(x) << " want " << show(w) << " within " << tol);
      VH_CHECK(fabs(x.center().x() - (w.l / 2 + w.r / 2)) <= tol && fabs(x.center().y() - (w.t / 2 + w.b / 2)) <= tol, "rounded-center", "center of " << show(x) << " want " << show(w));
   };
   Box A = any(true), B = any(true);
   if(r.chance(0.3)) { B.l = r.real(A.l, A.r); B.r = B.l + fabs(num()); B.t = r.real(A.t, A.b); B.b = B.t + fabs(num()); M = std::max({M, fabs(B.r), fabs(B.b)}); }
   Rect a = rect(A), b = rect(B), u = a, i = a;
   std::string what = show(A) + " and " + show(B);
   double tol = 16 * 2.220446049250313e-16 * M;
   u.unionWith(b);
   near(u, {std::min(A.l, B.l), std::min(A.t, B.t), std::max(A.r, B.r), std::max(A.b, B.b)}, "unionWith of " + what, 1);
   double dx = std::min(A.r, B.r) - std::max(A.l, B.l), dy = std::min(A.b, B.b) - std::max(A.t, B.t);
   if(fabs(dx) > tol && fabs(dy) > tol)
   {
      bool o = dx > 0 && dy > 0;
      VH_CHECK(a.intersects(b) == o && b.intersects(a) == o, "rounded-intersects", what << ": intersects is " << a.intersects(b) << b.intersects(a));
      i.intersect(b);
      Rect s = b.intersection(a);
      if(o)
      {
         Box w = {std::max(A.l, B.l), std::max(A.t, B.t), std::min(A.r, B.r), std::min(A.b, B.b)};
         near(i, w, "intersect of " + what, 1);
         near(s, w, "intersection of " + what, 1);
         count("rounded-overlap");
      }
      else { VH_CHECK(i.isEmpty() && s.isEmpty(), "rounded-disjoint", what << " share " << show(i) << ", " << show(s)); count("rounded-disjoint"); }
   }
   for(int k = 0; k < 6; k++)
   {
      double x = r.chance(0.5) ? r.real(A.l, A.r) : num(), y = r.chance(0.5) ? r.real(A.t, A.b) : num();
      if(fabs(x - A.l) <= tol || fabs(x - A.r) <= tol || fabs(y - A.t) <= tol || fabs(y - A.b) <= tol)continue;
      VH_CHECK(a.contains(x, y) == in(A, x, y) && a.contains(Point(x, y)) == in(A, x, y) && a.contains(Vertex2(x, y)) == in(A, x, y), "rounded-contains", show(A) << " contains (" << x << "," << y << "): " << a.contains(x, y));
   }
   Box m = any(false);
   Rect x = rect(m);
   for(int k = 1; k < 8; k++)
   {
      double v = num(), w = num(), W = m.r - m.l, H = m.b - m.t;
      int op = (int)r.below(18);
      Box o = any(false);
      std::ostringstream name;
      name << "operation-" << op << " (" << v << ", " << w << ") on " << show(m);
      switch(op)
      {
         case 0: x.setX(v); m.l = v; m.r = v + W; break;
         case 1: x.setY(v); m.t = v; m.b = v + H; break;
         case 2: x.setWidth(v); m.r = m.l + v; break;
         case 3: x.setHeight(v); m.b = m.t + v; break;
         case 4: x.setTop(v); m.t = v; break;
         case 5: x.setBottom(v); m.b = v; break;
         case 6: x.setLeft(v); m.l = v; break;
         case 7: x.setRight(v); m.r = v; break;
         case 8: x.moveHorizontal(v); m.l += v; m.r += v; break;
         case 9: x.moveVertical(v); m.t += v; m.b += v; break;
         case 10: x.alignTopLeft(rect(o)); m = {o.l, o.t, o.l + W, o.t + H}; break;
         case 11: x.alignBottomLeft(rect(o)); m = {o.l, o.b - H, o.l + W, o.b}; break;
         case 12: x.shiftTop(v); m.t += v; break;
         case 13: x.shiftLeft(v); m.l += v; break;
         case 14: x.shiftRight(v); m.r += v; break;
         case 15: x.shiftBottom(v); m.b += v; break;
         case 16: x.move(Point(v, w)); m = {m.l + v, m.t + w, m.r + v, m.b + w}; break;
         default: if(std::min(fabs(W), fabs(H)) <= 1e-12 * M)break; x.normalize(); if(m.r < m.l)std::swap(m.l, m.r); if(m.b < m.t)std::swap(m.t, m.b); break;
      }
      M = std::max({M, fabs(m.l), fabs(m.r), fabs(m.t), fabs(m.b), fabs(m.r - m.l), fabs(m.b - m.t)});
      near(x, m, name.str(), k);
   }
   count("rounded");
   distinct(mix(hashBytes(&A.l, 8), (uint64_t)(M / scale * 1000)));
}
VH_WORKLOAD(points, 20000, 400000)
{
   Rng& r = c.r;
   double a = r.real(-9, 9), b = r.real(-9, 9), d = r.real(-9, 9), e = r.real(-9, 9), f = r.real(-3, 3);
   if(r.chance(0.2))d = a;
   Point p(a, b), q(d, e), s = p + q, t = p - q, u = f * p, v = p * f, w = p, x = p, z;
   w += q;
   x -= q;
   VH_CHECK(same(s, a + d, b + e) && same(w, a + d, b + e) && same(t, a - d, b - e) && same(x, a - d, b - e) && same(u, f * a, f * b) && same(v, f * a, f * b) && same(z, 0, 0), "point-arithmetic", "arithmetic of points (" << a << "," << b << ") and (" << d << "," << e << ")");
   VH_CHECK(same(p.cWiseMin(q), std::min(a, d), std::min(b, e)) && same(p.cWiseMax(q), std::max(a, d), std::max(b, e)), "point-minmax", "componentwise minimum or maximum of points (" << a << "," << b << ") and (" << d << "," << e << ")");
   p.setX(e);
   p.rY() = d;
   VH_CHECK(same(p, e, d) && p.toVertex2().x == e && p.toVertex2().y == d && same(Point(Vertex2(a, b)), a, b), "point-set", "setting a point");
   p.rX() = a;
   p.setY(b);
   VH_CHECK(same(p, a, b), "point-set", "setting a point");
   Size g(a, b), h(d, e), mn = g.cWiseMin(h), mx = g.cWiseMax(h), df = g - h, sc = f * g, fr{Point(a, b)}, nil;
   VH_CHECK(mn.width() == std::min(a, d) && mn.height() == std::min(b, e) && mx.width() == std::max(a, d) && mx.height() == std::max(b, e) && df.width() == a - d && df.height() == b - e && sc.width() == f * a && sc.height() == f * b && fr.width() == a && fr.height() == b && nil.width() == 0 && nil.height() == 0, "size-arithmetic", "arithmetic of sizes (" << a << "," << b << ") and (" << d << "," << e << ")");
   bool eq = fabs(a - d) < 1e-6 && fabs(b - e) < 1e-6;
   VH_CHECK((g == h) == eq && (g != h) == !eq && g == fr && !(g != fr), "size-equal", "comparison of sizes (" << a << "," << b << ") and (" << d << "," << e << ")");
   g.setWidth(e);
   g.rHeight() = d;
   VH_CHECK(g.width() == e && g.height() == d, "size-set", "setting a size");
   g.rWidth() = a;
   g.setHeight(b);
   VH_CHECK(g.width() == a && g.height() == b, "size-set", "setting a size");
   count("points-and-sizes");
}
struct Ext { double lo[3] = {INFINITY, INFINITY, INFINITY}, hi[3] = {-INFINITY, -INFINITY, -INFINITY}; bool any = false, anyZ = false; };
static void add(Ext& e, const double* p, int n)
{
   e.any = true;
   if(n == 3)e.anyZ = true;
   for(int i = 0; i < n; i++) { e.lo[i] = std::min(e.lo[i], p[i]); e.hi[i] = std::max(e.hi[i], p[i]); }
}
static void check(const Extents& x, const Ext& m, const std::string& how)
{
   VH_CHECK(x.isValid() == m.any, "extents-valid", "extents are " << (x.isValid() ? "valid" : "not valid") << " after " << how);
   if(!m.any)return;
   Vertex3 a = x.minPoint(), b = x.maxPoint(), d = x.delta();
   double lo[3] = {a.x, a.y, a.z}, hi[3] = {b.x, b.y, b.z}, dl[3] = {d.x, d.y, d.z};
   for(int i = 0; i < (m.anyZ ? 3 : 2); i++)
      VH_CHECK(lo[i] == m.lo[i] && hi[i] == m.hi[i] && dl[i] == m.hi[i] - m.lo[i], "extents", "component " << i << " of the extents is " << lo[i] << ".." << hi[i] << " (" << dl[i] << ") want " << m.lo[i] << ".." << m.hi[i] << " after " << how);
   count("extents-states");
}
VH_WORKLOAD(extents, 40000, 800000)
{
   Rng& r = c.r;
   Extents e[3];
   Ext m[3];
   std::string how[3];
   uint64_t sig = 0;
   double scale = pow(10, r.real(-5, 60));
   bool offset = r.chance(0.5);
   for(int k = 0; k < 12; k++)
   {
      int i = (int)r.below(3), op = (int)r.below(4);
      double p[3];
      for(double& v : p)v = r.chance(0.1) ? 0 : r.real(-1, 1) * scale + (offset ? 3 * scale : 0);
      sig = mix(sig, (uint64_t)(i * 4 + op));
      std::ostringstream o;
      o << " (" << p[0] << "," << p[1];
      if(op == 0) { e[i].add(Vertex2(p[0], p[1])); add(m[i], p, 2); o << ")"; count("added-2d"); }
      else if(op == 1 || op == 2) { e[i].add(Vertex3(p[0], p[1], p[2])); add(m[i], p, 3); o << "," << p[2] << ")"; count("added-3d"); }
      else
      {
         int j = (int)r.below(3);
         if(m[j].any && !m[j].anyZ && m[i].anyZ)count("added-flat");
         if(!m[j].any)count("added-nothing");
         e[i].add(e[j]);
         Ext x = m[j];
         if(x.any) { add(m[i], x.lo, x.anyZ ? 3 : 2); add(m[i], x.hi, x.anyZ ? 3 : 2); }
         o.str(" {" + how[j] + "}");
         count("added-extents");
      }
      if(how[i].size() < 2000)how[i] += o.str();
      for(int q = 0; q < 3; q++)check(e[q], m[q], how[q]);
   }
   distinct(sig);
}
VH_REQUIRE("rounded", "rounded-overlap", "rounded-disjoint", "states", "disjoint", "points", "touching", "overlapping", "nested", "normalised", "points-and-sizes", "extents-states", "added-2d", "added-3d", "added-flat", "added-nothing", "added-extents")
VH_DRIVER("P35", "membership of a point decides every set operation, the interval model every other; extents are exactly the componentwise minimum and maximum")
