// P33: rotations, mirrorings and coordinate systems.
// VH-TECH: axis-aligned, integer, near-parallel, near-opposite and random vectors of magnitudes 1e-3 to 1e6 with multiples of 30 degrees, small, random and large angles; every result against a long-double evaluation of its definition plus invariants (lengths, orthonormality, involution, round trips) under ASan+UBSan
#include "vh.hpp"
#include <iomanip>
using namespace vh;
using namespace jm;
typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;
struct V { ld x = 0, y = 0, z = 0; };
static V of(const Vertex3& v) { return {v.x, v.y, v.z}; }
static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V operator*(ld s, V a) { return {s * a.x, s * a.y, s * a.z}; }
static ld dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static ld len(V a) { return sqrtl(dot(a, a)); }
static V unit(V a) { return (1 / len(a)) * a; }
static V turn(V v, V k, ld t)   // Rodrigues
{
   k = unit(k);
   return cosl(t) * v + sinl(t) * cross(k, v) + (dot(k, v) * (1 - cosl(t))) * k;
}
static std::string show(const Vertex3& v) { std::ostringstream o; o << std::setprecision(17) << "(" << v.x << ", " << v.y << ", " << v.z << ")"; return o.str(); }
static std::string show(V v) { return show(Vertex3((double)v.x, (double)v.y, (double)v.z)); }
static std::string show(const Vertex2& v) { std::ostringstream o; o << std::setprecision(17) << "(" << v.x << ", " << v.y << ")"; return o.str(); }
static double magnitude(Rng& r) { return r.chance(0.5) ? 1.0 : pow(10, r.real(-3, 6)); }
static Vertex3 dir(Rng& r)   // any direction, length about 1
{
   switch(r.below(7))
   {
      case 0:
      {
         double a[3] = {0, 0, 0};
         a[r.below(3)] = r.chance(0.5) ? 1 : -1;
         return Vertex3(a[0], a[1], a[2]);
      }
      case 1:
         for(;;)
         {
            Vertex3 v((double)r.range(-2, 2), (double)r.range(-2, 2), (double)r.range(-2, 2));
            if(v.x || v.y || v.z)return v;
         }
      case 2:   // nearly an axis
      {
         double a[3];
         for(double& x : a)x = r.real(-1, 1) * pow(10, -r.real(1, 17));
         a[r.below(3)] = r.chance(0.5) ? 1 : -1;
         return Vertex3(a[0], a[1], a[2]);
      }
      default:
         for(;;)
         {
            Vertex3 v(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1));
            if(v.abs() > 0.1)return v;
         }
   }
}
static Vertex3 uni(Rng& r)
{
   V v = unit(of(dir(r)));
   return Vertex3((double)v.x, (double)v.y, (double)v.z);
}
static Vertex3 vec(Rng& r)
{
   Vertex3 d = dir(r);
   double m = magnitude(r);
   return Vertex3(d.x * m, d.y * m, d.z * m);
}
static Vertex3 point(Rng& r) { return r.chance(0.1) ? Vertex3() : vec(r); }
static double angle(Rng& r)
{
   switch(r.below(6))
   {
      case 0: return 0;
      case 1: return M_PI / 6 * (double)r.range(-24, 24);
      case 2: return r.real(-1, 1) * pow(10, -r.real(1, 15));
      case 3: return r.real(-1e5, 1e5);
      default: return r.real(-7, 7);
   }
}
static void near(const Vertex3& got, V want, ld scale, const char* key, const std::string& what)
{
   ld d = len(of(got) - want);
   VH_CHECK(d <= 1e-13L * scale + 1e-300L, key, what << " gives " << show(got) << " want " << show(want) << " (off by " << (double)d << ")");
}
VH_WORKLOAD(rotations, 60000, 1500000)
{
   Rng& r = c.r;
   Vertex3 p = point(r), k = uni(r);
   double t = angle(r);
   ld s = len(of(p)) * (1 + fabsl(t) * 1e-3L) * 3;
   std::ostringstream in;
   in << std::setprecision(17) << " of " << show(p) << " by " << t;
   V ax[4] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, of(k)};
   for(int i = 0; i < 4; i++)
   {
      Vertex3 q = p;
      if(i == 0)q.rotateX(t);
      else if(i == 1)q.rotateY(t);
      else if(i == 2)q.rotateZ(t);
      else q.rotate(t, k);
      std::string key = std::string("rotate-") + "XYZA"[i];
      near(q, turn(of(p), ax[i], t), s, key.c_str(), key + (i == 3 ? " about " + show(k) : "") + in.str());
      Matrix m = i == 0 ? Matrix::generate3x3RotationXMatrix(t) : i == 1 ? Matrix::generate3x3RotationYMatrix(t) : i == 2 ? Matrix::generate3x3RotationZMatrix(t) : Matrix::generate3x3RotationMatrix(t, k);
      near(m * p, turn(of(p), ax[i], t), s, "rotation-matrix", key + "-matrix about " + show(k) + in.str());
      if(i == 2)near(p.rotatedZ(t), turn(of(p), ax[i], t), s, "rotatedZ", "rotatedZ" + in.str());
      if(i == 3)   // and back
      {
         q.rotate(-t, k);
         near(q, of(p), s, "rotate-back", "rotating forth and back about " + show(k) + in.str());
      }
   }
   Matrix z;
   z.initRotationZ(t);
   near(z.trans(p), turn(of(p), ax[2], t), s, "init-rotation-z", "initRotationZ" + in.str());
   Vertex3 base = point(r);
   ld sb = s + len(of(base)) * 6 * (1 + fabsl(t) * 1e-3L);
   z.initRotation(base, k, t);
   near(z.trans(p), of(base) + turn(of(p) - of(base), of(k), t), sb, "init-rotation", "initRotation at " + show(base) + " about " + show(k) + in.str());
   near(z.trans(base), of(base), sb, "rotation-axis", "initRotation of its base point " + show(base) + in.str());
   Vertex2 p2(p), q2 = p2;
   V w = turn({p.x, p.y, 0}, ax[2], t);
   q2.rotate(t);
   near(Vertex3(q2), w, s, "rotate2", "Vertex2::rotate" + in.str());
   near(Vertex3(p2.rotated(t)), w, s, "rotate2", "Vertex2::rotated" + in.str());
   count("rotations", 8);
   distinct(mix(hashBytes(&p, sizeof(double) * 3), hashBytes(&t, sizeof t)));
}
VH_WORKLOAD(mappings, 60000, 1500000)
{
   Rng& r = c.r;
   Vertex3 p = point(r), b = point(r), n = vec(r), f = vec(r), k = uni(r);
   if(r.chance(0.5))n = k;
   double fac = r.chance(0.3) ? (double)r.range(-3, 3) : r.real(-10, 10);
   ld s = 10 * (len(of(p)) + len(of(b)));
   Matrix m;
   m.initMirroring(b, n);
   V u = unit(of(n)), w = of(p) - (2 * dot(of(p) - of(b), u)) * u;
   std::string in = " of " + show(p) + " at " + show(b);
   Vertex3 g = m.trans(p);
   near(g, w, s, "mirror", "mirroring" + in + " normal " + show(n));
   near(m.trans(g), of(p), 3 * s, "mirror-twice", "mirroring twice" + in + " normal " + show(n));
   m.initMoving(b);
   near(m.trans(p), of(p) + of(b), s, "move", "moving" + in);
   m.initScaling(f);
   near(m.trans(p), V{(ld)p.x * f.x, (ld)p.y * f.y, (ld)p.z * f.z}, s * (1 + len(of(f))), "scale", "scaling" + in + " by " + show(f));
   m.initScaling(b, fac);
   near(m.trans(p), of(b) + (ld)fac * (of(p) - of(b)), s * (1 + fabsl(fac)), "scale-base", "scaling" + in + " by " + std::to_string(fac));
   m.initIdentity();
   near(m.trans(p), of(p), s, "identity", "identity" + in);
   // Composition: product of matrices is composition of mappings
   Matrix a, bm;
   double t = angle(r), l = r.real(-5, 5);
   a.initRotation(b, k, t);
   bm.initScaling(b, fac);
   near((a * bm).trans(p), of(a.trans(bm.trans(p))), s * (1 + fabsl(fac)) * 4, "compose", "rotation after scaling" + in);
   ld tl = fabsl((ld)fac * l);
   VH_CHECK(fabsl((a * bm).trans(l) - tl) <= 1e-12L * (1 + tl) * (1 + len(of(b)) * (1 + fabsl(fac))), "trans-length", "length " << l << " scaled by " << fac << " and rotated gives " << (a * bm).trans(l));
   count("mappings", 8);
   // Angles about the Z axis
   double alpha = angle(r), phi = angle(r);
   Matrix rot;
   rot.initRotationZ(phi);
   bool mirror = r.chance(0.5);
   ld want = (ld)alpha + phi;
   if(mirror)   // at a plane through the Z axis
   {
      Matrix mi;
      double q = angle(r);
      mi.initMirroring(Vertex3(), Vertex3(cos(q), sin(q), 0));
      rot = mi * rot;
      want = 2 * ((ld)q + PI / 2) - want;
   }
   Matrix mv;
   mv.initMoving(Vertex3(r.real(-5, 5), r.real(-5, 5), r.real(-5, 5)));
   rot = mv * rot;
   double got = rot.transAngle(alpha);
   ld diff = remainderl((ld)got - want, 2 * PI);
   VH_CHECK(fabsl(diff) <= 1e-6L, "trans-angle", "angle " << alpha << " rotated by " << phi << (mirror ? " and mirrored" : "") << " gives " << got << " want " << (double)remainderl(want, 2 * PI));
   count("angles-mapped");
}
static void maps(const Matrix& m, const Vertex3& u, const Vertex3& v)
{
   V uu = unit(of(u)), vv = unit(of(v));
   std::string in = "rotation from " + show(u) + " to " + show(v);
   V rows[3];
   for(int i = 0; i < 3; i++)rows[i] = {m.get(i, 0), m.get(i, 1), m.get(i, 2)};
   for(int i = 0; i < 3; i++)for(int j = 0; j < 3; j++)
         VH_CHECK(fabsl(dot(rows[i], rows[j]) - (i == j)) < 1e-10L, "rotation-to-orthonormal", in << " is not orthonormal: rows " << i << " and " << j << ": " << (double)dot(rows[i], rows[j]));
   VH_CHECK(fabsl(dot(cross(rows[0], rows[1]), rows[2]) - 1) < 1e-10L, "rotation-to-det", in << " has determinant " << (double)dot(cross(rows[0], rows[1]), rows[2]));
   V got = {dot(rows[0], uu), dot(rows[1], uu), dot(rows[2], uu)};
   VH_CHECK(len(got - vv) < 1e-10L, "rotation-to", in << " maps to " << show(got) << " instead of " << show(vv));
   ld cs = dot(uu, vv);
   if(cs > -0.99L)VH_CHECK(fabsl(rows[0].x + rows[1].y + rows[2].z - 1 - 2 * cs) < 1e-9L, "rotation-to-angle", in << " turns by another angle than the one between the vectors");
}
VH_WORKLOAD(vectors, 80000, 2000000)
{
   Rng& r = c.r;
   Vertex3 u = vec(r), v;
   int k = (int)r.below(5);
   if(k < 2)   // (nearly) parallel or opposite
   {
      double f = (k ? -1 : 1) * (r.chance(0.3) ? 1.0 : magnitude(r));
      double e = r.chance(0.4) ? 0 : pow(10, -r.real(1, 17)) * u.abs();
      v = Vertex3(f * (u.x + e * r.real(-1, 1)), f * (u.y + e * r.real(-1, 1)), f * (u.z + e * r.real(-1, 1)));
   }
   else if(k == 2)
   {
      Vertex3 d = dir(r);
      v = u.crossProduct(d);
      if(v.abs() < 1e-3)v = d;
   }
   else v = vec(r);
   if(u.abs() < 1e-4 || v.abs() < 1e-4)throw Skip{};
   std::string in = show(u) + " and " + show(v);
   ld want = atan2l(len(cross(of(u), of(v))), dot(of(u), of(v)));
   for(int i = 0; i < 2; i++)
   {
      double a = i ? v.angleTo(u) : u.angleTo(v);
      VH_CHECK(a >= 0 && a <= M_PI, "angle-range", "angle between " << in << " is " << a);
      VH_CHECK(fabsl(a - want) < 6e-8L, "angle", "angle between " << in << " is " << a << " want " << (double)want);
   }
   if(want < 1e-7L)count("parallel");
   else if(want > PI - 1e-7L)count("opposite");
   Vertex2 u2(u), v2(v);
   if(u2.abs() > 1e-5 && v2.abs() > 1e-5)
   {
      ld cr = (ld)u.x * v.y - (ld)u.y * v.x, d = (ld)u.x * v.x + (ld)u.y * v.y, w = atan2l(cr, d), m = (ld)u2.abs() * v2.abs();
      double a = u2.angleTo(v2);
      VH_CHECK(a >= -M_PI && a <= M_PI, "angle2-range", "2D angle from " << in << " is " << a);
      VH_CHECK(fabsl(fabsl(w) - fabsl((ld)a)) < 6e-8L && (fabsl(cr) < 1e-14L * m || fabsl(w - a) < 6e-8L), "angle2", "2D angle from " << in << " is " << a << " want " << (double)w);
      if(fabsl(cr) > 1e-14L * m)
      {
         VH_CHECK(u2.isRightTo(v2) == (cr > 0), "right", show(u2) << ".isRightTo(" << show(v2) << ") is " << u2.isRightTo(v2));
         VH_CHECK(u2.isLeftTo(v2) == (cr < 0), "left", show(u2) << ".isLeftTo(" << show(v2) << ") is " << u2.isLeftTo(v2));
      }
      VH_CHECK(fabsl(u2.crossProduct(v2) - cr) <= 1e-15L * m && fabsl(u2.dotProduct(v2) - d) <= 1e-15L * m, "products2", "2D products of " << in << ": " << u2.crossProduct(v2) << ", " << u2.dotProduct(v2));
      if(fabsl(fabsl(cr) - 1e-6L) > 1e-7L + 1e-14L * m)VH_CHECK(u2.isCollinear(v2) == (fabsl(cr) < 1e-6L), "collinear2", "2D isCollinear of " << in << " is " << u2.isCollinear(v2));
      if(fabsl(fabsl(d) - 1e-6L) > 1e-7L + 1e-14L * m)VH_CHECK(u2.isOrthogonal(v2) == (fabsl(d) < 1e-6L), "orthogonal2", "2D isOrthogonal of " << in << " is " << u2.isOrthogonal(v2));
      Vertex2 nn = u2.normalized(), n3 = u2;
      n3.normalize();
      VH_CHECK(fabsl(hypotl(nn.x, nn.y) - 1) < 1e-14L && fabsl(nn.x * (ld)u.y - nn.y * (ld)u.x) < 1e-14L * u2.abs() && nn.x * u.x + nn.y * u.y > 0 && n3.x == nn.x && n3.y == nn.y, "normalize2", "normalised " << show(u2) << " is " << show(nn) << " and " << show(n3));
      count("angles2");
   }
   ld m = len(of(u)) * len(of(v)), cl = len(cross(of(u), of(v))), d = dot(of(u), of(v));
   near(u.crossProduct(v), cross(of(u), of(v)), m, "cross", "cross product of " + in);
   VH_CHECK(fabsl(u.dotProduct(v) - d) <= 1e-15L * m * 3, "dot", "dot product of " << in << " is " << u.dotProduct(v));
   if(fabsl(cl - 1e-6L) > 1e-7L + 1e-14L * m)VH_CHECK(u.isCollinear(v) == (cl < 1e-6L), "collinear", "isCollinear of " << in << " is " << u.isCollinear(v));
   if(fabsl(fabsl(d) - 1e-6L) > 1e-7L + 1e-14L * m)VH_CHECK(u.isOrthogonal(v) == (fabsl(d) < 1e-6L), "orthogonal", "isOrthogonal of " << in << " is " << u.isOrthogonal(v));
   near(u.normalized(), unit(of(u)), 1, "normalize", "normalised " + show(u));
   Vertex3 w = u;
   near(w.normalize(), unit(of(u)), 1, "normalize", "normalise " + show(u));
   near(w, unit(of(u)), 1, "normalize", "normalise " + show(u));
   VH_CHECK(fabsl(u.abs() - len(of(u))) <= 1e-15L * u.abs() * 3, "abs", "length of " << show(u) << " is " << u.abs());
   VH_CHECK(u.biggest() == std::max(u.x, std::max(u.y, u.z)), "biggest", "biggest of " << show(u) << " is " << u.biggest());
   w = u;
   w += v;
   bool ok = w.x == u.x + v.x && w.y == u.y + v.y && w.z == u.z + v.z;
   w = u + v;
   ok = ok && w.x == u.x + v.x && w.y == u.y + v.y && w.z == u.z + v.z;
   w = u;
   w -= v;
   Vertex3 x = u - v;
   ok = ok && w.x == u.x - v.x && w.y == u.y - v.y && w.z == u.z - v.z && x.x == w.x && x.y == w.y && x.z == w.z;
   double f = r.real(-9, 9);
   w = f * u;
   x = u * f;
   Vertex3 y = u / 3.0, s = u.scale(v);
   ok = ok && w.x == f * u.x && w.y == f * u.y && w.z == f * u.z && x.x == w.x && x.y == w.y && x.z == w.z && y.x == u.x / 3 && y.y == u.y / 3 && y.z == u.z / 3 && s.x == u.x * v.x && s.y == u.y * v.y && s.z == u.z * v.z;
   Vertex2 a2 = u2 + v2, b2 = u2 - v2, c2 = f * u2, d2 = u2 * f, e2 = u2 / 3.0, s2 = u2.scale(v2), i2 = u2, j2 = u2;
   i2 += v2;
   j2 -= v2;
   ok = ok && a2.x == u.x + v.x && a2.y == u.y + v.y && b2.x == u.x - v.x && b2.y == u.y - v.y && c2.x == f * u.x && c2.y == f * u.y && d2.x == c2.x && d2.y == c2.y && e2.x == u.x / 3 && e2.y == u.y / 3 && s2.x == u.x * v.x && s2.y == u.y * v.y && i2.x == a2.x && i2.y == a2.y && j2.x == b2.x && j2.y == b2.y;
   VH_CHECK(ok, "arithmetic", "sum, difference, multiple, quotient or scaling of " << in << " is wrong");
   maps(Matrix::generate3x3RotationMatrix(u, v), u, v);
   count("rotations-between");
   distinct(mix(hashBytes(&u, 24), hashBytes(&v, 24)));
}
VH_WORKLOAD(systems, 60000, 1500000)   // object coordinate systems
{
   Rng& r = c.r;
   Vertex3 e = uni(r), p = point(r);
   if(r.chance(0.3))   // around the limit of the arbitrary axis algorithm
   {
      double t = (1.0 / 64) * (1 + r.real(-1, 1) * pow(10, -r.real(0, 10))), o = r.real(-0.02, 0.02), z = sqrt(1 - t * t - o * o) * (r.chance(0.5) ? 1 : -1);
      if(r.chance(0.5))t = -t;
      e = r.chance(0.5) ? Vertex3(t, o, z) : Vertex3(o, t, z);
      count("near-limit");
   }
   ld lim = 1.0L / 64;
   V N = of(e);
   bool polar = fabsl(N.x) < lim && fabsl(N.y) < lim;
   V ox = unit(polar ? cross({0, 1, 0}, N) : cross({0, 0, 1}, N)), oy = unit(cross(N, ox));
   std::string in = show(p) + " in the system of " + show(e);
   ld s = 10 * len(of(p));
   Vertex3 o = wcsToOcs(p, e), w = ocsToWcs(p, e);
   near(o, {dot(ox, of(p)), dot(oy, of(p)), dot(N, of(p))}, s, "to-ocs", "wcsToOcs of " + in);
   near(w, p.x * ox + p.y * oy + p.z * N, s, "to-wcs", "ocsToWcs of " + in);
   near(ocsToWcs(o, e), of(p), s, "round-trip", "world to object and back of " + in);
   near(wcsToOcs(w, e), of(p), s, "round-trip", "object to world and back of " + in);
   near(ocsMatrix(e) * p, of(o), s, "ocs-matrix", "ocsMatrix of " + in);
   near(wcsMatrix(e) * p, of(w), s, "wcs-matrix", "wcsMatrix of " + in);
   Matrix m;
   m.initWcs(e);
   near(m.trans(p), of(w), s, "init-wcs", "initWcs of " + in);
   count(polar ? "polar" : "not-polar");
   distinct(mix(hashBytes(&e, 24), hashBytes(&p, 24)));
}
VH_WORKLOAD(linear, 40000, 800000)
{
   Rng& r = c.r;
   Vertex2 a(dir(r)), b(dir(r)), q(r.real(-9, 9), r.real(-9, 9));
   if(r.chance(0.3))a.x = 0;
   if(r.chance(0.2))b.y = 0;
   if(r.chance(0.1))a.x = r.real(-1, 1) * pow(10, -r.real(3, 9));
   ld det = (ld)a.x * b.y - (ld)a.y * b.x;
   if(fabsl(det) > 0.01L)
   {
      Vertex2 x = solveLinearSystem(a, b, q);
      ld ex = (ld)x.x * a.x + (ld)x.y * b.x - q.x, ey = (ld)x.x * a.y + (ld)x.y * b.y - q.y;
      VH_CHECK(fabsl(ex) < 1e-4L && fabsl(ey) < 1e-4L, "solve", "solution " << show(x) << " of x*" << show(a) << " + y*" << show(b) << " = " << show(q) << " leaves " << (double)ex << ", " << (double)ey);
      count("solved");
   }
   Vertex3 v[3];
   for(Vertex3& w : v)w = dir(r);
   if(r.chance(0.4))v[2] = (double)r.range(-3, 3) * v[0] + (double)r.range(-3, 3) * v[1];
   ld d = dot(of(v[0]), cross(of(v[1]), of(v[2])));
   bool ind = isLinearIndependent(v[0], v[1], v[2]);
   if(fabsl(fabsl(d) - 1e-6L) > 1e-7L)
   {
      VH_CHECK(ind == (fabsl(d) > 1e-6L), "independent", show(v[0]) << ", " << show(v[1]) << ", " << show(v[2]) << " are " << (ind ? "" : "not ") << "called independent, determinant " << (double)d);
      count(ind ? "independent" : "dependent");
   }
   Vertex3 e(v[0]);
   double h = r.real(-1, 1) * pow(10, -r.real(5, 8));
   e.x += h;
   if(fabs(fabs(e.x - v[0].x) - 1e-6) > 1e-9)
   {
      bool eq = fabs(e.x - v[0].x) < 1e-6;
      VH_CHECK((e == v[0]) == eq && (e != v[0]) == !eq, "equal", show(e) << " and " << show(v[0]) << " compare " << (e == v[0]) << (e != v[0]));
      VH_CHECK((Vertex2(e) == Vertex2(v[0])) == eq && (Vertex2(e) != Vertex2(v[0])) == !eq, "equal2", "2D " << show(e) << " and " << show(v[0]) << " compare wrong");
      // Any coordinates may be the ones that differ
      double f[3];
      Vertex3 z(0, 0, 0), o(v[0]);
      double* zc[] = {&z.x, &z.y, &z.z};
      double* oc[] = {&o.x, &o.y, &o.z};
      const double* vc[] = {&v[0].x, &v[0].y, &v[0].z};
      bool clear = true, same[3];
      for(int k = 0; k < 3; k++)
      {
         f[k] = r.chance(0.5) ? 0 : r.chance(0.5) ? r.real(-9e-7, 9e-7) : r.real(-1, 1) * pow(10, r.real(-6, 2));
         *zc[k] = f[k];
         *oc[k] += f[k];
         for(double q : {fabs(f[k]), fabs(*oc[k] - *vc[k])})if(fabs(q - 1e-6) < 1e-9)clear = false;
         same[k] = fabs(*oc[k] - *vc[k]) < 1e-6;
         if((fabs(f[k]) < 1e-6) != same[k])clear = false;
      }
      if(clear)
      {
         bool all = same[0] && same[1] && same[2], two = same[0] && same[1];
         const Vertex3& w = v[0];
         VH_CHECK((o == w) == all && (w == o) == all && (o != w) == !all && (w != o) == !all, "equal", show(o) << " and " << show(w) << " compare " << (o == w) << (o != w));
         Vertex2 o2(o), w2(w), z2(z);
         VH_CHECK((o2 == w2) == two && (w2 == o2) == two && (o2 != w2) == !two && (w2 != o2) == !two, "equal2", "2D " << show(o) << " and " << show(w) << " compare wrong");
         VH_CHECK(z.isNull() == all, "null", show(z) << ".isNull() is " << z.isNull());
         count(all ? "nearlyEqual" : same[0] + same[1] + same[2] == 2 ? "oneDiffers" : "moreDiffer");
      }
      z = Vertex3(h, 0, 0);
      VH_CHECK(z.isValid() && !Vertex3(0, h, NAN).isValid() && !Vertex3(NAN, h, 0).isValid() && !Vertex3(0, NAN, 0).isValid() && Vertex2(h, h).isValid() && !Vertex2(NAN, h).isValid() && !Vertex2(h, NAN).isValid(), "valid", "isValid is wrong");
      count("compared");
   }
}
VH_REQUIRE("nearlyEqual", "oneDiffers", "moreDiffer", "rotations", "mappings", "angles-mapped", "parallel", "opposite", "angles2", "rotations-between", "near-limit", "polar", "not-polar", "solved", "independent", "dependent", "compared")
VH_DRIVER("P33", "every mapped point within rounding of the long-double definition; lengths, orientations and round trips preserved; angles real and in range")
