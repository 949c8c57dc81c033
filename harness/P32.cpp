// P32: matrix and vector arithmetic.
// VH-TECH: random operation histories over pools of matrices and vectors of all shapes, every step against an independent long-double model with rounding-error bounds, all other objects of the pool compared bit for bit, incompatible shapes must throw, under ASan+UBSan with a heap-growth monitor
#include "vh.hpp"
#include <set>
using namespace vh;
using namespace jm;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
typedef long double ld;
static const ld kEps = 2.3e-16L;
struct M   // the model: rows of doubles
{
   int64_t m = 0, n = 0;
   std::vector<double> a;
   M(int64_t r = 0, int64_t c = 0): m(r), n(c), a((size_t)(r * c), 0.0) {}
   double& at(int64_t r, int64_t c) { return a[(size_t)(r * n + c)]; }
   double at(int64_t r, int64_t c) const { return a[(size_t)(r * n + c)]; }
};
static std::string show(const M& x)
{
   std::ostringstream o;
   o << std::hexfloat << x.m << "x" << x.n << "[";
   for(int64_t r = 0; r < x.m; r++)
   {
      for(int64_t c = 0; c < x.n; c++)o << (c ? " " : "") << x.at(r, c);
      if(r + 1 < x.m)o << "; ";
   }
   return o.str() + "]";
}
static M read(const Matrix& x)
{
   M r(x.m, x.n);
   for(int64_t i = 0; i < r.m; i++)for(int64_t j = 0; j < r.n; j++)r.at(i, j) = x.get(i, j);
   return r;
}
static bool sameBits(double a, double b) { return a == b || (a != a && b != b); }
static bool same(const M& a, const M& b)
{
   if(a.m != b.m || a.n != b.n)return false;
   for(size_t i = 0; i < a.a.size(); i++)if(!sameBits(a.a[i], b.a[i]))return false;
   return true;
}
static double entry(Rng& r, int style)
{
   switch(style)
   {
      case 0: return (double)r.range(-3, 3);
      case 1: return r.real(-1, 1);
      case 2: return r.real(-1000, 1000);
      case 3: return ldexp(r.real(-1, 1), (int)r.range(-30, 30));
      default: return r.chance(0.6) ? 0.0 : (double)r.range(-9, 9);
   }
}
struct Pair { M mod; std::unique_ptr<Matrix> lib; };
static Pair make(Rng& r, int64_t m, int64_t n)
{
   Pair p;
   p.mod = M(m, n);
   p.lib.reset(new Matrix(m, n));
   int style = (int)r.below(5);
   for(int64_t i = 0; i < m; i++)for(int64_t j = 0; j < n; j++)
      {
         double v = entry(r, style);
         p.mod.at(i, j) = v;
         p.lib->set(i, j, v);
      }
   return p;
}
static int64_t dim(Rng& r) { return r.chance(0.1) ? r.range(5, 9) : r.range(1, 4); }
static M fromV3(const Vertex3& v) { M x(3, 1); x.a[0] = v.x; x.a[1] = v.y; x.a[2] = v.z; return x; }
static Vertex3 v3(Rng& r, int style) { double a = entry(r, style), b = entry(r, style), d = entry(r, style); return Vertex3(a, b, d); }
// long double determinant and sum of the absolute values of its terms
static void ldet(const M& x, std::vector<int64_t> rows, std::vector<int64_t> cols, ld& det, ld& per)
{
   size_t k = rows.size();
   if(!k) { det = 1; per = 1; return; }
   det = per = 0;
   int64_t r0 = rows[0];
   rows.erase(rows.begin());
   for(size_t j = 0; j < k; j++)
   {
      std::vector<int64_t> rest = cols;
      rest.erase(rest.begin() + (long)j);
      ld d, p;
      ldet(x, rows, rest, d, p);
      ld e = x.at(r0, cols[j]);
      det += (j & 1 ? -1 : 1) * e * d;
      per += fabsl(e) * p;
   }
}
static std::vector<int64_t> idx(int64_t n) { std::vector<int64_t> v; for(int64_t i = 0; i < n; i++)v.push_back(i); return v; }
static M product(const M& a, const M& b, std::vector<ld>& tol)
{
   M r(a.m, b.n);
   tol.assign(r.a.size(), 0);
   for(int64_t i = 0; i < r.m; i++)for(int64_t j = 0; j < r.n; j++)
      {
         ld s = 0, t = 0;
         for(int64_t k = 0; k < a.n; k++) { ld p = (ld)a.at(i, k) * b.at(k, j); s += p; t += fabsl(p); }
         r.at(i, j) = (double)s;
         tol[(size_t)(i * r.n + j)] = t * kEps * (ld)(a.n + 3);
      }
   return r;
}
static void near(const M& got, const M& want, const std::vector<ld>& tol, const char* op, const std::string& in)
{
   VH_CHECK(got.m == want.m && got.n == want.n, "shape", op << " gives a " << got.m << "x" << got.n << " matrix, want " << want.m << "x" << want.n << ": " << in);
   for(size_t i = 0; i < want.a.size(); i++)
      VH_CHECK(fabsl((ld)got.a[i] - want.a[i]) <= tol[i], std::string("value-") + op, op << " of " << in << " gives " << show(got) << " want " << show(want));
}
static void exact(const M& got, const M& want, const char* op, const std::string& in)
{
   VH_CHECK(same(got, want), std::string("value-") + op, op << " of " << in << " gives " << show(got) << " want " << show(want));
}
template<class F> static bool throwsJm(F f)
{
   try { f(); }
   catch(const Exception&) { return true; }
   return false;
}
static void scalars(const Pair& p)   // determinant, norms, trace, counts
{
   const M& a = p.mod;
   double d = 12345;
   Status s = p.lib->det(d);
   bool sup = a.m == a.n && a.m >= 1 && a.m <= 4;
   VH_CHECK((s == Status::eOK) == sup, "det-status", "det of " << show(a) << " reports " << (int)s);
   if(sup)
   {
      ld w, per;
      ldet(a, idx(a.m), idx(a.n), w, per);
      VH_CHECK(fabsl((ld)d - w) <= 40 * kEps * per, "value-det", "det of " << show(a) << " gives " << d << " want " << (double)w);
      count("dets");
   }
   ld n1 = 0, ni = 0, tr = 0, ta = 0;
   uint32 nz = 0;
   for(int64_t c = 0; c < a.n; c++) { ld t = 0; for(int64_t r = 0; r < a.m; r++)t += fabsl(a.at(r, c)); n1 = std::max(n1, t); }
   for(int64_t r = 0; r < a.m; r++) { ld t = 0; for(int64_t c = 0; c < a.n; c++)t += fabsl(a.at(r, c)); ni = std::max(ni, t); }
   for(int64_t i = 0; i < std::min(a.m, a.n); i++) { tr += a.at(i, i); ta += fabsl(a.at(i, i)); }
   for(double v : a.a)nz += v != 0;
   VH_CHECK(fabsl(p.lib->norm(MatrixNorm::kNorm1) - n1) <= 20 * kEps * n1, "value-norm1", "column-sum norm of " << show(a) << " gives " << p.lib->norm(MatrixNorm::kNorm1));
   VH_CHECK(fabsl(p.lib->norm(MatrixNorm::kNormInf) - ni) <= 20 * kEps * ni, "value-norminf", "row-sum norm of " << show(a) << " gives " << p.lib->norm(MatrixNorm::kNormInf));
   VH_CHECK(fabsl(p.lib->trace() - tr) <= 20 * kEps * ta, "value-trace", "trace of " << show(a) << " gives " << p.lib->trace());
   VH_CHECK(p.lib->nonZeroElementCount() == nz, "value-nonzero", "non-zero elements of " << show(a) << ": " << p.lib->nonZeroElementCount());
   for(int64_t i = 0; i < a.m * a.n; i++)VH_CHECK(sameBits(p.lib->ref()[i], a.at(i % a.m, i / a.m)), "ref", "element " << i << " of ref() of " << show(a) << " is " << p.lib->ref()[i]);
}
static void inverse(Pair& p, bool integers)
{
   M a = p.mod;
   Status s = p.lib->inverse();
   M got = read(*p.lib);
   if(a.m != a.n || a.m < 1 || a.m > 4)
   {
      VH_CHECK(s != Status::eOK, "inverse-status", "inverse of " << show(a) << " reports success");
      exact(got, a, "refused-inverse", show(a));
      count("inverse-refused");
      return;
   }
   ld det, per;
   ldet(a, idx(a.m), idx(a.n), det, per);
   if(det == 0 && integers)
   {
      VH_CHECK(s != Status::eOK, "inverse-singular", "inverse of the singular " << show(a) << " reports success and gives " << show(got));
      exact(got, a, "refused-inverse", show(a));
      count("singular");
      return;
   }
   if(fabsl(det) < 1e-9L * per || fabsl(det) < 1e-250L)
   {
      p.mod = got;
      return;
   }
   VH_CHECK(s == Status::eOK, "inverse-status", "inverse of " << show(a) << " reports " << (int)s);
   M want(a.m, a.n);
   std::vector<ld> tol(want.a.size());
   for(int64_t i = 0; i < a.m; i++)for(int64_t j = 0; j < a.n; j++)
      {
         std::vector<int64_t> rows = idx(a.m), cols = idx(a.n);
         rows.erase(rows.begin() + j);
         cols.erase(cols.begin() + i);
         ld d, q;
         ldet(a, rows, cols, d, q);
         want.at(i, j) = (double)(((i + j) & 1 ? -d : d) / det);
         tol[(size_t)(i * a.n + j)] = (60 * kEps * q + fabsl(d / det) * 60 * kEps * per) / fabsl(det) + 1e-300L;
      }
   near(got, want, tol, "inverse", show(a));
   p.mod = got;
   count("inverses");
}
static void histories(Rng& r, int steps)
{
   std::vector<Pair> pool;
   for(int i = 0; i < 5; i++)pool.push_back(make(r, dim(r), dim(r)));
   std::string trail;
   uint64_t sig = 0;
   for(int k = 0; k < steps; k++)
   {
      size_t x = r.below(pool.size()), y = r.below(pool.size());
      if(r.chance(0.3))pool[y] = make(r, r.chance(0.5) ? pool[x].mod.n : pool[x].mod.m, r.chance(0.5) ? pool[x].mod.n : dim(r));
      Pair& A = pool[x];
      Pair& B = pool[y];
      if(x == y && r.chance(0.5))continue;
      int op = (int)r.below(20);
      std::string in = show(A.mod) + " and " + show(B.mod);
      sig = mix(sig, (uint64_t)op << 8 | (uint64_t)(A.mod.m * 10 + A.mod.n));
      M a = A.mod, b = B.mod;
      switch(op)
      {
         case 0: case 1:   // sum and difference
         {
            bool ok = a.m == b.m && a.n == b.n;
            std::unique_ptr<Matrix> res;
            bool t = throwsJm([&] { res.reset(op ? new Matrix(*A.lib - *B.lib) : new Matrix(*A.lib + *B.lib)); });
            VH_CHECK(t == !ok, "shape-sum", (op ? "difference" : "sum") << " of " << in << (t ? " is refused" : " is accepted"));
            if(!ok) { count("refused-sum"); break; }
            M w(a.m, a.n);
            for(size_t i = 0; i < w.a.size(); i++)w.a[i] = op ? a.a[i] - b.a[i] : a.a[i] + b.a[i];
            exact(read(*res), w, op ? "difference" : "sum", in);
            count("sums");
            if(r.chance(0.5)) { A.mod = w; *A.lib = *res; }
            break;
         }
         case 2:
         {
            bool ok = a.n == b.m;
            std::unique_ptr<Matrix> res;
            bool t = throwsJm([&] { res.reset(new Matrix(*A.lib * *B.lib)); });
            VH_CHECK(t == !ok, "shape-product", "product of " << in << (t ? " is refused" : " is accepted"));
            if(!ok) { count("refused-product"); break; }
            std::vector<ld> tol;
            M w = product(a, b, tol);
            near(read(*res), w, tol, "product", in);
            count("products");
            double big = 0;
            for(double v : w.a)big = std::max(big, fabs(v));
            if(big < 1e12) { A.mod = read(*res); *A.lib = *res; }
            break;
         }
         case 3:
         {
            double d = entry(r, (int)r.below(4));
            int kind = (int)r.below(3);
            if(kind == 2 && d == 0)d = 2;
            M w = a;
            for(double& v : w.a)v = kind == 2 ? v / d : d * v;
            Matrix res = kind == 0 ? d * *A.lib : kind == 1 ? *A.lib * d : *A.lib / d;
            exact(read(res), w, "scaling", in);
            count("scalings");
            break;
         }
         case 4:
         {
            A.lib->transpose();
            M w(a.n, a.m);
            for(int64_t i = 0; i < a.m; i++)for(int64_t j = 0; j < a.n; j++)w.at(j, i) = a.at(i, j);
            exact(read(*A.lib), w, "transpose", in);
            A.mod = w;
            count("transposes");
            break;
         }
         case 5: case 6: scalars(A); break;
         case 7:
         {
            bool ints = true;
            for(double v : a.a)ints = ints && v == floor(v) && fabs(v) < 100;
            inverse(A, ints);
            bool wild = false;
            for(double v : A.mod.a)wild = wild || !(fabs(v) < 1e12) || (v != 0 && fabs(v) < 1e-12);
            if(wild)A = make(r, dim(r), dim(r));
            break;
         }
         case 8:
         {
            if(r.chance(0.3))
            {
               Pair P;
               P.mod = b;
               P.lib.reset(r.chance(0.5) ? new Matrix(*B.lib) : new Matrix((const Matrix*)B.lib.get()));
               A = std::move(P);
               count("copies");
            }
            else if(r.chance(0.1)) { Matrix& ref = *A.lib; *A.lib = ref; count("self-assignments"); }
            else { *A.lib = *B.lib; A.mod = b; count("assignments"); }
            break;
         }
         case 9:
         {
            int64_t i = (int64_t)r.below((uint64_t)a.m), j = (int64_t)r.below((uint64_t)a.n);
            double v = entry(r, 2);
            if(r.chance(0.5)) { A.lib->set(i, j, v); A.mod.at(i, j) = v; }
            else { A.lib->add(i, j, v); A.mod.at(i, j) += v; }
            break;
         }
         case 10:
            if(r.chance(0.3)) { A.lib->zeros(); for(double& v : A.mod.a)v = 0; }
            else
            {
               double v = entry(r, 2);
               A.lib->diag(v);
               for(int64_t i = 0; i < std::min(a.m, a.n); i++)A.mod.at(i, i) = v;
            }
            break;
         case 11:
         {
            int64_t ro = 0, co = 0;
            if(r.chance(0.5)) { ro = r.range(0, a.m); co = r.range(0, a.n); A.lib->insert(*B.lib, ro, co); }
            else A.lib->insert(*B.lib);
            for(int64_t i = 0; i + ro < a.m && i < b.m; i++)for(int64_t j = 0; j + co < a.n && j < b.n; j++)A.mod.at(i + ro, j + co) = (x == y ? a : b).at(i, j);
            if(x == y && (ro || co))   // overlapping with itself: order is not specified
            {
               A.mod = read(*A.lib);
            }
            count("inserts");
            break;
         }
         case 12:
         {
            Vertex3 v = v3(r, 2);
            Vertex3 res;
            bool t = throwsJm([&] { res = *A.lib * v; });
            VH_CHECK(t == !(a.m == 3 && a.n == 3), "shape-vertex", "product of " << show(a) << " and a vertex" << (t ? " is refused" : " is accepted"));
            if(t)break;
            std::vector<ld> tol;
            M w = product(a, fromV3(v), tol);
            near(fromV3(res), w, tol, "vertex-product", show(a));
            count("vertex-products");
            break;
         }
         case 13:
         {
            int64_t n = r.chance(0.5) ? a.n : dim(r);
            Vector v(n);
            M vm(n, 1);
            for(int64_t i = 0; i < n; i++)v.data[i] = vm.a[(size_t)i] = entry(r, 2);
            std::unique_ptr<Vector> res;
            bool t = throwsJm([&] { res.reset(new Vector(*A.lib * v)); });
            VH_CHECK(t == (n != a.n), "shape-vector", "product of " << show(a) << " and a vector of " << n << (t ? " is refused" : " is accepted"));
            if(t)break;
            std::vector<ld> tol;
            M w = product(a, vm, tol), got(res->m, 1);
            for(int64_t i = 0; i < res->m; i++)got.a[(size_t)i] = res->data[i];
            near(got, w, tol, "vector-product", show(a));
            count("vector-products");
            break;
         }
         case 14: case 15: case 16:   // re-initialisation of a matrix of any shape
         {
            Vertex3 p = v3(r, 1);
            int kind = (int)r.below(6);
            M w(4, 4);
            for(int i = 0; i < 4; i++)w.at(i, i) = 1;
            if(kind == 0)A.lib->initIdentity();
            else if(kind == 1) { A.lib->initMoving(p); w.at(0, 3) = p.x; w.at(1, 3) = p.y; w.at(2, 3) = p.z; }
            else if(kind == 2) { A.lib->initScaling(p); w.at(0, 0) = p.x; w.at(1, 1) = p.y; w.at(2, 2) = p.z; }
            else
            {
               if(kind == 3)A.lib->initRotationZ(p.x);
               else if(kind == 4)A.lib->initRotation(p, Vertex3(0, 0, 1), p.x);
               else A.lib->initMirroring(p, Vertex3(0, 1, 0));
               VH_CHECK(A.lib->m == 4 && A.lib->n == 4, "init-shape", "re-initialised " << show(a) << " is " << A.lib->m << "x" << A.lib->n);
               w = read(*A.lib);
               VH_CHECK(w.at(3, 0) == 0 && w.at(3, 1) == 0 && w.at(3, 2) == 0 && w.at(3, 3) == 1, "init-row", "last row after re-initialising: " << show(w));
            }
            exact(read(*A.lib), w, "init", show(a));
            A.mod = w;
            count("inits");
            if(a.m != 4 || a.n != 4)count("init-other-shape");
            break;
         }
         case 17:
         {
            Vertex3 p = v3(r, 1), q = v3(r, 1), s = v3(r, 1);
            bool rows = r.chance(0.5);
            Pair P;
            P.lib.reset(new Matrix(p, q, s, rows));
            P.mod = M(3, 3);
            const Vertex3* vs[3] = {&p, &q, &s};
            for(int i = 0; i < 3; i++)
            {
               double e[3] = {vs[i]->x, vs[i]->y, vs[i]->z};
               for(int j = 0; j < 3; j++)(rows ? P.mod.at(i, j) : P.mod.at(j, i)) = e[j];
            }
            A = std::move(P);
            break;
         }
         case 18:
         {
            Pair P;
            if(r.chance(0.5))
            {
               double v = entry(r, 2);
               P.lib.reset(new Matrix(v));
               P.mod = M(1, 1);
               P.mod.a[0] = v;
            }
            else
            {
               P.lib.reset(new Matrix());
               *P.lib = *B.lib;
               P.mod = b;
               if(r.chance(0.3)) { Matrix none, other(none), third(&none); third = none; VH_CHECK(other.m == 0 && third.n == 0, "empty", "copy of an empty matrix is " << other.m << "x" << third.n); count("empties"); }
            }
            A = std::move(P);
            break;
         }
         default:
            if(a.m != a.n || a.m > 3)
            {
               VH_CHECK(throwsJm([&] { A.lib->eigen(); }), "shape-eigen", "eigenvalues of " << show(a) << " are accepted");
               count("refused-eigen");
            }
            break;
      }
      for(size_t i = 0; i < pool.size(); i++)
      {
         M g = read(*pool[i].lib);
         VH_CHECK(same(g, pool[i].mod), i == x ? "state" : "other-changed", "after operation " << op << " on " << in << " matrix " << i << (i == x ? " (the operand)" : " (not involved)") << " is " << show(g) << " want " << show(pool[i].mod));
         count("states");
      }
      for(double v : A.mod.a)if(!(fabs(v) < 1e15)) { A = make(r, dim(r), dim(r)); break; }
   }
   distinct(sig);
}
VH_WORKLOAD(matrices, 16000, 400000)
{
   histories(c.r, 12);
}
VH_WORKLOAD(leaks, 60, 1500)
{
   Rng start = c.r;
   size_t first = 0;
   for(int k = 0; k < 7; k++)
   {
      Rng r = start;
      histories(r, 40);
      size_t now = __sanitizer_get_current_allocated_bytes();
      if(k == 3)first = now;
      if(k > 3)VH_CHECK(now <= first, "leak", now - first << " bytes more after repeating the same history of matrix operations");
   }
   count("leak-histories");
}
VH_WORKLOAD(vectors, 20000, 400000)
{
   Rng& r = c.r;
   int64_t n = r.range(1, 9), m = r.chance(0.3) ? r.range(1, 9) : n;
   int style = (int)r.below(5);
   Vector a(n), b(m), o;
   std::vector<double> A((size_t)n), B((size_t)m);
   for(int64_t i = 0; i < n; i++)VH_CHECK(a.data[i] == 0, "vector-new", "element " << i << " of a new vector is " << a.data[i]);
   for(int64_t i = 0; i < n; i++)a.data[i] = A[(size_t)i] = entry(r, style);
   for(int64_t i = 0; i < m; i++)b.data[i] = B[(size_t)i] = entry(r, style);
   auto in = [&] { std::ostringstream s; s << std::hexfloat << "("; for(double v : A)s << v << " "; s << ") and ("; for(double v : B)s << v << " "; s << ")"; return s.str(); };
   auto is = [&](const Vector & v, const std::vector<double>& w, const char* op)
   {
      bool ok = v.m == (int64)w.size();
      for(size_t i = 0; ok && i < w.size(); i++)ok = sameBits(v.data[i], w[i]);
      std::ostringstream s;
      s << v;
      VH_CHECK(ok, std::string("vector-") + op, op << " of " << in() << " gives " << s.str());
   };
   auto op2 = [&](double(*f)(double, double)) { std::vector<double> w; for(size_t i = 0; i < A.size(); i++)w.push_back(f(A[i], B[i])); return w; };
   bool ok = n == m;
   std::unique_ptr<Vector> s;
   bool t = throwsJm([&] { s.reset(new Vector(a + b)); });
   VH_CHECK(t == !ok, "vector-shape", "sum of " << in() << (t ? " is refused" : " is accepted"));
   if(ok)is(*s, op2([](double x, double y) { return x + y; }), "sum");
   t = throwsJm([&] { s.reset(new Vector(a - b)); });
   VH_CHECK(t == !ok, "vector-shape", "difference of " << in() << (t ? " is refused" : " is accepted"));
   if(ok)is(*s, op2([](double x, double y) { return x - y; }), "difference");
   double dot = 0;
   t = throwsJm([&] { dot = a.dotProduct(b); });
   VH_CHECK(t == !ok, "vector-shape", "dot product of " << in() << (t ? " is refused" : " is accepted"));
   if(ok)
   {
      ld w = 0, g = 0;
      for(size_t i = 0; i < A.size(); i++) { w += (ld)A[i] * B[i]; g += fabsl((ld)A[i] * B[i]); }
      VH_CHECK(fabsl(dot - w) <= 15 * kEps * g, "vector-dot", "dot product of " << in() << " gives " << dot << " want " << (double)w);
      count("dots");
   }
   else count("vector-refused");
   double d = entry(r, style);
   std::vector<double> w;
   for(double v : A)w.push_back(d * v);
   is(d * a, w, "scaling");
   ld sq = 0;
   for(double v : A)sq += (ld)v * v;
   ld len = sqrtl(sq);
   VH_CHECK(fabsl(a.abs() - len) <= 15 * kEps * len, "vector-abs", "length of " << in() << " gives " << a.abs() << " want " << (double)len);
   Vector copy(a);
   o = a;
   Vector& self = o;
   o = self;
   if(len > 0)
   {
      copy.normalize();
      for(int64_t i = 0; i < n; i++)VH_CHECK(fabsl(copy.data[i] - (ld)A[(size_t)i] / len) <= 20 * kEps, "vector-normalize", "normalising " << in() << " gives " << copy.data[i] << " at " << i);
      count("normalised");
   }
   is(o, A, "assignment");
   o.ones();
   is(o, std::vector<double>((size_t)n, 1.0), "ones");
   o = b;
   is(o, B, "assignment-other-size");
   o.zeros();
   is(o, std::vector<double>((size_t)m, 0.0), "zeros");
   o = Vector();
   VH_CHECK(o.m == 0, "vector-empty", "assigning an empty vector leaves " << o.m);
   is(a, A, "unchanged-operand");
   is(b, B, "unchanged-operand");
   distinct(mix((uint64_t)(n * 16 + m), hashBytes(A.data(), A.size() * sizeof(double))));
}
VH_WORKLOAD(eigenvalues, 30000, 600000)
{
   Rng& r = c.r;
   int64_t n = r.range(1, 3);
   int style = (int)r.below(4);
   double scale = style == 3 ? 1 : ldexp(1, (int)r.range(-20, 20));
   M a(n, n);
   for(int64_t i = 0; i < n; i++)for(int64_t j = 0; j <= i; j++)a.at(i, j) = a.at(j, i) = entry(r, style) * scale;
   if(r.chance(0.15))for(int64_t i = 1; i < n; i++)a.at(i, i) = a.at(0, 0);
   if(r.chance(0.1))for(int64_t i = 0; i < n; i++)for(int64_t j = 0; j < n; j++)if(i != j)a.at(i, j) = 0;
   if(n == 3 && r.chance(0.15))   // nearly equal eigenvalues
   {
      double q = entry(r, 2), e = ldexp(1, -(int)r.range(10, 50));
      for(int64_t i = 0; i < n; i++)for(int64_t j = 0; j <= i; j++)a.at(i, j) = a.at(j, i) = (i == j ? q : 0) + e * r.range(-2, 2);
   }
   bool sym = true;
   if(n == 2 && r.chance(0.5))   // any matrix with real eigenvalues
   {
      a.at(0, 1) = entry(r, style) * scale;
      sym = false;
      ld D = ((ld)a.at(0, 0) - a.at(1, 1)) * ((ld)a.at(0, 0) - a.at(1, 1)) + 4 * (ld)a.at(0, 1) * a.at(1, 0);
      if(D < 0) { count("complex"); return; }
   }
   Matrix A(n, n);
   for(int64_t i = 0; i < n; i++)for(int64_t j = 0; j < n; j++)A.set(i, j, a.at(i, j));
   Vector v = A.eigen();
   VH_CHECK(v.m == n, "eigen-count", v.m << " eigenvalues of " << show(a));
   ld s1 = 0, s2 = 0, pr = 1, tr = 0, fr = 0, norm = 0, det, per;
   for(int64_t i = 0; i < n; i++) { s1 += v.data[i]; s2 += (ld)v.data[i] * v.data[i]; pr *= v.data[i]; }
   for(int64_t i = 0; i < n; i++)tr += a.at(i, i);
   for(int64_t i = 0; i < n; i++)for(int64_t j = 0; j < n; j++) { fr += (ld)a.at(i, j) * a.at(j, i); norm = std::max(norm, fabsl((ld)a.at(i, j))); }
   ldet(a, idx(n), idx(n), det, per);
   std::ostringstream vs;
   vs << v;
   ld tol = 3e-7L;
   VH_CHECK(fabsl(s1 - tr) <= tol * norm, "eigen-sum", "eigenvalues " << vs.str() << " of " << show(a) << " do not add up to the trace " << (double)tr);
   VH_CHECK(fabsl(s2 - fr) <= tol * norm * norm, "eigen-squares", "squares of the eigenvalues " << vs.str() << " of " << show(a) << " do not add up to " << (double)fr);
   ld nn = 1;
   for(int64_t i = 0; i < n; i++)nn *= norm;
   VH_CHECK(fabsl(pr - det) <= tol * nn, "eigen-product", "product of the eigenvalues " << vs.str() << " of " << show(a) << " is not the determinant " << (double)det);
   count(n == 3 ? "eigen-3" : n == 2 ? (sym ? "eigen-2-symmetric" : "eigen-2") : "eigen-1");
   distinct(hashBytes(a.a.data(), a.a.size() * sizeof(double)));
}
// Matrices and vectors of some ten thousand elements
VH_WORKLOAD(large, 40, 1000)
{
   Rng& r = c.r;
   int64_t m, n;
   switch(r.below(4))
   {
      case 0: m = r.range(250, 300); n = r.range(250, 300); break;
      case 1: m = r.range(1, 3); n = r.range(30000, 70000); break;
      case 2: m = r.range(30000, 70000); n = r.range(1, 3); break;
      default: m = r.range(60, 140); n = r.range(60, 140);
   }
   auto fill = [&](int64_t a, int64_t b)
   {
      Pair p;
      p.mod = M(a, b);
      p.lib.reset(new Matrix(a, b));
      for(int64_t i = 0; i < a; i++)for(int64_t j = 0; j < b; j++)
         {
            double v = (double)r.range(-50, 50);
            p.mod.at(i, j) = v;
            p.lib->set(i, j, v);
         }
      return p;
   };
   std::string what = std::to_string(m) + "x" + std::to_string(n);
   auto is = [&](const Matrix & x, const M & w, const char* op)
   {
      VH_CHECK(x.m == w.m && x.n == w.n, "shape", op << " of a " << what << " matrix is " << x.m << "x" << x.n);
      for(int64_t i = 0; i < w.m; i++)for(int64_t j = 0; j < w.n; j++)
            VH_CHECK(x.get(i, j) == w.at(i, j), std::string("large-") + op, op << " of a " << what << " matrix has " << x.get(i, j) << " at row " << i << " column " << j << " want " << w.at(i, j));
   };
   Pair a = fill(m, n), b = fill(m, n);
   is(*a.lib, a.mod, "setting");
   M w = a.mod;
   Matrix copy(*a.lib), copy2((const Matrix*)a.lib.get()), as(1, 2);
   as = *a.lib;
   is(copy, w, "copy");
   is(copy2, w, "copy through a pointer");
   is(as, w, "assignment");
   for(size_t i = 0; i < w.a.size(); i++)w.a[i] = a.mod.a[i] + b.mod.a[i];
   is(*a.lib + *b.lib, w, "sum");
   for(size_t i = 0; i < w.a.size(); i++)w.a[i] = a.mod.a[i] - b.mod.a[i];
   is(*a.lib - *b.lib, w, "difference");
   for(size_t i = 0; i < w.a.size(); i++)w.a[i] = 4 * a.mod.a[i];
   is(4.0 * *a.lib, w, "scaling");
   is(*a.lib * 4.0, w, "scaling");
   is(*a.lib / 0.25, w, "scaling");
   uint32 nz = 0;
   double n1 = 0, ni = 0, tr = 0;
   for(double v : a.mod.a)nz += v != 0;
   for(int64_t j = 0; j < n; j++) { double t = 0; for(int64_t i = 0; i < m; i++)t += fabs(a.mod.at(i, j)); n1 = std::max(n1, t); }
   for(int64_t i = 0; i < m; i++) { double t = 0; for(int64_t j = 0; j < n; j++)t += fabs(a.mod.at(i, j)); ni = std::max(ni, t); }
   for(int64_t i = 0; i < std::min(m, n); i++)tr += a.mod.at(i, i);
   VH_CHECK(a.lib->nonZeroElementCount() == nz, "large-nonzero", what << ": " << a.lib->nonZeroElementCount() << " want " << nz);
   VH_CHECK(a.lib->norm(MatrixNorm::kNorm1) == n1 && a.lib->norm(MatrixNorm::kNormInf) == ni && a.lib->trace() == tr, "large-norms", what);
   // a product with a thin matrix and with a vector
   {
      int64_t k = r.range(1, 3);
      Pair t = fill(n, k);
      M e(m, k);
      for(int64_t i = 0; i < m; i++)for(int64_t j = 0; j < k; j++) { double v = 0; for(int64_t l = 0; l < n; l++)v += a.mod.at(i, l) * t.mod.at(l, j); e.at(i, j) = v; }
      is(*a.lib * *t.lib, e, "product");
      Vector x(n);
      for(int64_t i = 0; i < n; i++) { VH_CHECK(x.data[i] == 0, "vector-new", "element " << i << " of " << n << " is " << x.data[i]); x.data[i] = t.mod.at(i, 0); }
      Vector y = *a.lib * x;
      VH_CHECK(y.m == m, "large-vector", what << ": product has " << y.m << " elements");
      for(int64_t i = 0; i < m; i++)VH_CHECK(y.data[i] == e.at(i, 0), "large-vector", what << ": product has " << y.data[i] << " at " << i << " want " << e.at(i, 0));
      Vector z(y), o(3);
      o = y;
      double dot = 0;
      for(int64_t i = 0; i < m; i++)dot += y.data[i] * y.data[i];
      VH_CHECK(z.m == m && o.m == m && memcmp(z.data, y.data, (size_t)m * 8) == 0 && memcmp(o.data, y.data, (size_t)m * 8) == 0, "large-vector", what << ": copy differs");
      VH_CHECK(y.dotProduct(z) == dot, "large-dot", what << ": " << y.dotProduct(z) << " want " << dot);
      VH_CHECK(fabs(y.abs() - sqrt(dot)) <= 1e-12 * sqrt(dot), "large-abs", what << ": " << y.abs());
      Vector u = y + z, v = y - z;
      for(int64_t i = 0; i < m; i++)VH_CHECK(u.data[i] == 2 * y.data[i] && v.data[i] == 0, "large-vector", what << ": sum or difference wrong at " << i);
      u.normalize();
      if(dot > 0)for(int64_t i = 0; i < m; i++)VH_CHECK(fabs(u.data[i] - y.data[i] / sqrt(dot)) <= 1e-12, "large-normalize", what << ": normalised vector has " << u.data[i] << " at " << i << " want " << y.data[i] / sqrt(dot));
      u.ones();
      v.zeros();
      o.zeros();
      for(int64_t i = 0; i < m; i++)VH_CHECK(u.data[i] == 1 && v.data[i] == 0 && o.data[i] == 0, "large-vector", what << ": ones or zeros wrong at " << i);
   }
   // one matrix inserted in another
   {
      int64_t ro = r.chance(0.3) ? 0 : r.range(0, m), co = r.chance(0.3) ? 0 : r.range(0, n);
      Pair t = fill(r.range(1, m), r.range(1, n));
      M e = a.mod;
      for(int64_t i = 0; i < t.mod.m && i + ro < m; i++)for(int64_t j = 0; j < t.mod.n && j + co < n; j++)e.at(i + ro, j + co) = t.mod.at(i, j);
      if(ro == 0 && co == 0)copy.insert(*t.lib);
      else copy.insert(*t.lib, ro, co);
      is(copy, e, "insertion");
   }
   a.lib->transpose();
   w = M(n, m);
   for(int64_t i = 0; i < m; i++)for(int64_t j = 0; j < n; j++)w.at(j, i) = a.mod.at(i, j);
   is(*a.lib, w, "transposition");
   a.lib->diag(7);
   for(int64_t i = 0; i < std::min(m, n); i++)w.at(i, i) = 7;
   is(*a.lib, w, "diagonal");
   a.lib->zeros();
   is(*a.lib, M(n, m), "clearing");
   is(*b.lib, b.mod, "the other operand");
   distinct(mix((uint64_t)m, (uint64_t)n));
   count("large");
}
VH_REQUIRE("large", "states", "sums", "refused-sum", "products", "refused-product", "scalings", "transposes", "dets", "inverses", "singular", "inverse-refused", "copies", "assignments", "self-assignments", "empties", "inserts", "inits", "init-other-shape", "vertex-products", "vector-products", "refused-eigen", "dots", "vector-refused", "normalised", "eigen-3", "eigen-2-symmetric", "eigen-2", "leak-histories")
VH_DRIVER("P32", "every result within its rounding-error bound of the long-double model, uninvolved matrices unchanged, incompatible shapes refused")
