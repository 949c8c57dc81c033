// P37: numeric helpers.
// VH-TECH: laws of comparison, rounding, floor division, powers of two, swapping, interpolation and random numbers evaluated over numbers of every magnitude and all limits, with long double and 128-bit integer oracles, under ASan+UBSan with float-cast checks
#include "vh.hpp"
#include <iomanip>
#include <cstring>
using namespace vh;
using namespace jm;
typedef long double ld;
typedef __int128 i128;
static double anyDouble(Rng& r)
{
   static const double special[] = {0.0, -0.0, 1, -1, 0.5, -0.5, 0.49999999999999994, 1e-6, -1e-6, 9.99999e-7, 1.000001e-6, 1e10, 1e16, 4503599627370497.0, 4503599627370495.5, 9007199254740993.0, 9.2e18, -9.2e18, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 2.2250738585072014e-308};
   if(r.chance(0.15))return special[r.below(sizeof(special) / sizeof(special[0]))];
   if(r.chance(0.1))
   {
      double d;
      uint64 u;
      do
      {
         u = r.u64();
         memcpy(&d, &u, 8);
      } while(!std::isfinite(d));
      return d;
   }
   if(r.chance(0.2))return (double)(int64)r.range(-1000, 1000) / 2;
   double m = std::pow(10.0, r.real(-12, 20));
   return r.chance(0.5) ? m * r.real(0.1, 1) : -m * r.real(0.1, 1);
}
VH_WORKLOAD(comparing, 1000000, 40000000)
{
   Rng& r = c.r;
   double a = anyDouble(r), b;
   switch(r.below(6))
   {
      case 0: b = a; break;
      case 1: b = a + (r.chance(0.5) ? 1 : -1) * 1e-6; break;
      case 2: b = a + r.real(-2e-6, 2e-6); break;
      case 3: b = std::nextafter(a, r.chance(0.5) ? 1e309 : -1e309); break;
      case 4: b = a + r.real(-1, 1) * std::pow(10.0, r.real(-9, 1)); break;
      default: b = anyDouble(r);
   }
   if(!std::isfinite(b))b = a;
   bool e = isEqual(a, b), ne = isNotEqual(a, b), l = isLess(a, b), le = isLessEqual(a, b), g = isGreater(a, b), ge = isGreaterEqual(a, b);
   std::ostringstream o;
   o << std::setprecision(17) << a << " and " << b << ": equal " << e << " not equal " << ne << " less " << l << " less or equal " << le << " greater " << g << " greater or equal " << ge;
   VH_CHECK(e + l + g == 1, "trichotomy", o.str());
   VH_CHECK(ne == !e && le == !g && ge == !l, "complement", o.str());
   VH_CHECK(isEqual(b, a) == e && isLess(b, a) == g && isGreater(b, a) == l && isLessEqual(b, a) == ge && isGreaterEqual(b, a) == le && isNotEqual(b, a) == ne, "antisymmetry", o.str());
   ld d = (ld)b - (ld)a;
   ld slack = 1e-6L * 1e-9L + fabsl((ld)a) * 2.3e-16L;   // the difference is a double
   if(fabsl(fabsl(d) - 1e-6L) > slack)
   {
      VH_CHECK(e == (fabsl(d) < 1e-6L), "equal-tolerance", o.str());
      VH_CHECK(l == (d > 1e-6L), "less-tolerance", o.str());
      VH_CHECK(g == (d < -1e-6L), "greater-tolerance", o.str());
   }
   VH_CHECK(isEqual(a, a) && isLessEqual(a, a) && isGreaterEqual(a, a) && !isLess(a, a) && !isGreater(a, a) && !isNotEqual(a, a), "self", std::setprecision(17) << a << " compared with itself");
   VH_CHECK(!isNaN(a) && isNaN(NAN) && isNaN(-NAN) && !isNaN(INFINITY), "nan", a);
   VH_CHECK(sign(a) == (a > 0) - (a < 0), "sign", "sign of " << std::setprecision(17) << a << " is " << sign(a));
   count(e ? "equal" : l ? "less" : "greater");
   if(fabs(a) > 1e11)count("huge");
   distinct(hashBytes(&a, 8));
}
VH_WORKLOAD(rounding, 500000, 10000000)
{
   Rng& r = c.r;
   double a = anyDouble(r);
   if(r.chance(0.4))a = (double)r.range(-100000, 100000) + 0.5;
   if(r.chance(0.1))a = std::nextafter(a, r.chance(0.5) ? 0 : 1e309);
   if(fabs(a) < 9.2e18)
   {
      int64 n = jm::round(a);
      ld dist = fabsl((ld)n - (ld)a);
      VH_CHECK(dist <= 0.5L && !(dist == 0.5L && fabsl((ld)n) < fabsl((ld)a)), "round", std::setprecision(17) << a << " rounds to " << n);
      count("rounded");
   }
   int64 digits = r.chance(0.8) ? r.range(-5, 12) : r.range(-400, 400);
   if(std::isfinite(a) && (fabs(a) >= 1e290 || digits < -5 || digits > 12))
   {
      // far digits: the nearest multiple, or the number itself where it has no such digit
      double f = roundFrac(a, digits);
      ld unit = powl(10.0L, digits), scaled = (ld)a * unit, err = fabsl(scaled) * 4e-15L + 1e-9L;
      VH_CHECK(std::isfinite(f) || roundl(fabsl(scaled)) / unit > 1.7976931348623157e308L, "round-frac-far", std::setprecision(17) << a << " rounded to " << digits << " digits is " << f);
      VH_CHECK(!std::isfinite(f) || (digits > 307 && f == a) || fabsl((ld)f * unit - scaled) <= 0.5L + err, "round-frac-far", std::setprecision(17) << a << " rounded to " << digits << " digits is " << f);
      VH_CHECK(!std::isfinite(f) || (digits > 307 && f == a) || (fabsl(scaled) > 1e14L || fabsl((ld)f * unit - roundl((ld)f * unit)) <= err + 1e-15L * fabsl(scaled)), "round-frac-far", std::setprecision(17) << a << " rounded to " << digits << " digits is " << f);
      if(fabs(a) < 1e30 && fabs(a) > 1e-36)
      {
         float x = (float)a, g = roundFrac(x, (int32)digits);
         VH_CHECK((digits > 260 && g == x) || fabsl((ld)g * unit - (ld)x * unit) <= 0.5L + fabsl((ld)x * unit) * 1.3e-7L + 1e-9L, "round-frac-float", std::setprecision(9) << x << " rounded to " << digits << " digits is " << g);
      }
      count("round-fracs-far");
   }
   else if(fabs(a) < 1e290)
   {
      double f = roundFrac(a, digits);
      ld unit = powl(10.0L, digits);
      ld scaled = (ld)a * unit, back = (ld)f * unit;
      ld err = fabsl(scaled) * 4.5e-16L + 1e-12L;
      VH_CHECK(std::isfinite(f) && fabsl(back - scaled) <= 0.5L + err && fabsl(back - roundl(back)) <= err + 1e-15L * fabsl(back), "round-frac", std::setprecision(17) << a << " rounded to " << digits << " digits is " << f);
      VH_CHECK(f == 0 || (f > 0) == (a > 0), "round-frac-sign", std::setprecision(17) << a << " rounded to " << digits << " digits is " << f);
      double ff = roundFrac(f, digits);
      VH_CHECK(fabs(ff - f) <= fabs(f) * 1e-15, "round-frac-twice", std::setprecision(17) << a << " rounded to " << digits << " digits is " << f << ", rounded again " << ff);
      count("round-fracs");
   }
   if(fabs(a) < 1e30 && digits >= -5 && digits <= 12)
   {
      float x = (float)a, f = roundFrac(x, (int32)digits);
      ld unit = powl(10.0L, digits), err = fabsl((ld)x * unit) * 1.3e-7L + 1e-12L;
      VH_CHECK(std::isfinite(f) && fabsl((ld)f * unit - (ld)x * unit) <= 0.5L + err, "round-frac-float", std::setprecision(9) << x << " rounded to " << digits << " digits is " << f);
      count("round-frac-floats");
   }
   distinct(mix(hashBytes(&a, 8), (uint64)digits));
}
static int64 anyInt(Rng& r)
{
   switch(r.below(5))
   {
      case 0: return r.range(-20, 20);
      case 1: return INT64_MIN + r.range(0, 3);
      case 2: return INT64_MAX - r.range(0, 3);
      case 3: return (int64)r.u64() >> r.below(64);
      default: return (int64)r.u64();
   }
}
VH_WORKLOAD(dividing, 500000, 20000000)
{
   Rng& r = c.r;
   int64 x = anyInt(r), y = anyInt(r);
   if(r.chance(0.2) && y != 0)x = (int64)((i128)y * ((i128)x / y));   // exact multiples
   if(y == 0)
   {
      VH_CHECK(modFloor(x, y) == 0, "mod-zero", x << " mod 0 is " << modFloor(x, y));
      count("modulo-zero");
      return;
   }
   int64 m = modFloor(x, y);
   i128 am = m < 0 ? -(i128)m : m, ay = y < 0 ? -(i128)y : y;
   VH_CHECK(am < ay && (m == 0 || (m < 0) == (y < 0)) && ((i128)x - m) % y == 0, "mod-floor", x << " mod " << y << " is " << m);
   count("modulos");
   if(y == -1 && x == INT64_MIN) { count("smallest-by-minus-one"); return; }
   int64 q = divFloor(x, y);
   VH_CHECK((i128)q * y + m == x, "div-floor", x << " div " << y << " is " << q << ", mod " << m);
   if(m == 0)count("exact");
   if((x < 0) != (y < 0) && m)count("rounded-down");
   distinct(mix((uint64)x, (uint64)y));
}
VH_WORKLOAD(powers, 50000, 2000000)
{
   Rng& r = c.r;
   uint32 x = (uint32)(r.u64() >> r.below(64));
   if(r.chance(0.4))x = (1u << r.below(32)) + (uint32)r.range(-1, 1);
   if(r.chance(0.01))x = 0;
   int bits = __builtin_popcount(x);
   int32 s = (int32)x;
   VH_CHECK(powerOf2(s) == (s > 0 && bits == 1), "power-of-2", s << " is a power of two: " << powerOf2(s));
   if(x <= 0x80000000u)
   {
      uint32 p = ceilPowerOf2(x);
      VH_CHECK(__builtin_popcount(p) == 1 && p >= x && (p == 1 || p / 2 < x), "ceil-power-of-2", "next power of two of " << x << " is " << p);
      count("powers");
   }
   // Swapping, also a variable with itself
   auto swaps = [&](auto a, auto b, const char* t) {
      auto p = a, q = b;
      jm::swap(p, q);
      VH_CHECK(p == b && q == a, "swap", "swapping " << t << "s " << +a << " and " << +b << " gives " << +p << " and " << +q);
      p = a;
      jm::swap(p, p);
      VH_CHECK(p == a, "swap-self", "swapping the " << t << " " << +a << " with itself gives " << +p);
   };
   uint64 u = r.u64(), v = r.chance(0.2) ? u : r.u64();
   swaps((int32)u, (int32)v, "int32");
   swaps((uint32)u, (uint32)v, "uint32");
   swaps((uint16)u, (uint16)v, "uint16");
   swaps((uint8)u, (uint8)v, "uint8");
   swaps(anyDouble(r), anyDouble(r), "double");
   count("swaps");
   distinct(mix(x, u));
}
VH_WORKLOAD(interpolating, 400000, 10000000)
{
   Rng& r = c.r;
   auto value = [&] { return r.chance(0.1) ? 0.0 : r.real(-1, 1) * std::pow(10.0, r.real(-6, 12)); };
   double a = value(), b = r.chance(0.1) ? a : value(), t = r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.unit();
   double x = interpolate(a, b, t);
   ld w = (ld)a + (ld)t * ((ld)b - (ld)a), size = std::max(fabs(a), fabs(b));
   VH_CHECK(fabsl((ld)x - w) <= 5e-16L * size, "interpolate", std::setprecision(17) << "from " << a << " to " << b << " at " << t << " is " << x);
   VH_CHECK(t != 0 || x == a, "interpolate-begin", std::setprecision(17) << "from " << a << " to " << b << " at 0 is " << x);
   float fa = (float)a, fb = (float)b, ft = (float)t, fx = interpolate(fa, fb, ft);
   VH_CHECK(fabsl((ld)fx - ((ld)fa + (ld)ft * ((ld)fb - (ld)fa))) <= 3e-7L * size, "interpolate-float", std::setprecision(9) << "from " << fa << " to " << fb << " at " << ft << " is " << fx);
   double lo = value(), hi = lo + (r.chance(0.3) ? -1 : 1) * r.real(0.01, 1) * std::max(1.0, fabs(lo)), pos = lo + (hi - lo) * r.real(-0.5, 1.5);
   x = interpolate(a, b, lo, hi, pos);
   w = (ld)a + ((ld)pos - lo) / ((ld)hi - lo) * ((ld)b - (ld)a);
   VH_CHECK(fabsl((ld)x - w) <= 1e-12L * size, "interpolate-position", std::setprecision(17) << "from " << a << " to " << b << " at " << pos << " in " << lo << ".." << hi << " is " << x);
   count("interpolations");
   double d = r.chance(0.3) ? (double)r.range(-720, 720) : value();
   VH_CHECK(fabsl((ld)degToRad(d) - (ld)d * acosl(-1.0L) / 180) <= fabs(d) * 1e-17 * 10, "deg-to-rad", std::setprecision(17) << d << " degrees are " << degToRad(d));
   VH_CHECK(fabsl((ld)radToDeg(d) - (ld)d * 180 / acosl(-1.0L)) <= fabs(d) * 4e-14, "rad-to-deg", std::setprecision(17) << d << " radians are " << radToDeg(d));
   VH_CHECK(fabs(radToDeg(degToRad(d)) - d) <= fabs(d) * 1e-15, "deg-rad-deg", std::setprecision(17) << d << " degrees come back as " << radToDeg(degToRad(d)));
   count("angles");
   distinct(mix(hashBytes(&a, 8), hashBytes(&b, 8)));
}
VH_WORKLOAD(chance, 3000, 100000)
{
   Rng& r = c.r;
   srand((unsigned)r.u64());
   int32 lo, hi;
   switch(r.below(4))
   {
      case 0: lo = (int32)r.range(-10, 10); hi = lo + (int32)r.below(10); break;
      case 1: lo = INT32_MIN + (int32)r.below(3); hi = INT32_MAX - (int32)r.below(3); break;
      case 2: lo = (int32)r.u64(); hi = lo; break;
      default: lo = (int32)r.u64(); hi = (int32)r.u64(); if(lo > hi)std::swap(lo, hi);
   }
   std::set<int32> seen;
   for(int i = 0; i < 400; i++)
   {
      int32 x = jm::random(lo, hi);
      VH_CHECK(x >= lo && x <= hi, "random-range", "random(" << lo << "," << hi << ") is " << x);
      seen.insert(x);
      double d = jm::random();
      VH_CHECK(d >= 0 && d <= 1, "random-unit", "random() is " << d);
      VH_CHECK(!probability(0), "probability-0", "probability(0) is true");
      VH_CHECK(probability(1), "probability-1", "probability(1) is false");
   }
   int64 n = (int64)hi - lo + 1;
   if(n <= 10)VH_CHECK((int64)seen.size() == n, "random-values", "400 calls of random(" << lo << "," << hi << ") gave " << seen.size() << " of " << n << " values");
   if(n > 100000)VH_CHECK(seen.size() > 300, "random-repeats", "400 calls of random(" << lo << "," << hi << ") gave only " << seen.size() << " different values");
   double p = r.unit();
   int hit = 0;
   const int calls = 4000;
   for(int i = 0; i < calls; i++)hit += probability(p);
   VH_CHECK(fabs(hit - calls * p) < 7 * sqrt(calls * p * (1 - p)) + 8, "probability", "probability(" << p << ") was true " << hit << " times of " << calls);
   if(c.index == 0)
   {
      VH_CHECK(1.0 + doubleMaschineEpsilon() == 1.0 && 1.0 + doubleMaschineEpsilon() * 1.000001 > 1.0 && fabs(doubleMaschineEpsilon() - 1.11022e-16) < 1e-20, "epsilon", "machine accuracy " << doubleMaschineEpsilon());
      VH_CHECK(fabs(floatMaschineEpsilon() - 5.96046e-08) < 1e-12, "epsilon-float", "machine accuracy " << floatMaschineEpsilon());
   }
   count("random-histories");
   distinct(mix((uint64)(uint32)lo, (uint64)(uint32)hi));
}
VH_REQUIRE("round-fracs-far", "equal", "less", "greater", "huge", "rounded", "round-fracs", "round-frac-floats", "modulos", "modulo-zero", "exact", "rounded-down", "smallest-by-minus-one", "powers", "swaps", "interpolations", "angles", "random-histories")
VH_DRIVER("P37", "every law of the statement holds for the generated numbers")
