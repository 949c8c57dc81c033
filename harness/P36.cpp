// P36: colours.
// VH-TECH: all 2^24 RGB colours (thorough; a different eighth of them per quick run plus all greys and corner colours), all greys, sampled CMYK, all 65536 alpha pairs of Porter-Duff blending and all 256 blend factors, against exact formulas, under ASan+UBSan with float-cast checks
#include "vh.hpp"
using namespace vh;
using namespace jm;
static std::string show(const Color& c)
{
   std::ostringstream o;
   if(c.mode() == ColorMode::kRgb)o << "rgb(" << (int)c.red() << "," << (int)c.green() << "," << (int)c.blue();
   else if(c.mode() == ColorMode::kGrey)o << "grey(" << (int)c.grey();
   else o << "cmyk(" << (int)c.cyan() << "," << (int)c.magenta() << "," << (int)c.yellow() << "," << (int)c.key();
   o << ";" << (int)c.alpha() << ")";
   return o.str();
}
static bool close(int a, double b) { return fabs(a - b) <= 1.0; }
static void rgb(int r, int g, int b, uint8 al)
{
   Color c = Color::fromRgb((uint8)r, (uint8)g, (uint8)b, al);
   if(c.mode() != ColorMode::kRgb || c.red() != r || c.green() != g || c.blue() != b || c.alpha() != al)vh::fail("from-rgb", show(c));
   Color k = c;
   k.toGreyScale();
   double w = 0.2126 * r + 0.7152 * g + 0.0722 * b;
   bool grey = r == g && g == b;
   if(k.mode() != ColorMode::kGrey || !close(k.grey(), w) || (grey && k.grey() != r) || k.alpha() != al)vh::fail("rgb-to-grey", show(c) + " becomes " + show(k));
   k = c;
   k.toCmyk();
   int mx = std::max(r, std::max(g, b)), mn = std::min(r, std::min(g, b));
   double d = mx ? mx : 1;
   bool ok = k.mode() == ColorMode::kCmyk && close(k.key(), 255 - mx) && close(k.cyan(), 255 * (mx - r) / d) && close(k.magenta(), 255 * (mx - g) / d) && close(k.yellow(), 255 * (mx - b) / d) && k.alpha() == al;
   if(grey)ok = ok && k.cyan() == 0 && k.magenta() == 0 && k.yellow() == 0 && k.key() == 255 - r;
   if(!ok)vh::fail("rgb-to-cmyk", show(c) + " becomes " + show(k));
   float h = -1, s = -1, v = -1;
   c.hsvModel(h, s, v);
   double H = 0;
   if(mx != mn)
   {
      H = mx == r ? (double)(g - b) / (mx - mn) : mx == g ? 2 + (double)(b - r) / (mx - mn) : 4 + (double)(r - g) / (mx - mn);
      H *= 60;
      if(H < 0)H += 360;
   }
   if(!(fabs(h - H) < 1e-3) || !(fabs(s - (mx ? (double)(mx - mn) / mx : 0)) < 1e-5) || !(fabs(v - mx / 255.0) < 1e-5))
      vh::fail("hsv", show(c) + " has hue " + std::to_string(h) + " saturation " + std::to_string(s) + " value " + std::to_string(v));
   k = Color::FromHsv(h, s, v, (float)al / 255.0f);
   if(k.mode() != ColorMode::kRgb || abs(k.red() - r) > 1 || abs(k.green() - g) > 1 || abs(k.blue() - b) > 1 || k.alpha() != al)vh::fail("hsv-back", show(c) + " comes back as " + show(k));
   if((mx == 0 || mn == 255) && (k.red() != r || k.green() != g || k.blue() != b))vh::fail("hsv-back-extreme", show(c) + " comes back as " + show(k));
   k = c;
   k.toRgb();
   if(!(k == c) || k != c || c.isWhite() != (mn == 255))vh::fail("rgb-same", show(c));
}
VH_WORKLOAD(rgbs, 256, 2048)   // one red value (and in quick a stride of the blue values) per case
{
   int r = (int)(c.index % 256);
   int part = (int)(c.index / 256);
   int step = 8, first = (part + r * 5) % 8;   // thorough: all eight parts
   for(int g = 0; g < 256; g++)
   {
      for(int b = first; b < 256; b += step)rgb(r, g, b, (uint8)(r ^ g ^ b));
      rgb(r, g, 0, 255);
      rgb(r, g, 255, 0);
      rgb(r, g, g, (uint8)g);
   }
   rgb(r, r, r, 255);
   rgb(r, r, r, 0);
   VH_CHECK(true, "x", "");
   eval(256 * 35);
   count("rgb-colours", 256 * 35);
   count("greys-as-rgb", 2);
   distinct((uint64_t)(r * 8 + first));
}
VH_WORKLOAD(greys, 256, 256)
{
   for(int al = 0; al < 256; al += 5)
   {
      uint8 g = (uint8)c.index;
      Color x = Color::fromGrey(g, (uint8)al), k = x;
      VH_CHECK(x.mode() == ColorMode::kGrey && x.grey() == g && x.alpha() == al && x.isWhite() == (g == 255), "from-grey", show(x));
      k.toRgb();
      VH_CHECK(k.mode() == ColorMode::kRgb && k.red() == g && k.green() == g && k.blue() == g && k.alpha() == al, "grey-to-rgb", show(x) << " becomes " << show(k));
      k.toGreyScale();
      VH_CHECK(k == x, "grey-rgb-grey", show(x) << " becomes " << show(k));
      k.toCmyk();
      VH_CHECK(k.mode() == ColorMode::kCmyk && k.cyan() == 0 && k.magenta() == 0 && k.yellow() == 0 && k.key() == 255 - g && k.alpha() == al && k.isWhite() == (g == 255), "grey-to-cmyk", show(x) << " becomes " << show(k));
      k.toGreyScale();
      VH_CHECK(k == x, "grey-cmyk-grey", show(x) << " becomes " << show(k));
      k.toGreyScale();
      VH_CHECK(k == x, "grey-grey", show(x) << " becomes " << show(k));
      float h, s, v;
      x.hsvModel(h, s, v);
      VH_CHECK(h == 0 && s == 0 && fabs(v - g / 255.0) < 1e-5, "grey-hsv", show(x) << " has hue " << h << " saturation " << s << " value " << v);
      VH_CHECK(x.mode() == ColorMode::kGrey && x.grey() == g, "hsv-changes", "hsvModel changed the colour to " << show(x));
      count("greys");
   }
}
static Color any(Rng& r)
{
   auto q = [&] { return (uint8)(r.chance(0.2) ? 0 : r.chance(0.2) ? 255 : r.below(256)); };
   uint8 a = r.chance(0.3) ? 255 : q();
   switch(r.below(3))
   {
      case 0: return Color::fromGrey(q(), a);
      case 1: { uint8 x = q(), y = q(), z = q(); return Color::fromRgb(x, y, z, a); }
      default: { uint8 x = q(), y = q(), z = q(), k = q(); return Color::fromCmyk(x, y, z, k, a); }
   }
}
VH_WORKLOAD(cmyk, 30000, 600000)
{
   Rng& r = c.r;
   uint8 v[5];
   for(uint8& x : v)x = (uint8)(r.chance(0.2) ? 0 : r.chance(0.2) ? 255 : r.below(256));
   Color x = Color::fromCmyk(v[0], v[1], v[2], v[3], v[4]), k = x;
   VH_CHECK(x.mode() == ColorMode::kCmyk && x.cyan() == v[0] && x.magenta() == v[1] && x.yellow() == v[2] && x.key() == v[3] && x.alpha() == v[4], "from-cmyk", show(x));
   VH_CHECK(x.isWhite() == (!v[0] && !v[1] && !v[2] && !v[3]), "cmyk-white", show(x) << ".isWhite() is " << x.isWhite());
   k.toRgb();
   int w[3];
   for(int i = 0; i < 3; i++)w[i] = std::max(0, 255 - v[i] - v[3]);
   VH_CHECK(k.mode() == ColorMode::kRgb && k.red() == w[0] && k.green() == w[1] && k.blue() == w[2] && k.alpha() == v[4], "cmyk-to-rgb", show(x) << " becomes " << show(k));
   k = x;
   k.toGreyScale();
   double g = 0.2126 * w[0] + 0.7152 * w[1] + 0.0722 * w[2];
   VH_CHECK(k.mode() == ColorMode::kGrey && close(k.grey(), g) && k.alpha() == v[4], "cmyk-to-grey", show(x) << " becomes " << show(k) << " want " << g);
   k = x;
   k.toCmyk();
   VH_CHECK(k == x, "cmyk-same", show(x) << " becomes " << show(k));
   float h, s, q, h2, s2, q2;
   x.hsvModel(h, s, q);
   Color::fromRgb((uint8)w[0], (uint8)w[1], (uint8)w[2]).hsvModel(h2, s2, q2);
   VH_CHECK(h == h2 && s == s2 && q == q2, "cmyk-hsv", "HSV of " << show(x) << " is " << h << " " << s << " " << q);
   // Setters and equality
   Color a = any(r), b = a;
   VH_CHECK(a == b && !(a != b), "equal-copy", show(a) << " differs from its copy");
   Color e;
   e = a;
   VH_CHECK(e == a, "equal-assigned", show(a) << " differs from its assignment " << show(e));
   uint8 n = (uint8)r.below(256);
   int which = (int)r.below(6);
   bool differs = false;
   if(which == 0) { differs = a.alpha() != n; b.setAlpha(n); }
   else if(which == 1)
   {
      ColorMode m = (ColorMode)r.below(3);
      differs = a.mode() != m;
      b.setMode(m);
   }
   else if(a.mode() == ColorMode::kGrey) { differs = a.grey() != n; b.setGrey(n); }
   else if(a.mode() == ColorMode::kRgb)
   {
      if(which == 2) { differs = a.red() != n; b.setRed(n); }
      else if(which == 3) { differs = a.green() != n; b.setGreen(n); }
      else { differs = a.blue() != n; b.setBlue(n); }
   }
   else
   {
      if(which == 2) { differs = a.cyan() != n; b.setCyan(n); }
      else if(which == 3) { differs = a.magenta() != n; b.setMagenta(n); }
      else if(which == 4) { differs = a.yellow() != n; b.setYellow(n); }
      else { differs = a.key() != n; b.setKey(n); }
   }
   VH_CHECK((a == b) == !differs && (a != b) == differs && (b == a) == !differs, "equality", show(a) << " and " << show(b) << " compare " << (a == b));
   if(a.mode() == b.mode())
   {
      Color f = any(r);
      f.setMode(a.mode());
      Color t = (a - f) + f;
      VH_CHECK(t == a, "minus-plus", show(a) << " - " << show(f) << " + " << show(f) << " is " << show(t));
   }
   count(differs ? "different" : "equal");
   count("cmyk-colours");
   distinct(hashBytes(v, 5));
}
static void between(const Color& a, const Color& b, const Color& x, const char* key, const std::string& what, bool alpha)
{
   Color p = a, q = b;
   p.toRgb();
   q.toRgb();
   auto in = [](int l, int h, int v) { if(l > h)std::swap(l, h); return v >= l && v <= h; };
   VH_CHECK(x.mode() == ColorMode::kRgb && in(p.red(), q.red(), x.red()) && in(p.green(), q.green(), x.green()) && in(p.blue(), q.blue(), x.blue()) && (!alpha || in(p.alpha(), q.alpha(), x.alpha())), key, what << " of " << show(a) << " and " << show(b) << " is " << show(x));
}
VH_WORKLOAD(mixing, 20000, 400000)
{
   Rng& r = c.r;
   Color a = any(r), b = any(r), ar, br;
   ar = a;
   ar.toRgb();
   br = b;
   br.toRgb();
   // Interpolation
   float t = r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : (float)r.unit();
   Color x = interpolate(a, b, t);
   between(a, b, x, "interpolate-range", "interpolation " + std::to_string(t), true);
   if(t == 0)VH_CHECK(x == ar, "interpolate-begin", "interpolation 0 of " << show(a) << " and " << show(b) << " is " << show(x));
   if(t == 1)VH_CHECK(x == br, "interpolate-end", "interpolation 1 of " << show(a) << " and " << show(b) << " is " << show(x));
   auto lin = [&](int p, int q) { return p + (double)(q - p) * t; };
   VH_CHECK(close(x.red(), lin(ar.red(), br.red())) && close(x.green(), lin(ar.green(), br.green())) && close(x.blue(), lin(ar.blue(), br.blue())) && close(x.alpha(), lin(a.alpha(), b.alpha())), "interpolate", "interpolation " << t << " of " << show(a) << " and " << show(b) << " is " << show(x));
   count("interpolations");
   // Opaque colours: every factor
   Color oa = a, ob = b;
   oa.setAlpha(255);
   ob.setAlpha(255);
   Color ra = oa, rb = ob;
   ra.toRgb();
   rb.toRgb();
   for(int f = 0; f < 256; f += r.chance(0.5) ? 1 : 15)
   {
      x = blend(oa, ob, (uint8)f);
      between(oa, ob, x, "blend-range", "blending " + std::to_string(f), true);
      auto mixd = [&](int p, int q) { return p + (q - p) * f / 255.0; };
      VH_CHECK(close(x.red(), mixd(ra.red(), rb.red())) && close(x.green(), mixd(ra.green(), rb.green())) && close(x.blue(), mixd(ra.blue(), rb.blue())), "blend", "blending " << f << " of " << show(oa) << " and " << show(ob) << " is " << show(x));
      count("blends");
   }
   x = blend(oa, ob, 0);
   VH_CHECK(x == ra, "blend-begin", "blending 0 of " << show(oa) << " and " << show(ob) << " is " << show(x));
   x = blend(oa, ob, 255);
   VH_CHECK(x == rb, "blend-end", "blending 255 of " << show(oa) << " and " << show(ob) << " is " << show(x));
   distinct(mix(hashStr(show(a)), hashStr(show(b))));
}
VH_WORKLOAD(transparent, 256, 5120)   // one background alpha per case, all foreground alphas
{
   Rng& r = c.r;
   int ab = (int)(c.index % 256);
   for(int af = 0; af < 256; af++)
   {
      if(ab == 255 && af == 255)continue;
      Color b = any(r), f = any(r);
      b.setAlpha((uint8)ab);
      f.setAlpha((uint8)af);
      Color x = blend(b, f, 255), br = b, fr = f;
      br.toRgb();
      fr.toRgb();
      double A = af / 255.0, B = ab / 255.0, C = A + (1 - A) * B;
      VH_CHECK(close(x.alpha(), C * 255), "over-alpha", show(f) << " over " << show(b) << " is " << show(x));
      if(af == 0 && ab == 0)continue;
      between(b, f, x, "over-range", "Porter-Duff blending", false);
      auto over = [&](int p, int q) { return (A * q + (1 - A) * B * p) / C; };
      VH_CHECK(close(x.red(), over(br.red(), fr.red())) && close(x.green(), over(br.green(), fr.green())) && close(x.blue(), over(br.blue(), fr.blue())), "over", show(f) << " over " << show(b) << " is " << show(x));
      if(af == 255)VH_CHECK(x == fr, "over-opaque", show(f) << " over " << show(b) << " is " << show(x));
      if(af == 0)VH_CHECK(x == br, "over-nothing", show(f) << " over " << show(b) << " is " << show(x));
      count("transparent-blends");
   }
   distinct((uint64_t)ab);
}
VH_REQUIRE("rgb-colours", "greys-as-rgb", "greys", "cmyk-colours", "different", "equal", "interpolations", "blends", "transparent-blends")
VH_DRIVER("P36", "every component within one step of the exact formula, greys and ends exact")
