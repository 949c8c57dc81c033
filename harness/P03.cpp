// P03: numbers to text and back.
// VH-TECH: independent number formatting/parsing oracle over boundary, random and exhaustive small values, under ASan+UBSan
#include "vh.hpp"
#include <cinttypes>
using namespace vh;
using jm::String;
using jm::Integer;
using jm::Char;
static U asc(const std::string& s)
{
   return U(s.begin(), s.end());
}
static std::string lat(const String& s)
{
   std::string o;
   for(char16_t c : rd(s))o += c < 256 ? (char)c : '?';
   return o;
}
static int64_t interesting(Rng& r)
{
   switch(r.below(8))
   {
      case 0: return r.pick<int64_t>({INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 0, 1, -1, INT32_MIN, INT32_MAX, (int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 1});
      case 1:
      {
         int64_t p = 1;
         int k = (int)r.range(0, 18);
         while(k--)p *= 10;
         return (r.chance(0.5) ? -1 : 1) * (p + r.range(-2, 2));
      }
      case 2: return (r.chance(0.5) ? -1 : 1) * (int64_t)((1ull << r.range(0, 62)) + (uint64_t)r.range(-1, 1));
      case 3: return r.range(-300, 300);
      default: return (int64_t)r.u64() >> r.below(64);
   }
}
static void integers(int64_t v)
{
   std::string want = std::to_string(v);
   String s = String::valueOf((int64)v);
   VH_CHECK(lat(s) == want, "valueOf-int64", "valueOf(" << v << ") = " << lat(s));
   VH_CHECK(s.toInt() == v, "toInt-roundtrip", want << " -> " << s.toInt());
   String t;
   t << (int64)v;
   VH_CHECK(lat(t) == want, "stream-int64", want << " got " << lat(t));
   VH_CHECK(lat(String("%1").arg((int64)v)) == want, "arg-int64", want);
   uint64_t u = (uint64_t)v;
   VH_CHECK(lat(String::valueOf((uint64)u)) == std::to_string(u), "valueOf-uint64", u << " got " << lat(String::valueOf((uint64)u)));
   VH_CHECK(lat(String("%1").arg((uint64)u)) == std::to_string(u), "arg-uint64", u);
   VH_CHECK(lat(String::valueOf((int32)v)) == std::to_string((int32_t)v), "valueOf-int32", v);
   VH_CHECK(lat(String::valueOf((uint32)v)) == std::to_string((uint32_t)v), "valueOf-uint32", v);
   VH_CHECK(lat(String("%1").arg((int32)v)) == std::to_string((int32_t)v), "arg-int32", v);
   VH_CHECK(lat(String("%1").arg((uint32)v)) == std::to_string((uint32_t)v), "arg-uint32", v);
   bool yes = v & 1;
   VH_CHECK(lat(String::valueOf(yes)) == (yes ? "true" : "false") && String::valueOf(yes).toBool() == yes, "valueOf-bool", yes);
   String all = "<";
   all << (int64)v << ' ' << (uint64)u << ' ' << (int32)v << ' ' << (uint32)v << Char('>');
   std::string wall = "<" + want + " " + std::to_string(u) + " " + std::to_string((int32_t)v) + " " + std::to_string((uint32_t)v) + ">";
   VH_CHECK(lat(all) == wall, "stream-integers", wall << " got " << lat(all));
   int64 lv = v;
   String pre = "a", l = lv + pre, q = pre + lv;
   VH_CHECK(lat(l) == want + "a" && lat(q) == "a" + want, "plus-int64", want << " got " << lat(l) << " and " << lat(q));
   char b[32];
   snprintf(b, sizeof b, "%" PRIX64, u);
   String h = Integer::toHexString(v);
   VH_CHECK(lat(h) == b, "toHexString", v << " got " << lat(h) << " expected " << b);
   VH_CHECK(Integer::fromHex(h) == v, "fromHex-roundtrip", b << " -> " << Integer::fromHex(h));
   VH_CHECK(Integer::fromHex(h.toLowerCase()) == v, "fromHex-lower", b);
   String padded = mk(u"xy") + h + mk(u"zz");
   VH_CHECK(Integer::fromHex(padded, 2, (uint32)h.size()) == v, "fromHex-range", b);
   VH_CHECK(Integer::digits(v) == want.size(), "digits", v << " -> " << (int)Integer::digits(v));
   count("integers");
   if(v < 0)count("negative");
}
// The program's locale writes numbers its own way; the library's number texts do not depend on it
struct Punct: std::numpunct<char>
{
   char do_decimal_point() const override { return ','; }
   char do_thousands_sep() const override { return '.'; }
   std::string do_grouping() const override { return "\3"; }
};
struct Foreign
{
   std::locale was;
   bool on;
   Foreign(bool o): on(o) { if(on)was = std::locale::global(std::locale(std::locale::classic(), new Punct)); }
   ~Foreign() { if(on)std::locale::global(was); }
};
VH_WORKLOAD(ints, 60000, 4000000)
{
   int64_t v = interesting(c.r);
   Foreign foreign(c.r.chance(0.05));
   integers(v);
   distinct((uint64_t)v);
   if(c.index < 3)sample("integer " + std::to_string(v));
}
VH_WORKLOAD(smallInts, 64, 1024)
{
   for(int64_t k = 0; k < 128; k++)
   {
      int64_t v = (int64_t)c.index * 128 + k;
      integers(v);
      integers(-v);
   }
}
VH_WORKLOAD(names, 64, 400)
{
   static const char* const HT[3][10] = {{"", "I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX"}, {"", "X", "XX", "XXX", "XL", "L", "LX", "LXX", "LXXX", "XC"}, {"", "C", "CC", "CCC", "CD", "D", "DC", "DCC", "DCCC", "CM"}};
   for(int64_t k = 0; k < 64; k++)
   {
      int64_t v = (int64_t)c.index * 64 + k;
      if(v > 0 && v < 4000)
      {
         std::string w = std::string((size_t)(v / 1000), 'M') + HT[2][v / 100 % 10] + HT[1][v / 10 % 10] + HT[0][v % 10];
         VH_CHECK(lat(Integer::toRomanString(v)) == w, "roman", v << " got " << lat(Integer::toRomanString(v)));
         count("roman");
      }
      int64_t x = c.index < 20 ? v : (int64_t)(c.r.u64() >> c.r.range(1, 62));
      std::string a;
      for(int64_t y = x; y > 0; y = (y - 1) / 26)a.insert(a.begin(), (char)('A' + (y - 1) % 26));
      VH_CHECK(lat(Integer::toLatinAlphabetString(x)) == a, "alphabet", x << " got " << lat(Integer::toLatinAlphabetString(x)) << " expected " << a);
   }
}
// arbitrary texts: exactly -?digits within range is an integer
VH_WORKLOAD(texts, 80000, 4000000)
{
   Rng& r = c.r;
   std::string t;
   switch(r.below(6))
   {
      case 0: t = std::to_string(interesting(r)); break;
      case 1: t = std::to_string(r.u64()); if(r.chance(0.5))t = "-" + t; break;
      case 2: t = (r.chance(0.5) ? "-" : "") + std::string((size_t)r.range(0, 25), '0') + std::to_string(r.u64() >> r.below(64)); break;
      case 3: { t = r.chance(0.5) ? "922337203685477580" : "-922337203685477580"; t += (char)('0' + r.below(10)); if(r.chance(0.2))t += (char)('0' + r.below(10)); break; }
      default: { int64_t n = r.range(0, 6); for(int64_t k = 0; k < n; k++)t += "0123456789-+ .,xeA"[r.below(18)]; }
   }
   if(r.chance(0.25) && t.size())t.insert(r.below(t.size() + 1), 1, "-+ 5.x/:"[r.below(8)]);
   U u = asc(t);
   if(r.chance(0.05))u.insert(u.begin() + (int64_t)r.below(u.size() + 1), (char16_t)r.pick<int>({0, 0xB2, 0x0660, 0xFF11, 0x130, 0x2212}));
   bool neg = u.size() && u[0] == '-';
   size_t p = neg;
   bool ok = p < u.size();
   __int128 v = 0;
   for(; p < u.size() && ok; p++)
   {
      if(u[p] < '0' || u[p] > '9')ok = false;
      else
      {
         v = v * 10 + (u[p] - '0');
         if(v > ((__int128)1 << 64))v = (__int128)1 << 64;
      }
   }
   if(neg)v = -v;
   if(v > INT64_MAX || v < INT64_MIN)ok = false;
   String s = mk(u);
   bool threw = false;
   int64 g = 0;
   try
   {
      g = s.toInt();
   }
   catch(jm::Exception&)
   {
      threw = true;
   }
   if(ok)VH_CHECK(!threw && g == (int64)v, "toInt", show(u) << (threw ? std::string(" threw") : " gave " + std::to_string(g)));
   else VH_CHECK(threw, "toInt-accepts", show(u) << " is no 64-bit integer but gave " << g);
   count(ok ? "accepted" : "rejected");
   distinct(hashU(u));
   if(c.index < 3)sample("text " + show(u));
}
static double dbl(Rng& r)
{
   double m;
   switch(r.below(6))
   {
      case 0: m = (double)r.range(0, 1000) / (double)r.pick<int>({1, 2, 4, 8, 10, 100, 1000, 3, 7}); break;
      case 1: m = r.unit(); break;
      case 2: m = r.unit() * std::pow(10.0, (double)r.range(-12, 14)); break;
      case 3: m = (double)r.range(0, 100000) - std::pow(10.0, (double)-r.range(1, 14)); break;
      case 4: m = (double)r.range(0, 100000) + std::pow(10.0, (double)-r.range(1, 14)); break;
      default: m = (double)(r.u64() >> r.range(11, 63)); break;
   }
   m = std::fabs(m);
   return r.chance(0.4) ? -m : m;
}
static void checkFixed(const std::string& t, double x, int64_t p, bool trunc, const char* how)
{
   size_t k = t.find(',');
   std::string body = t;
   if(k != std::string::npos)body[k] = '.';
   size_t b = body.size() && body[0] == '-';
   bool shape = b < body.size();
   size_t dots = 0;
   for(size_t q = b; q < body.size(); q++)
   {
      if(body[q] == '.')dots++;
      else if(body[q] < '0' || body[q] > '9')shape = false;
   }
   VH_CHECK(shape && dots <= 1 && k != 0, std::string("format-") + how, "value " << x << " precision " << p << " gave '" << t << "'");
   int64_t after = k == std::string::npos ? 0 : (int64_t)(t.size() - k - 1);
   if(trunc)VH_CHECK(after <= p && (after <= 1 || t.back() != '0'), std::string("trunc-") + how, "value " << x << " precision " << p << " gave '" << t << "'");
   else VH_CHECK(after == p || p == 0, std::string("digits-") + how, "value " << x << " precision " << p << " gave '" << t << "'");
   long double g = strtold(body.c_str(), nullptr);
   long double unit = powl(10.0L, -(long double)p);
   long double tol = unit * 0.5L + (long double)std::fabs(std::fmod(x, 1.0)) * 8.9e-16L + unit * 1e-6L;
   // whole and fractional part separately, so that the comparison itself does not round
   size_t dot = body.find('.');
   long double whole = strtold(body.substr(b, dot == std::string::npos ? std::string::npos : dot - b).c_str(), nullptr);
   long double frac = dot == std::string::npos ? 0 : strtold(("0" + body.substr(dot)).c_str(), nullptr);
   long double off = (whole - (long double)std::trunc(std::fabs(x))) + (frac - (long double)std::fmod(std::fabs(x), 1.0));
   VH_CHECK(fabsl(off) <= tol, std::string("value-") + how, "value " << x << " precision " << p << " gave '" << t << "', off by " << (double)off);
   VH_CHECK(!(g != 0 && (t[0] == '-') != (x < 0)), std::string("sign-") + how, "value " << x << " gave " << t);
   count(x < 0 ? "negDoubles" : "posDoubles");
}
VH_WORKLOAD(doubles, 60000, 3000000)
{
   Rng& r = c.r;
   Foreign foreign(r.chance(0.1));
   if(foreign.on)count("foreignLocale");
   double x = dbl(r);
   int64_t p = r.chance(0.8) ? r.range(0, 12) : r.range(13, 40);
   if(p > 17)count("longFractions");
   bool tr = r.chance(0.5);
   checkFixed(lat(String::valueOf(x, p, tr)), x, p, tr, "valueOf");
   if(p > 0)
   {
      std::string a = lat(String("%1").arg(x, 0, p));
      checkFixed(a, x, p, false, "arg");
   }
   checkFixed(lat(String("%1").arg(x)), x, 10, true, "argDefault");
   {
      // a field is filled up in front or behind, the number is the same
      int64 w = r.range(-30, 30), pr = r.chance(0.3) ? -1 : (int64)p;
      std::string plain = lat(String("%1").arg(x, 0, pr)), fill(w < 0 ? (size_t)std::max<int64>(0, -w - (int64)plain.size()) : (size_t)std::max<int64>(0, w - (int64)plain.size()), '#');
      std::string got = lat(String("<%1>").arg(x, w, pr, Char('#'))), want = "<" + (w < 0 ? plain + fill : fill + plain) + ">";
      VH_CHECK(got == want, "arg-field", got << " instead of " << want);
   }
   // ten significant digits
   String s = String::valueOf(x);
   std::string t = lat(s);
   long double g = strtold(t.c_str(), nullptr);
   long double tol = fabsl((long double)x) * 0.5e-9L * 1.0001L;
   VH_CHECK(fabsl(g - (long double)x) <= tol, "valueOf-double", "value " << x << " gave '" << t << "'");
   VH_CHECK(s.toDouble() == strtod(t.c_str(), nullptr), "toDouble", t << " -> " << s.toDouble());
   String st = "=";
   st << x;
   String pre = "=", l = x + pre, q = pre + x;
   VH_CHECK(lat(st) == "=" + t && lat(l) == t + "=" && lat(q) == "=" + t, "stream-double", t << " got " << lat(st) << ", " << lat(l) << ", " << lat(q));
   char b[64];
   snprintf(b, sizeof b, r.chance(0.5) ? "%.17g" : "%.6f", x);
   String full = mk(asc(b));
   VH_CHECK(full.toDouble() == strtod(b, nullptr), "toDouble", b << " -> " << full.toDouble());
   std::string comma = b;
   for(auto& ch : comma)if(ch == '.')ch = ',';
   VH_CHECK(jm::ConvertToDouble(mk(asc(comma))) == strtod(b, nullptr), "ConvertToDouble", comma);
   distinct(hashBytes(&x, 8) + (uint64_t)p);
   if(c.index < 2)sample("double " + t);
}
VH_REQUIRE("integers", "negative", "roman", "accepted", "rejected", "negDoubles", "posDoubles", "foreignLocale", "longFractions")
VH_DRIVER("P03", "boundary, power-of-ten/two and random 64-bit integers, small integers exhaustively, mutated number texts, doubles at digit boundaries; distinct = value or text")
