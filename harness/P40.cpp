// P40: character classes and letter case.
// VH-TECH: all 65536 code units against glibc's Unicode character classes and case mapping (Latin-1) and the published digit and white-space sets; letter case and trimming of whole texts and case-insensitive comparison of pairs against the per-character tables; ASan+UBSan
#include "vh.hpp"
#include <locale.h>
#include <wctype.h>
using namespace vh;
using namespace jm;
static locale_t L;
// The letters the library knows are those of Basic Latin and Latin-1, without the signs that only look like letters
static bool sign(unsigned c) { return c == 0xAA || c == 0xB5 || c == 0xBA; }
static bool low(unsigned c) { return c < 0x100 && !sign(c) && iswlower_l((wint_t)c, L); }
static bool up(unsigned c) { return c < 0x100 && !sign(c) && iswupper_l((wint_t)c, L); }
static unsigned toUp(unsigned c) { if(!low(c))return c; unsigned u = (unsigned)towupper_l((wint_t)c, L); return u < 0x100 ? u : c; }
static unsigned toLow(unsigned c) { return up(c) ? (unsigned)towlower_l((wint_t)c, L) : c; }
static bool white(unsigned c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\b'; }
static std::string nm(unsigned c) { char b[16]; snprintf(b, sizeof b, "U+%04X", c); return b; }
VH_WORKLOAD(all, 64, 64)
{
   for(unsigned c0 = (unsigned)c.index * 1024, i = 0; i < 1024; i++)
   {
      unsigned u = c0 + i;
      Char x((uint16)u);
      VH_CHECK(x.unicode() == u, "unicode", nm(u));
      VH_CHECK(x.isUpperCase() == up(u), "upper", nm(u) << " upper case: " << x.isUpperCase());
      VH_CHECK(x.isLowerCase() == low(u), "lower", nm(u) << " lower case: " << x.isLowerCase());
      VH_CHECK(x.isLetter() == (up(u) || low(u)), "letter", nm(u) << " letter: " << x.isLetter());
      bool d = u >= '0' && u <= '9';
      VH_CHECK(x.isDigit() == d, "digit", nm(u) << " digit: " << x.isDigit());
      VH_CHECK(x.digitValue() == (d ? (int)u - '0' : -1), "digit-value", nm(u) << " has value " << x.digitValue());
      VH_CHECK(x.isWhitespace() == white(u), "white", nm(u) << " white space: " << x.isWhitespace());
      VH_CHECK(x.toUpperCase().unicode() == toUp(u), "to-upper", nm(u) << " becomes " << nm(x.toUpperCase().unicode()));
      VH_CHECK(x.toLowerCase().unicode() == toLow(u), "to-lower", nm(u) << " becomes " << nm(x.toLowerCase().unicode()));
      VH_CHECK(x.unicode() == u, "changed", nm(u));
      unsigned v = i % 2 ? (unsigned)c.r.below(65536) : (u + (unsigned)c.r.range(-1, 1)) & 0xFFFF;
      Char y((uint16)v);
      VH_CHECK((x == y) == (u == v) && (x != y) == (u != v) && (x < y) == (u < v) && (x <= y) == (u <= v) && (x > y) == (u > v) && (x >= y) == (u >= v), "compare", nm(u) << " and " << nm(v));
      if(up(u))count("upper");
      if(low(u))count("lower");
      if(d)count("digits");
      if(white(u))count("white");
      count("characters");
      distinct(u);
   }
}
static char16_t pick(Rng& r)
{
   switch(r.below(6))
   {
      case 0: return (char16_t)r.range(0xA0, 0xFF);
      case 1: return (char16_t)r.below(0x80);
      case 2: return (char16_t)r.below(0x10000);
      case 3: return (char16_t)r.range('0', '9');
      case 4: { static const char16_t w[] = {' ', '\t', '\n', '\r', '\f', '\b', 0x0B, 0x85, 0xA0, 0x2003, 0x3000, 0xFEFF, 0}; return w[r.below(13)]; }
      default: return (char16_t)(r.chance(0.5) ? r.range('a', 'z') : r.range('A', 'Z'));
   }
}
VH_WORKLOAD(texts, 100000, 2000000)
{
   Rng& r = c.r;
   U u;
   int64_t n = r.chance(0.05) ? borderLength(r, 12) : r.chance(0.3) ? r.range(0, 3) : r.range(0, 60);
   for(int64_t i = 0; i < n; i++)u += pick(r);
   if(r.chance(0.3) && n)for(size_t k = r.below((uint64_t)n + 1); k--;)u[k] = pick(r) % 5 ? u" \t\n\r\f\b"[r.below(6)] : u[k];
   if(r.chance(0.3) && n)for(size_t k = r.below((uint64_t)n + 1); k--;)u[u.size() - 1 - k] = u" \t\n\r\f\b"[r.below(6)];
   jm::String s = mk(u);
   U a = u, b = u;
   for(auto& x : a)x = (char16_t)toUp(x);
   for(auto& x : b)x = (char16_t)toLow(x);
   if(r.chance(0.5))s.hashCode();
   jm::String su = s.toUpperCase(), sl = s.toLowerCase(), t = s.trim();
   VH_CHECK(rd(su) == a, "text-upper", show(u) << " becomes " << show(su));
   VH_CHECK(rd(sl) == b, "text-lower", show(u) << " becomes " << show(sl));
   size_t x = 0, y = u.size();
   while(x < y && white(u[x]))x++;
   while(y > x && white(u[y - 1]))y--;
   VH_CHECK(rd(t) == u.substr(x, y - x), "trim", show(u) << " trimmed is " << show(t));
   VH_CHECK(rd(s) == u, "text-changed", show(u) << " is now " << show(s));
   VH_CHECK(su.hashCode() == mk(a).hashCode() && sl.hashCode() == mk(b).hashCode(), "text-hash", show(u));
   VH_CHECK(rd(su.toUpperCase()) == a && rd(sl.toLowerCase()) == b, "twice", show(u));
   count("texts");
   if(x || y < u.size())count("trimmed");
   // case-insensitive comparison with a copy in mixed case and with a near miss
   U v = u;
   for(auto& z : v)if(r.chance(0.5))z = r.chance(0.5) ? (char16_t)toUp(z) : (char16_t)toLow(z);
   if(r.chance(0.5) && v.size())
   {
      size_t k = r.below(v.size());
      v[k] = r.chance(0.5) ? pick(r) : (char16_t)(v[k] ^ 0x20);
   }
   if(r.chance(0.1))v += pick(r);
   auto fold = [](U w) { for(auto& z : w)z = (char16_t)toLow(z); return w; };
   bool eq = fold(u) == fold(v);
   VH_CHECK(s.equalsIgnoreCase(mk(v)) == eq && mk(v).equalsIgnoreCase(s) == eq, "equals-ignore-case", show(u) << " and " << show(v) << " expected " << eq);
   count(eq ? "equal" : "different");
   if(u.size() && v.size())
   {
      size_t p = r.below(u.size()), m = 1 + r.below(std::min<size_t>(u.size() - p, 8));
      U part = u.substr(p, m);
      for(auto& z : part)if(r.chance(0.5))z = r.chance(0.5) ? (char16_t)toUp(z) : (char16_t)toLow(z);
      if(r.chance(0.3))part[r.below(m)] = pick(r);
      bool at = fold(u.substr(p, m)) == fold(part);
      VH_CHECK(s.atIsIgnoreCase((int64)p, mk(part)) == at, "at-ignore-case", show(part) << " at " << p << " of " << show(u) << " expected " << at);
      count(at ? "found" : "notFound");
   }
   distinct(hashU(u));
}
VH_REQUIRE("upper", "lower", "digits", "white", "texts", "trimmed", "equal", "different", "found", "notFound")
static void setupChars()
{
   L = newlocale(LC_CTYPE_MASK, "C.UTF-8", nullptr);
   if(!L) { fprintf(stderr, "no C.UTF-8 locale\n"); _exit(3); }
   defaultSetup();
}
VH_DRIVER2("P40", "every code unit once; classes and mappings equal glibc's for Latin-1, other letters unchanged", setupChars, noTeardown)
