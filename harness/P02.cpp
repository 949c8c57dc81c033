// P02: hash and order of Strings reached through different histories depend on content alone.
// VH-TECH: equal-content pairs built through different histories, order laws, reference order, under ASan+UBSan
#include "vh.hpp"
#include <memory>
using namespace vh;
using jm::String;
using jm::Char;
static const char16_t AL[] = {u'a', u'b', u'c', u'Z', u'0', u' ', 0xE4, 0x7FFF, 0x8000, 0xFFFF, 0x4E2D, 0, 1};
static U text(Rng& r, int64_t mx)
{
   U u;
   int64_t n = r.range(0, mx);
   bool wide = r.chance(0.4);
   for(int64_t i = 0; i < n; i++)u += wide ? (char16_t)r.below(65536) : AL[r.below(r.chance(0.5) ? 3 : sizeof(AL) / 2)];
   return u;
}
static int sgn(int64_t x)
{
   return x < 0 ? -1 : x > 0;
}
static void askHash(Rng& r, String& s)
{
   if(r.chance(0.6))
   {
      int64 a = s.hashCode();
      VH_CHECK(a == s.hashCode(), "hash-unstable", show(s) << " first " << a << " then " << s.hashCode());
      VH_CHECK(a == s.constHashCode(), "hash-const", show(s) << " hashCode " << a << " constHashCode " << s.constHashCode());
      count("hashAsked");
   }
   else if(r.chance(0.5))
   {
      int64 a = s.constHashCode();
      VH_CHECK(a == s.hashCode(), "hash-const", show(s) << " constHashCode " << a << " hashCode " << s.hashCode());
   }
}
static void check(String& s, const U& m, const char* how)
{
   U g = rd(s);
   VH_CHECK(g == m, std::string("content-") + how, show(g) << " expected " << show(m));
   String f = mk(m);
   int64 want = f.hashCode();
   int64 c = s.constHashCode();
   VH_CHECK(c == want, std::string("hash-") + how, "constHashCode of " << show(m) << " after " << how << " is " << c << ", a fresh equal text has " << want);
   VH_CHECK(s.equals(f) && f.equals(s) && s.compareTo(f) == 0 && s == f && !(s < f) && !(f < s), std::string("equal-") + how, show(m));
}
// hash queries interleaved with every kind of mutation
VH_WORKLOAD(histories, 24000, 600000)
{
   Rng& r = c.r;
   bool big = c.index % 100 == 0;
   String a = mk(text(r, big ? borderLength(r, 13) : 12)), b;
   U m = rd(a);
   if(big)count("long");
   std::string tr;
   for(int k = 0; k < 16; k++)
   {
      askHash(r, a);
      const char* how = "";
      U x = text(r, 6);
      String X = mk(x);
      askHash(r, X);
      int64_t n = (int64_t)m.size();
      int64_t i = r.range(0, n);
      char16_t ch = AL[r.below(sizeof(AL) / 2)], old = n ? m[r.below((uint64_t)n)] : u'a';
      switch(r.below(24))
      {
         case 0: how = "append"; a.append(X); m += x; break;
         case 1: how = "appendChar"; a.append(Char((uint16)ch)); m += ch; break;
         case 2: how = "plusAssign"; a += X; m += x; break;
         case 3: how = "insertChar"; a.insert(i, Char((uint16)ch)); m.insert(m.begin() + i, ch); break;
         case 4: how = "insert"; a.insert(i, X); m.insert((size_t)i, x); break;
         case 5: if(!n)continue; how = "deleteCharAt"; i = r.range(0, n - 1); a.deleteCharAt(i); m.erase((size_t)i, 1); break;
         case 6: { how = "deleteCharRangeAt"; int64_t l = r.range(0, n - i); a.deleteCharRangeAt(i, l); m.erase((size_t)i, (size_t)l); break; }
         case 7: if(!n)continue; how = "setCharAt"; i = r.range(0, n - 1); a.setCharAt(i, Char((uint16)ch)); m[(size_t)i] = ch; break;
         case 8: how = "clear"; a.clear(); m.clear(); break;
         case 9: how = "zero"; a.zero(); m.clear(); break;
         case 10: how = "assign"; a = X; m = x; break;
         case 11: how = "selfAssign"; { String& q = a; a = q; } break;
         case 12: how = "toLowerCase"; a = a.toLowerCase(); m = rd(a); break;
         case 13: how = "toUpperCase"; a = a.toUpperCase(); m = rd(a); break;
         case 14: how = "replaceChar"; a = a.replace(Char((uint16)old), Char((uint16)ch)); std::replace(m.begin(), m.end(), old, ch); break;
         case 15: how = "replace"; a = a.replace(mk(U(1, old)), X); m = rd(a); break;
         case 16: how = "reverse"; a = a.reverse(); std::reverse(m.begin(), m.end()); break;
         case 17: how = "trim"; a = a.trim(); m = rd(a); break;
         case 18: how = "substring"; a = a.substring(i); m = m.substr((size_t)i); break;
         case 19: how = "stream"; a << X; m += x; break;
         case 20: how = "streamInt"; { int64_t v = (int64_t)r.u64(); a << (int64)v; std::string d = std::to_string(v); m += U(d.begin(), d.end()); break; }
         case 21: how = "copy"; { String q(a); askHash(r, q); check(q, m, "copy"); a.append(Char((uint16)ch)); check(q, m, "copyOfChanged"); m += ch; break; }
         case 22: how = "concat"; a = a + X; m += x; break;
         case 23: how = "arg"; { String p = mk(m.substr(0, 0) + u"<%1>"); askHash(r, p); a = p.arg(X); m = u"<" + x + u">"; break; }
      }
      if(m.size() > 20000 || (m.size() > 200 && !big))
      {
         a = a.substring(0, 20);
         m = m.substr(0, 20);
      }
      tr += how;
      tr += ' ';
      count(std::string("after:") + how);
      check(a, m, how);
   }
   distinct(hashStr(tr) ^ hashU(m));
   if(c.index < 2)sample(tr + show(m));
}
// order laws on triples of related texts
VH_WORKLOAD(order, 40000, 2000000)
{
   Rng& r = c.r;
   U t[3];
   t[0] = text(r, 10);
   for(int k = 1; k < 3; k++)
   {
      t[k] = r.chance(0.15) ? text(r, 10) : t[r.below((uint64_t)k)];
      if(r.chance(0.5) && t[k].size())t[k][r.below(t[k].size())] = r.chance(0.5) ? (char16_t)r.below(65536) : AL[r.below(sizeof(AL) / 2)];
      if(r.chance(0.3))t[k] += AL[r.below(sizeof(AL) / 2)];
      if(r.chance(0.2) && t[k].size())t[k].pop_back();
      if(r.chance(0.1) && t[k].size())std::reverse(t[k].begin(), t[k].end());
   }
   String s[3] = {mk(t[0]), mk(t[1]), mk(t[2])};
   int cmp[3][3];
   for(int i = 0; i < 3; i++)for(int j = 0; j < 3; j++)
      {
         int g = cmp[i][j] = sgn(s[i].compareTo(s[j]));
         int w = t[i] < t[j] ? -1 : t[j] < t[i] ? 1 : 0;
         VH_CHECK(g == w, "compareTo", show(t[i]) << " compareTo " << show(t[j]) << " = " << g);
         VH_CHECK(s[i].equals(s[j]) == (w == 0), "equals", show(t[i]) << " equals " << show(t[j]));
         VH_CHECK((s[i] == s[j]) == (w == 0) && (s[i] != s[j]) == (w != 0), "operator==", show(t[i]) << show(t[j]));
         VH_CHECK((s[i] < s[j]) == (w < 0), "operator<", show(t[i]) << show(t[j]));
         VH_CHECK(s[i].equals((const jm::Object*)&s[j]) == (w == 0), "equals(Object)", show(t[i]) << show(t[j]));
         if(w == 0)VH_CHECK(s[i].hashCode() == s[j].constHashCode(), "hash-equal", show(t[i]));
         count(w == 0 ? "equalPairs" : "unequalPairs");
      }
   distinct(hashU(t[0]) * 3 + hashU(t[1]) * 5 + hashU(t[2]) * 7);
}
// long texts which differ in one place, or in length only
VH_WORKLOAD(longOrder, 300, 10000)
{
   Rng& r = c.r;
   int64_t n = borderLength(r, thorough() ? 19 : 17);
   U a((size_t)n, u'x'), b;
   for(int64_t k = 0; k < 40; k++)a[r.below((uint64_t)n)] = (char16_t)r.below(65536);
   b = a;
   switch(r.below(4))
   {
      case 0: break;
      case 1: b.pop_back(); break;
      case 2: b += (char16_t)r.below(3); break;
      default: b[r.chance(0.3) ? (uint64_t)n - 1 : r.below((uint64_t)n)] ^= (char16_t)(1u << r.below(16));
   }
   String s = mk(a), t;
   // t piece by piece
   for(size_t p = 0; p < b.size();)
   {
      size_t l = std::min(b.size() - p, (size_t)r.range(1, n / 3 + 1));
      t.append(mk(b.substr(p, l)));
      if(r.chance(0.2))t.hashCode();
      p += l;
   }
   int w = a < b ? -1 : b < a ? 1 : 0;
   VH_CHECK(sgn(s.compareTo(t)) == w && sgn(t.compareTo(s)) == -w, "compareTo-long", n << " characters, expected " << w << " got " << s.compareTo(t) << " and " << t.compareTo(s));
   VH_CHECK((s == t) == (w == 0) && s.equals(t) == (w == 0) && (s < t) == (w < 0), "equals-long", n << " characters, expected " << w);
   VH_CHECK(t.hashCode() == mk(b).hashCode() && t.constHashCode() == t.hashCode(), "hash-long", n);
   String copy(t);
   VH_CHECK(copy.hashCode() == mk(b).constHashCode(), "hash-long-copy", n);
   count("longPairs");
   distinct(hashU(a) + hashU(b));
}
// different texts with the same hash value, and texts whose lengths differ by 65536: never equal, ordered by content
VH_WORKLOAD(lookAlikes, 1500, 40000)
{
   Rng& r = c.r;
   U a = text(r, r.chance(0.2) ? 300 : 24), b;
   if(c.index % 25 == 0)
   {
      b = a;
      size_t n = r.chance(0.5) ? 65536 : r.chance(0.5) ? 256 : 32768;
      for(size_t i = 0; i < n; i++)b += a.empty() ? u'q' : a[i % a.size()];
      count("lengthsApart");
   }
   else
   {
      if(a.size() < 2)a = u"polyline";
      for(auto& ch : a)if(ch < 40)ch = (char16_t)(ch + 40);
      b = a;
      int n = (int)r.range(1, 4);
      while(n--)
      {
         // c * 31 + d stays the same
         size_t i = r.below(b.size() - 1);
         if(b[i] < 0xFFFF && b[i + 1] >= 31) { b[i]++; b[i + 1] = (char16_t)(b[i + 1] - 31); }
         else if(b[i] > 0 && b[i + 1] <= 0xFFFF - 31) { b[i]--; b[i + 1] = (char16_t)(b[i + 1] + 31); }
      }
   }
   String s = mk(a), t = mk(b);
   int asked = (int)r.below(4);
   if(asked & 1)s.hashCode();
   if(asked & 2)t.hashCode();
   if(a != b && s.constHashCode() == t.constHashCode())count("sameHash");
   int w = a < b ? -1 : b < a ? 1 : 0;
   VH_CHECK(s.equals(t) == (w == 0) && t.equals(s) == (w == 0) && (s == t) == (w == 0) && (s != t) == (w != 0) && s.equals((const jm::Object*)&t) == (w == 0), "equal-look-alike", show(a) << " and " << show(b));
   VH_CHECK(sgn(s.compareTo(t)) == w && (s < t) == (w < 0) && (t < s) == (w > 0), "order-look-alike", show(a) << " and " << show(b));
   distinct(hashU(a) * 3 + hashU(b));
}
VH_REQUIRE("lengthsApart", "long", "longPairs", "hashAsked", "equalPairs", "unequalPairs", "after:assign", "after:toLowerCase", "after:reverse", "after:replaceChar", "after:copy")
VH_DRIVER("P02", "histories of 16 edits with interleaved hash queries (distinct = edit trace and final content) and order laws on triples of related texts (distinct = contents)")
