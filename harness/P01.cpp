// P01: String operations compared, after every step, with a plain 16-bit character sequence.
#include "vh.hpp"
#include <memory>
using namespace vh;
using jm::String;
using jm::Char;

static const char16_t ALPHA[] = {u'a', u'b', u'c', u'A', u'B', u'%', u'1', u'2', u'9', u'0', u' ', u'\t', u'\n', u'-', u',', 0x00C4, 0x00E4, 0x00DF, 0x20AC, 0x4E2D, 0xD83D, 0xDE00, 0xFFFF, 0xFEFF, 0, 0x80, 0xFF, 0x0100};

static U text(Rng& r, int64_t maxLen)
{
   int64_t n = r.chance(0.1) ? 0 : r.range(0, maxLen);
   if(r.chance(0.15))n = r.pick<int64_t>({15, 16, 17, 31, 32, 33, 47, 48, 64});
   int mode = (int)r.below(4);
   U u;
   for(int64_t i = 0; i < n; i++)
   {
      if(mode == 0)u += ALPHA[r.below(2)];                                     // very repetitive: overlapping matches
      else if(mode == 1)u += ALPHA[r.below(12)];
      else if(mode == 2)u += ALPHA[r.below(sizeof(ALPHA) / 2)];
      else u += (char16_t)r.below(0x10000);
   }
   return u;
}

static char16_t low(char16_t c)
{
   if(c >= 'A' && c <= 'Z')return (char16_t)(c + 32);
   if(c == 0xC4 || c == 0xD6 || c == 0xDC)return (char16_t)(c + 32);
   return c;
}
static char16_t upp(char16_t c)
{
   if(c >= 'a' && c <= 'z')return (char16_t)(c - 32);
   if(c == 0xE4 || c == 0xF6 || c == 0xFC)return (char16_t)(c - 32);
   return c;
}
// letters whose case mapping is defined by the standard but not promised by the library: either is fine
static bool caseOpen(char16_t c)
{
   return c >= 0x80;
}
static bool ws(char16_t c)
{
   return c == ' ' || c == '\r' || c == '\n' || c == '\t' || c == '\b' || c == '\f';
}
static U trimM(const U& u)
{
   size_t b = 0, e = u.size();
   while(b < e && ws(u[b]))b++;
   while(e > b && ws(u[e - 1]))e--;
   return u.substr(b, e - b);
}
static int64_t findM(const U& u, const U& n, int64_t from)
{
   if(from < 0)from = 0;
   if(from > (int64_t)u.size())return -1;
   size_t p = u.find(n, (size_t)from);
   return p == U::npos ? -1 : (int64_t)p;
}
static int64_t rfindM(const U& u, const U& n, int64_t from)
{
   if(from < 0)return -1;
   size_t p = u.rfind(n, (size_t)from);
   return p == U::npos ? -1 : (int64_t)p;
}
static U replM(const U& u, const U& o, const U& n)
{
   if(o.empty())return u;
   U r;
   size_t p = 0;
   for(;;)
   {
      size_t q = u.find(o, p);
      if(q == U::npos)break;
      r += u.substr(p, q - p);
      r += n;
      p = q + o.size();
   }
   return r + u.substr(p);
}
static U subM(const U& u, int64_t b, int64_t e)
{
   if(b < 0)b = 0;
   if(e > (int64_t)u.size())e = (int64_t)u.size();
   if(e <= b)return U();
   return u.substr((size_t)b, (size_t)(e - b));
}
static bool dig(char16_t c)
{
   return c >= '0' && c <= '9';
}
// place of the placeholder with the lowest number; leading zero after % is not specified
static bool slot(const U& u, size_t& b, size_t& e, bool& odd)
{
   int best = 1000;
   odd = false;
   for(size_t i = 0; i + 1 < u.size(); i++)
   {
      if(u[i] != '%' || !dig(u[i + 1]))continue;
      if(u[i + 1] == '0')odd = true;
      int n = u[i + 1] - '0';
      size_t l = 2;
      if(i + 2 < u.size() && dig(u[i + 2]))
      {
         n = n * 10 + u[i + 2] - '0';
         l = 3;
      }
      if(n < best)
      {
         best = n;
         b = i;
         e = i + l;
      }
   }
   return best < 1000;
}
static U asc(const std::string& s)
{
   return U(s.begin(), s.end());
}
static U pad(const U& v, int64_t w, char16_t f)
{
   int64_t k = (w < 0 ? -w : w) - (int64_t)v.size();
   U p;
   if(k > 0)p = U((size_t)k, f);
   return w >= 0 ? p + v : v + p;
}
// digit runs count as one number
static int fancyM(const U& a, const U& b)
{
   auto conv = [](const U & u)
   {
      std::vector<uint64_t> r;
      for(size_t i = 0; i < u.size();)
      {
         if(dig(u[i]))
         {
            uint64_t n = 0;
            while(i < u.size() && dig(u[i]))n = n * 10 + (u[i++] - '0');
            r.push_back(n);
         }
         else r.push_back(u[i++]);
      }
      return r;
   };
   auto x = conv(a), y = conv(b);
   return x < y ? -1 : y < x ? 1 : 0;
}
static bool fancyOk(const U& u)
{
   if(u.size() > 250)return false;
   int run = 0;
   for(char16_t c : u)
   {
      run = dig(c) ? run + 1 : 0;
      if(run > 19)return false;
   }
   return true;
}
static int sgn(int64_t x)
{
   return x < 0 ? -1 : x > 0;
}

struct Slot
{
   std::unique_ptr<String> s;
   U m;
};

static void same(const String& s, const U& m, const char* op, const std::string& ctx)
{
   VH_CHECK(s.size() == (int64)m.size(), std::string("size-") + op, "size " << s.size() << " expected " << m.size() << " after " << ctx);
   U g = rd(s);
   VH_CHECK(g == m, std::string("content-") + op, "got " << show(g) << " expected " << show(m) << " after " << ctx);
}

static void step(Rng& r, std::vector<Slot>& P, int64_t maxLen, std::string& trace)
{
   size_t i = r.below(P.size()), j = r.chance(0.25) ? i : r.below(P.size());
   String& s = *P[i].s;
   U& m = P[i].m;
   String& o = *P[j].s;
   U om = P[j].m;
   U before = m;
   int64_t n = (int64_t)m.size();
   auto idx = [&](int64_t slack) -> int64_t
   {
      switch(r.below(8))
      {
         case 0:
            return 0;
         case 1:
            return n;
         case 2:
            return n - 1;
         case 3:
            return r.pick<int64_t>({-1, -5, n + 1, n + 2, n + 17, INT64_MIN / 2, INT64_MAX / 2, INT32_MIN, INT32_MAX});
         default:
            return r.range(-slack, n + slack);
      }
   };
   char16_t c = r.chance(0.5) && n ? m[r.below((uint64_t)n)] : ALPHA[r.below(sizeof(ALPHA) / 2)];
   Char C((uint16)c);
   int op = (int)r.below(34);
   const char* name = "?";
   std::ostringstream ctx;
   bool threw = false;
   auto guarded = [&](auto f)
   {
      try
      {
         f();
      }
      catch(jm::Exception&)
      {
         threw = true;
      }
   };
   // a needle that occurs often
   auto needle = [&]() -> U
   {
      if(n && r.chance(0.7))
      {
         int64_t b = r.range(0, n - 1);
         U x = subM(m, b, b + r.range(1, r.chance(0.2) ? n : 4));
         if(r.chance(0.3))x += ALPHA[r.below(4)];
         return x;
      }
      return text(r, 4);
   };
   switch(op)
   {
      case 0:
         name = "append";
         if(m.size() + om.size() > 6000)return;
         s.append(o);
         m += om;
         break;
      case 1:
         name = "appendChar";
         s.append(C);
         m += c;
         break;
      case 2:
         name = "plus";
         if(m.size() + om.size() > 6000)return;
         if(r.chance(0.3))
         {
            s += o;
            m += om;
         }
         else if(r.chance(0.5))
         {
            s << o;
            m += om;
         }
         else if(r.chance(0.3))
         {
            // plain text and single bytes on either side
            std::string raw;
            for(int k = (int)r.below(12); k--;)raw += (char)r.range(1, 127);
            U w(raw.begin(), raw.end());
            const char* p = raw.c_str();
            same(s + p, m + w, name, "operator+ with plain text on the right");
            same(p + s, w + m, name, "operator+ with plain text on the left");
            const int8 b = (int8)r.range(0, 127);
            same(s + b, m + (char16_t)b, name, "operator+ with a byte on the right");
            same(b + s, U(1, (char16_t)b) + m, name, "operator+ with a byte on the left");
         }
         else
         {
            String t = s + o;
            same(t, m + om, name, "operator+");
            s = t;
            m += om;
         }
         break;
      case 3:
      {
         name = "insertChar";
         int64_t k = idx(1);
         ctx << k;
         guarded([&] { s.insert(k, C); });
         VH_CHECK(threw == (k < 0 || k > n), "range-insert", "insert(" << k << ") on size " << n << (threw ? " threw" : " accepted"));
         if(!threw)m.insert(m.begin() + k, c);
         break;
      }
      case 4:
      {
         name = "insert";
         if(m.size() + om.size() > 6000)return;
         int64_t k = idx(1);
         ctx << k << " self=" << (i == j);
         guarded([&] { s.insert(k, o); });
         VH_CHECK(threw == (k < 0 || k > n), "range-insert", "insert(" << k << ") on size " << n << (threw ? " threw" : " accepted"));
         if(!threw)m.insert((size_t)k, om);
         break;
      }
      case 5:
      {
         name = "deleteCharAt";
         int64_t k = idx(1);
         ctx << k;
         guarded([&] { s.deleteCharAt(k); });
         VH_CHECK(threw == (k < 0 || k >= n), "range-delete", "deleteCharAt(" << k << ") on size " << n << (threw ? " threw" : " accepted"));
         if(!threw)m.erase(m.begin() + k);
         break;
      }
      case 6:
      {
         name = "deleteCharRangeAt";
         int64_t k = idx(1), l = r.chance(0.7) ? r.range(0, 6) : r.pick<int64_t>({n, n + 1, n - k, n - k + 1, 1000000, (int64_t)1 << 40, INT64_MAX, -1, -k, INT64_MIN});
         ctx << k << "," << l;
         guarded([&] { s.deleteCharRangeAt(k, l); });
         VH_CHECK(threw == (k < 0 || k > n) || l <= 0 || k + (__int128)l > n, "range-delete", "deleteCharRangeAt(" << k << "," << l << ") on size " << n << (threw ? " threw" : " accepted"));
         if(k < 0 || k > n)VH_CHECK(threw || l <= 0, "range-delete", "deleteCharRangeAt(" << k << "," << l << ") accepted on size " << n);
         if(!threw && k >= 0 && k <= n)m.erase((size_t)k, (size_t)std::max<int64_t>(0, std::min<int64_t>(l, n - k)));
         break;
      }
      case 7:
      {
         name = "setCharAt";
         int64_t k = idx(1);
         ctx << k;
         guarded([&] { s.setCharAt(k, C); });
         VH_CHECK(threw == (k < 0 || k >= n), "range-set", "setCharAt(" << k << ") on size " << n << (threw ? " threw" : " accepted"));
         if(!threw)m[(size_t)k] = c;
         break;
      }
      case 8:
         name = "clear";
         if(r.chance(0.5))s.clear();
         else s.zero();
         m.clear();
         break;
      case 9:
         name = "assign";
         s = o;
         m = om;
         break;
      case 10:
         name = "copy";
         P[i].s = std::make_unique<String>(o);
         m = om;
         break;
      case 11:
         name = "checkCapacity";
         s.checkCapacity(r.range(0, 100));
         break;
      case 12:
      {
         name = "substring";
         int64_t b = idx(3), e = idx(3);
         ctx << b << "," << e;
         String t = r.chance(0.3) ? (e = n, s.substring(b)) : s.substring(b, e);
         same(t, subM(m, b, e), name, ctx.str());
         if(r.chance(0.3))
         {
            s = t;
            m = subM(m, b, e);
         }
         break;
      }
      case 13:
      {
         name = "trim";
         String t = s.trim();
         same(t, trimM(m), name, show(m));
         if(r.chance(0.2))
         {
            m = trimM(m);
            s = t;
         }
         break;
      }
      case 14:
      {
         name = "replaceChar";
         char16_t d = ALPHA[r.below(sizeof(ALPHA) / 2)];
         String t = s.replace(C, Char((uint16)d));
         U x = m;
         std::replace(x.begin(), x.end(), c, d);
         same(t, x, name, show(m));
         if(r.chance(0.5))
         {
            s = t;
            m = x;
         }
         break;
      }
      case 15:
      case 16:
      {
         name = "replace";
         U a = needle(), b = text(r, 5);
         if(r.chance(0.1))b = a + b;
         if(r.chance(0.05))a.clear();
         String t = s.replace(mk(a), mk(b));
         U x = replM(m, a, b);
         same(t, x, name, "replace(" + show(a) + "," + show(b) + ") in " + show(m));
         count("replaced", x != m);
         if(r.chance(0.3) && x.size() < 4000)
         {
            s = t;
            m = x;
         }
         break;
      }
      case 17:
      {
         name = "reverse";
         String t = s.reverse();
         U x(m.rbegin(), m.rend());
         same(t, x, name, show(m));
         s = t;
         m = x;
         break;
      }
      case 18:
      {
         name = "case";
         bool up = r.chance(0.5);
         String t = up ? s.toUpperCase() : s.toLowerCase();
         U g = rd(t);
         VH_CHECK(g.size() == m.size(), "case", "size changed");
         for(size_t k = 0; k < g.size(); k++)
         {
            char16_t want = up ? upp(m[k]) : low(m[k]);
            if(caseOpen(m[k]) && want == m[k])want = g[k];
            VH_CHECK(g[k] == want, "content-case", (up ? "toUpperCase " : "toLowerCase ") << show(m) << " gave " << show(g));
         }
         if(r.chance(0.3))
         {
            s = t;
            m = g;
         }
         break;
      }
      case 19:
      {
         name = "indexOfChar";
         int64_t f = idx(3);
         int64 g = s.indexOf(C, f), g0 = s.indexOf(C);
         VH_CHECK(g0 == findM(m, U(1, c), 0), "indexOfChar", "indexOf(" << c << ")=" << g0 << " in " << show(m));
         VH_CHECK(g == findM(m, U(1, c), f), "indexOfChar", "indexOf(" << c << "," << f << ")=" << g << " in " << show(m));
         break;
      }
      case 20:
      case 21:
      {
         name = "indexOf";
         U x = needle();
         if(x.empty())return;
         int64_t f = idx(3);
         String X = mk(x);
         int64 g0 = s.indexOf(X), g = s.indexOf(X, f);
         VH_CHECK(g0 == findM(m, x, 0), "indexOf", "indexOf(" << show(x) << ")=" << g0 << " in " << show(m));
         VH_CHECK(g == findM(m, x, f), "indexOf", "indexOf(" << show(x) << "," << f << ")=" << g << " in " << show(m));
         count("found", g0 >= 0);
         break;
      }
      case 22:
      {
         name = "lastIndexOfChar";
         int64_t f = idx(3);
         int64 g0 = s.lastIndexOf(C);
         VH_CHECK(g0 == rfindM(m, U(1, c), INT64_MAX / 4), "lastIndexOfChar", "lastIndexOf(" << c << ")=" << g0 << " in " << show(m));
         int64 g = -2;
         guarded([&] { g = s.lastIndexOf(C, f); });
         bool inr = f >= 0 && f < n;
         if(inr)VH_CHECK(!threw, "lastIndexOfChar", "lastIndexOf(" << c << "," << f << ") threw, size " << n);
         if(!threw)
         {
            int64_t want = rfindM(m, U(1, c), f < 0 ? -1 : f), clamp = rfindM(m, U(1, c), f < 0 ? 0 : f);
            VH_CHECK(g == want || (f < 0 && g == clamp), "lastIndexOfChar", "lastIndexOf(" << c << "," << f << ")=" << g << " in " << show(m));
         }
         break;
      }
      case 23:
      {
         name = "lastIndexOf";
         U x = needle();
         if(x.empty())return;
         int64_t f = idx(3);
         String X = mk(x);
         int64 g0 = s.lastIndexOf(X);
         VH_CHECK(g0 == rfindM(m, x, INT64_MAX / 4), "lastIndexOf", "lastIndexOf(" << show(x) << ")=" << g0 << " in " << show(m));
         int64 g = s.lastIndexOf(X, f);
         VH_CHECK(g == rfindM(m, x, f) || (f < 0 && g == rfindM(m, x, 0)), "lastIndexOf", "lastIndexOf(" << show(x) << "," << f << ")=" << g << " in " << show(m));
         break;
      }
      case 24:
      {
         name = "startsEnds";
         U x = r.chance(0.4) ? subM(m, 0, r.range(0, n)) : r.chance(0.5) ? subM(m, n - r.range(0, n), n) : needle();
         if(x.size() && r.chance(0.3))x[r.below(x.size())] ^= 1;
         String X = mk(x);
         bool a = s.startsWith(X), b = s.endsWith(X);
         bool wa = x.size() <= m.size() && m.compare(0, x.size(), x) == 0;
         bool wb = x.size() <= m.size() && m.compare(m.size() - x.size(), x.size(), x) == 0;
         VH_CHECK(a == wa, "startsWith", show(m) << " startsWith " << show(x) << " = " << a);
         VH_CHECK(b == wb, "endsWith", show(m) << " endsWith " << show(x) << " = " << b);
         break;
      }
      case 25:
      {
         name = "atIs";
         int64_t p = idx(2);
         U x = r.chance(0.7) ? subM(m, p, p > INT64_MAX / 4 ? p : p + r.range(0, 5)) : needle();
         U y = x;
         for(auto& ch : y)if(r.chance(0.3) && ch < 0x80)ch = r.chance(0.5) ? upp(ch) : low(ch);
         bool fits = p >= 0 && p <= n && (int64_t)x.size() <= n - p;
         bool want = fits && m.compare((size_t)p, x.size(), x) == 0;
         String X = mk(x), Y = mk(y);
         VH_CHECK(s.atIs(p, X) == want, "atIs", show(m) << " atIs(" << p << "," << show(x) << ") expected " << want);
         bool wantI = fits, open = false;
         if(fits)for(size_t k = 0; k < y.size(); k++)
            {
               char16_t q = m[(size_t)p + k];
               if(low(q) != low(y[k]))
               {
                  if(caseOpen(q) && caseOpen(y[k]))open = true;
                  else wantI = false;
               }
            }
         if(!(open && wantI))VH_CHECK(s.atIsIgnoreCase(p, Y) == wantI, "atIsIgnoreCase", show(m) << " atIsIgnoreCase(" << p << "," << show(y) << ") expected " << wantI);
         else s.atIsIgnoreCase(p, Y);
         break;
      }
      case 26:
      {
         name = "count";
         int64 g = s.count(C);
         VH_CHECK(g == (int64)std::count(m.begin(), m.end(), c), "count", "count(" << c << ")=" << g << " in " << show(m));
         break;
      }
      case 27:
      case 28:
      {
         name = "compare";
         U x = r.chance(0.3) ? om : m;
         if(r.chance(0.6) && x.size())x[r.below(x.size())] ^= (char16_t)(1 << r.below(16));
         if(r.chance(0.3))x += u'a';
         else if(r.chance(0.3) && x.size())x.pop_back();
         String X = mk(x);
         int w = m < x ? -1 : x < m ? 1 : 0;
         VH_CHECK(sgn(s.compareTo(X)) == w, "compareTo", show(m) << " compareTo " << show(x) << " = " << s.compareTo(X));
         VH_CHECK(s.equals(X) == (w == 0) && (s == X) == (w == 0) && (s != X) == (w != 0), "equals", show(m) << " equals " << show(x));
         VH_CHECK(s.equals((const jm::Object*)&X) == (w == 0), "equalsObject", show(m) << " equals " << show(x));
         VH_CHECK((s < X) == (w < 0), "less", show(m) << " < " << show(x));
         if(r.chance(0.3))
         {
            // numbers of up to 19 digits that differ little, in the same surroundings
            U n1, n2, pre(r.below(3), u'a' + (char16_t)r.below(3));
            for(int k = (int)r.range(1, 19); k--;)n1 += (char16_t)('0' + r.below(10));
            n2 = n1;
            if(r.chance(0.4))n2[r.below(n2.size())] = (char16_t)('0' + r.below(10));
            if(r.chance(0.3))n2.insert(0, r.below((uint64_t)(20 - n2.size())), u'0');
            if(r.chance(0.3) && n2.size() < 19)n2 += (char16_t)('0' + r.below(10));
            if(r.chance(0.2) && n2.size() > 1)n2.erase(0, 1);
            U a = pre + n1 + (r.chance(0.3) ? u"b" : u""), b = pre + n2 + (r.chance(0.3) ? u"c" : u"");
            int g = sgn(mk(a).compareFancyTo(mk(b)));
            VH_CHECK(g == fancyM(a, b), "compareFancyTo", show(a) << " compareFancyTo " << show(b) << " = " << g);
            count("fancyNumbers");
         }
         if(fancyOk(m) && fancyOk(x))
         {
            VH_CHECK(sgn(s.compareFancyTo(X)) == fancyM(m, x), "compareFancyTo", show(m) << " compareFancyTo " << show(x) << " = " << s.compareFancyTo(X));
            count("fancy");
         }
         U y = m;
         for(auto& ch : y)if(r.chance(0.4) && ch < 0x80)ch = r.chance(0.5) ? upp(ch) : low(ch);
         if(r.chance(0.3) && y.size())y[r.below(y.size())] = u'#';
         bool wi = true;
         for(size_t k = 0; k < y.size(); k++)if(low(y[k]) != low(m[k]))wi = false;
         VH_CHECK(s.equalsIgnoreCase(mk(y)) == wi, "equalsIgnoreCase", show(m) << " equalsIgnoreCase " << show(y) << " expected " << wi);
         break;
      }
      case 29:
      {
         name = "charAt";
         int64_t k = idx(2);
         char16_t g = 0;
         guarded([&] { g = (char16_t)s.charAt(k).unicode(); });
         VH_CHECK(threw == (k < 0 || k >= n), "range-charAt", "charAt(" << k << ") on size " << n << (threw ? " threw" : " returned"));
         if(!threw)VH_CHECK(g == m[(size_t)k], "charAt", "charAt(" << k << ")");
         break;
      }
      case 30:
      {
         name = "toWString";
         uint16* w = s.toWString();
         U g((char16_t*)w, m.size());
         bool z = w[m.size()] == 0;
         delete[] w;
         VH_CHECK(g == m && z, "toWString", show(g) << " expected " << show(m));
         VH_CHECK(s.isEmpty() == m.empty(), "isEmpty", n);
         break;
      }
      default: // arg
      {
         name = "arg";
         U f = r.chance(0.5) ? m.substr(0, 40) : U();
         if(!r.chance(0.1))
         {
            int k = (int)r.range(0, 3);
            for(int q = 0; q < k; q++)
            {
               f += asc("%" + std::to_string(r.chance(0.8) ? r.range(1, 12) : r.range(1, 99)));
               if(!r.chance(0.2))f += r.chance(0.5) ? u'x' : u'%';
            }
         }
         if(r.chance(0.1))f += u'%';
         size_t b = 0, e = 0;
         bool odd, has = slot(f, b, e, odd);
         if(odd)return;
         int64_t w = r.chance(0.5) ? 0 : r.chance(0.03) ? r.range(-3000, 3000) : r.chance(0.002) ? r.range(-70000, 70000) : r.range(-12, 12);
         char16_t fc = r.chance(0.5) ? u' ' : u'*';
         Char FC((uint16)fc);
         U v;
         String F = mk(f), R;
         bool sel = false;
         switch(r.below(6))
         {
            case 0:
               v = r.chance(0.2) ? f : om.substr(0, 30);
               if(v == f && r.chance(0.5))
               {
                  R = F.arg(F, w, FC);
                  sel = true;
               }
               else R = F.arg(mk(v), w, FC);
               break;
            case 1:
            {
               int64_t q = r.chance(0.3) ? r.pick<int64_t>({0, -1, INT64_MAX, INT64_MIN, 10, -10}) : (int64_t)(r.u64() >> r.below(64));
               v = asc(std::to_string(q));
               R = F.arg((int64)q, w, FC);
               break;
            }
            case 2:
            {
               uint64_t q = r.chance(0.3) ? UINT64_MAX - r.below(3) : r.u64() >> r.below(64);
               v = asc(std::to_string(q));
               R = F.arg((uint64)q, w, FC);
               break;
            }
            case 3:
            {
               int32_t q = (int32_t)(r.u64());
               v = asc(std::to_string(q));
               R = F.arg((int32)q, w, FC);
               break;
            }
            case 4:
            {
               uint32_t q = (uint32_t)(r.u64());
               v = asc(std::to_string(q));
               R = F.arg((uint32)q, w, FC);
               break;
            }
            default:
               v = U(1, c);
               R = F.arg(C, w, FC);
         }
         (void)sel;
         U want = has ? f.substr(0, b) + pad(v, w, fc) + f.substr(e) : f;
         same(R, want, "arg", show(f) + ".arg(" + show(v) + "," + std::to_string(w) + ")");
         same(F, f, "arg-source", show(f));
         count("arg", has);
         break;
      }
   }
   ctx << " on " << show(before) << " other " << (i == j ? "self" : show(om));
   trace += std::string(" ") + name;
   count(std::string("op:") + name);
   count("rejected", threw);
   if(threw)m = before;
   for(size_t k = 0; k < P.size(); k++)same(*P[k].s, P[k].m, k == i ? name : (std::string("bystander-") + name).c_str(), name + (" " + ctx.str()));
}

static void history(Case& c, int steps, int64_t maxLen)
{
   Rng& r = c.r;
   std::vector<Slot> P(3);
   uint64_t h = 0;
   for(auto& p : P)
   {
      p.m = text(r, maxLen);
      p.s = std::make_unique<String>(mk(p.m));
      h ^= mix(hashU(p.m) + h);
   }
   std::string trace;
   for(int k = 0; k < steps; k++)
   {
      step(r, P, maxLen, trace);
      beat();
   }
   distinct(hashStr(trace) ^ h);
   if(c.index < 3)sample("ops:" + trace + " -> " + show(P[0].m));
}

VH_WORKLOAD(shortHistories, 24000, 400000)
{
   history(c, 24, 20);
}
VH_WORKLOAD(longHistories, 160, 6000)
{
   history(c, 120, 700);
}
VH_WORKLOAD(hugeHistories, 240, 4000)
{
   history(c, 16, borderLength(c.r, thorough() ? 18 : 16));
   count("huge");
}
// all pairs of short texts over a two-letter alphabet: searching, replacing, comparing exhaustively
VH_WORKLOAD(exhaustiveSmall, 127, 127)
{
   auto nth = [](uint64_t k)
   {
      U u;
      k++;
      while(k > 1)
      {
         u += (k & 1) ? u'b' : u'a';
         k >>= 1;
      }
      return u;
   };
   U a = nth(c.index);
   String A = mk(a);
   for(uint64_t q = 0; q < 31; q++)
   {
      U b = nth(q);
      String B = mk(b);
      if(b.size())
      {
         for(int64_t f = -1; f <= (int64_t)a.size() + 1; f++)
         {
            VH_CHECK(A.indexOf(B, f) == findM(a, b, f), "indexOf", show(a) << " indexOf " << show(b) << " from " << f << " = " << A.indexOf(B, f));
            if(f >= 0)VH_CHECK(A.lastIndexOf(B, f) == rfindM(a, b, f), "lastIndexOf", show(a) << " lastIndexOf " << show(b) << " from " << f << " = " << A.lastIndexOf(B, f));
         }
         for(const U& n :
               {
                  U(), U(u"a"), U(u"b"), U(u"ab"), b + b
               })
         {
            VH_CHECK(rd(A.replace(B, mk(n))) == replM(a, b, n), "replace", show(a) << " " << show(b) << "->" << show(n));
         }
      }
      VH_CHECK(sgn(A.compareTo(B)) == (a < b ? -1 : b < a ? 1 : 0), "compareTo", show(a) << show(b));
      for(int64_t p = -1; p <= (int64_t)a.size() + 1; p++)
      {
         bool want = p >= 0 && p + (int64_t)b.size() <= (int64_t)a.size() && a.compare((size_t)p, b.size(), b) == 0;
         VH_CHECK(A.atIs(p, B) == want, "atIs", show(a) << p << show(b));
      }
      distinct(hashU(a) * 31 + hashU(b));
   }
   count("exhaustive");
}
// searching in long texts, with matches at the very begin, at the very end and at block borders
VH_WORKLOAD(longSearch, 400, 10000)
{
   Rng& r = c.r;
   int64_t n = borderLength(r, thorough() ? 18 : 17);
   U m((size_t)n, u'a');
   for(int64_t k = r.range(0, 60); k--;)m[r.below((uint64_t)n)] = (char16_t)('a' + r.below(3));
   U x;
   for(int64_t k = r.chance(0.1) ? r.range(1, std::min<int64_t>(n, 400)) : r.range(1, 5); k--;)x += (char16_t)('a' + r.below(3));
   if(x.find_first_not_of(u'a') == U::npos)x.back() = u'b';
   int64_t l = (int64_t)x.size();
   if(l < n)
      for(int k = (int)r.below(4); k--;)
      {
         int64_t at = r.chance(0.3) ? n - l : r.chance(0.3) ? 0 : r.chance(0.3) ? std::min(n - l, ((int64_t)1 << r.range(3, 16)) + r.range(-3, 3)) : r.range(0, n - l);
         if(at >= 0)m.replace((size_t)at, x.size(), x);
      }
   String s = mk(m), X = mk(x);
   std::string what = std::to_string(n) + " characters, needle " + show(x.substr(0, 10)) + " of " + std::to_string(l);
   VH_CHECK(s.size() == n, "long-size", what);
   VH_CHECK(s.indexOf(X) == findM(m, x, 0), "long-indexOf", what << ": " << s.indexOf(X) << " want " << findM(m, x, 0));
   VH_CHECK(s.lastIndexOf(X) == rfindM(m, x, n), "long-lastIndexOf", what << ": " << s.lastIndexOf(X) << " want " << rfindM(m, x, n));
   for(int k = 0; k < 12; k++)
   {
      int64_t hit = findM(m, x, r.range(0, n)), f = r.chance(0.3) ? r.range(0, n) : r.chance(0.4) ? n - l + r.range(-1, 1) : (hit < 0 ? 0 : hit) + r.range(-1, 1);
      if(f < 0)f = 0;
      VH_CHECK(s.indexOf(X, f) == findM(m, x, f), "long-indexOf", what << " from " << f << ": " << s.indexOf(X, f) << " want " << findM(m, x, f));
      VH_CHECK(s.lastIndexOf(X, f) == rfindM(m, x, f), "long-lastIndexOf", what << " from " << f << ": " << s.lastIndexOf(X, f) << " want " << rfindM(m, x, f));
      if(f < n)
      {
         Char C((uint16)x.back());
         U y(1, x.back());
         VH_CHECK(s.indexOf(C, f) == findM(m, y, f) && s.lastIndexOf(C, f) == rfindM(m, y, f), "long-indexOfChar", what << " from " << f << ": " << s.indexOf(C, f) << " and " << s.lastIndexOf(C, f));
         VH_CHECK(s.charAt(f).unicode() == m[(size_t)f], "long-charAt", what << " at " << f);
         int64_t e = r.chance(0.3) ? n : r.range(f, n);
         same(s.substring(f, e), subM(m, f, e), "long-substring", what);
      }
   }
   VH_CHECK(s.startsWith(X) == (m.compare(0, x.size(), x) == 0 && l <= n) && s.endsWith(X) == (l <= n && m.compare((size_t)(n - l), x.size(), x) == 0), "long-ends", what);
   same(s.replace(X, mk(U(u"<>"))), replM(m, x, u"<>"), "long-replace", what);
   U w = m;
   std::replace(w.begin(), w.end(), u'b', u'y');
   same(s.replace(Char('b'), Char('y')), w, "long-replaceChar", what);
   same(s, m, "long-unchanged", what);
   distinct(hashU(m) ^ hashU(x));
   count("longSearch");
}
VH_REQUIRE("longSearch", "huge", "op:append", "op:insert", "op:deleteCharRangeAt", "op:replace", "op:arg", "op:compare", "op:lastIndexOf", "op:atIs", "rejected", "found", "replaced", "arg", "fancy", "fancyNumbers", "exhaustive")
VH_DRIVER("P01", "random histories of ~35 String operations over 3 aliased strings, alphabets tuned for overlapping matches, boundary indices; distinct = operation trace and initial contents; after every step all strings are compared with std::u16string")
