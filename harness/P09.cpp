// P09: StringTokenizer, split and join against a reference partition.
// VH-TECH: generated and exhaustive small texts against a reference tokenizer, bounds and concatenation monitors, under ASan+UBSan
#include "vh.hpp"
#include <algorithm>
using namespace vh;
using jm::String;
using jm::Char;
using jm::StringTokenizer;
using jm::StringList;

static std::vector<U> reference(const U& t, const U& d, bool ret)
{
   std::vector<U> out;
   U cur;
   for(char16_t ch : t)
   {
      if(d.find(ch) == U::npos)
      {
         cur += ch;
         continue;
      }
      if(!cur.empty())out.push_back(cur);
      cur.clear();
      if(ret)out.push_back(U(1, ch));
   }
   if(!cur.empty())out.push_back(cur);
   return out;
}
static std::string list(const std::vector<U>& v)
{
   std::string s = "[";
   for(auto& u : v)s += show(u) + " ";
   return s + "]";
}
static void one(Rng& r, const U& t, const U& d, bool ret)
{
   std::string w = "text " + show(t) + " delimiters " + show(d) + (ret ? " returned" : "");
   std::vector<U> want = reference(t, d, ret), got;
   String text = mk(t), delim = mk(d);
   StringTokenizer st(text, delim, ret);
   int ask = (int)r.below(3);   // hasNext before next: once, several times, or not at all
   if(r.chance(0.3))            // the tokenizer keeps its own text
   {
      text.append(Char('!'));
      delim = mk(u"qqq");
   }
   if(ask == 2)
   {
      for(size_t i = 0; i < want.size(); i++)got.push_back(rd(st.next()));
   }
   else while(st.hasNext())
      {
         if(ask == 1 && r.chance(0.5))VH_CHECK(st.hasNext(), "hasNext-unstable", w);
         U u = rd(st.next());
         got.push_back(u);
         VH_CHECK(got.size() <= t.size(), "endless", w << " yields more tokens than characters");
      }
   VH_CHECK(got == want, ret ? "tokens-returned" : "tokens", w << " yields " << list(got) << " expected " << list(want));
   VH_CHECK(!st.hasNext() && !st.hasNext(), "hasNext-at-end", w);
   for(int k = 0; k < 2; k++)
   {
      if(!r.chance(0.05))continue;
      bool threw = false;
      try
      {
         st.next();
      }
      catch(const jm::Exception&)
      {
         threw = true;
      }
      VH_CHECK(threw, "next-at-end", w << ": next() after the last token returned a value");
      count("nextAtEnd");
   }
   if(ret)
   {
      U cat;
      for(auto& u : got)cat += u;
      VH_CHECK(cat == t, "concatenation", w << " concatenates to " << show(cat));
      count("concatenated");
   }
   if(!ret && d.size() == 1)
   {
      StringList l = mk(t).split(Char((uint16)d[0]));
      std::vector<U> s;
      for(int64 i = 0; i < l.size(); i++)s.push_back(rd(l[i]));
      VH_CHECK(s == want, "split", w << " splits to " << list(s) << " expected " << list(want));
      StringList again = l.join(Char((uint16)d[0])).split(Char((uint16)d[0]));
      std::vector<U> s2;
      for(int64 i = 0; i < again.size(); i++)s2.push_back(rd(again[i]));
      VH_CHECK(s2 == s, "split-join", w << " joined and split again is " << list(s2));
      count("split");
   }
   if(want.size() > 1)distinct(mix(mix(hashU(t), hashU(d)), ret));
}
// every text up to length 7 over {a, b, ',', ';'} in every mode: index encodes the text
VH_WORKLOAD(exhaustive, 21844, 87380)
{
   uint64_t i = c.index;
   size_t len = 0;
   uint64_t n = 1;
   while(i >= n)
   {
      i -= n;
      n *= 4;
      len++;
   }
   U t;
   for(size_t k = 0; k < len; k++, i /= 4)t += u"ab,;"[i % 4];
   for(const char16_t* d : {u",", u",;", u";,", u"", u"b", u"ab,;", u",,"})
   {
      one(c.r, t, d, false);
      one(c.r, t, d, true);
   }
   count("exhaustiveTexts");
}
VH_WORKLOAD(random, 30000, 1000000)
{
   Rng& r = c.r;
   U d;
   bool many = r.chance(0.02);
   int64_t k = many ? r.chance(0.1) ? r.range(65530, 65545) : r.range(120, 1200) : r.range(0, 6);
   bool wide = many || r.chance(0.3);
   if(many)count("manyDelimiters");
   while(k--)d += wide ? (char16_t)r.below(65536) : u" \t\n,.;:/ab\0"[r.below(11)];
   U t;
   int64_t n = r.range(0, r.chance(0.1) ? 300 : 30);
   double pd = r.unit();
   while(n--)
   {
      if(!d.empty() && r.chance(pd))t += d[r.below(d.size())];
      else if(!d.empty() && r.chance(0.1))t += (char16_t)(d[r.below(d.size())] ^ (r.chance(0.5) ? 0x100 : 0x8000));
      else t += wide ? (char16_t)r.below(65536) : (char16_t)r.range(32, 127);
   }
   one(r, t, d, r.chance(0.5));
   sample("text " + show(t) + " delimiters " + show(d));
}
VH_WORKLOAD(joinsplit, 8000, 200000)
{
   Rng& r = c.r;
   char16_t d = r.chance(0.5) ? u',' : (char16_t)r.below(65536);
   StringList l;
   std::vector<U> m;
   int64_t n = r.range(0, 20);
   while(n--)
   {
      U u;
      int64_t k = r.range(1, 8);
      while(k--)
      {
         char16_t ch = (char16_t)r.range(32, 127);
         if(r.chance(0.1))ch = (char16_t)r.below(65536);
         if(ch == d)ch++;
         if(ch == d)ch = 'a';
         u += ch;
      }
      m.push_back(u);
      l << mk(u);
   }
   StringList g = l.join(Char((uint16)d)).split(Char((uint16)d));
   std::vector<U> got;
   for(int64 i = 0; i < g.size(); i++)got.push_back(rd(g[i]));
   VH_CHECK(got == m, "join-split", "list " << list(m) << " joined with " << d << " and split again is " << list(got));
   count("joined");
}
VH_REQUIRE("manyDelimiters", "exhaustiveTexts", "concatenated", "split", "joined", "nextAtEnd");
VH_DRIVER("P09", "Tokens equal the maximal delimiter-free pieces (and single delimiters, when returned) found by a reference scan; concatenation restores the text; next() at the end throws; split(join(list)) == list")
