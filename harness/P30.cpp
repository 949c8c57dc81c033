// P30: diffs.
// VH-TECH: all pairs of short sequences and random, edited, empty, identical and long ones; the printed edit script is replayed against both sequences and its length compared with a dynamic-programming distance, under ASan+UBSan with live-heap accounting
#include "vh.hpp"
#include <iostream>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vh;
using namespace jm;
struct E: public Object
{
   int val;
   int side, pos;   // side 0: first sequence
   static std::vector<std::pair<const E*, const E*>>* mods;
   E(int v, int s, int p): val(v), side(s), pos(p) {}
   bool equals(const Object* o) const override { return val == ((const E*)o)->val; }
   jm::String displayName() const override
   {
      jm::String s(side ? "v" : "u");
      s << (int64)pos;
      return s;
   }
   void printDiffInfo(DiffOperation op, Object* o) const override
   {
      if(mods && op == DiffOperation::kDiffModified)mods->push_back({this, (const E*)o});
   }
};
std::vector<std::pair<const E*, const E*>>* E::mods = nullptr;
static int64 levenshtein(const std::vector<int>& a, const std::vector<int>& b)
{
   std::vector<int64> p(b.size() + 1), q(b.size() + 1);
   for(size_t j = 0; j <= b.size(); j++)p[j] = (int64)j;
   for(size_t i = 1; i <= a.size(); i++)
   {
      q[0] = (int64)i;
      for(size_t j = 1; j <= b.size(); j++)q[j] = std::min(std::min(p[j], q[j - 1]) + 1, p[j - 1] + (a[i - 1] == b[j - 1] ? 0 : 1));
      p.swap(q);
   }
   return p[b.size()];
}
static std::string str(const std::vector<int>& a)
{
   std::string s;
   for(size_t i = 0; i < a.size() && i < 40; i++)s += (i ? "," : "") + std::to_string(a[i]);
   return "[" + s + (a.size() > 40 ? ",..." : "") + "]";
}
struct Out
{
   std::ostringstream o;
   std::streambuf* old;
   Out() { old = std::cout.rdbuf(o.rdbuf()); }
   ~Out() { std::cout.rdbuf(old); }
};
static void run(DiffDistance& dd, const std::vector<int>& a, const std::vector<int>& b, int64 want)
{
   std::string what = str(a) + " -> " + str(b);
   std::vector<std::unique_ptr<E>> u, v;
   for(size_t i = 0; i < a.size(); i++) { u.emplace_back(new E(a[i], 0, (int)i)); dd.addU(u.back().get()); }
   for(size_t i = 0; i < b.size(); i++) { v.emplace_back(new E(b[i], 1, (int)i)); dd.addV(v.back().get()); }
   std::string script;
   std::vector<std::pair<const E*, const E*>> mods;
   {
      Out solving;
      std::unique_ptr<DiffBacktrace> bt(dd.solve());
      Out out;
      E::mods = &mods;
      bt->print();
      E::mods = nullptr;
      script = out.o.str();
   }
   VH_CHECK(dd.distance() == want, "distance", what << " has distance " << want << ", reported " << dd.distance());
   // replay: the positions not named in the script are kept
   size_t i = 0, j = 0, m = 0;
   int64 changes = 0;
   std::istringstream in(script);
   std::string op, name;
   auto keepTo = [&](size_t iu, size_t jv, bool haveU, bool haveV)
   {
      // elements before the one the script names are kept, in pairs
      while((haveU && i < iu) || (haveV && j < jv))
      {
         VH_CHECK(i < a.size() && j < b.size() && (!haveU || i < iu) && (!haveV || j < jv), "script-order", what << " script " << script.substr(0, 400));
         VH_CHECK(a[i] == b[j], "kept-unequal", what << " keeps " << i << " as " << j << ", script " << script.substr(0, 400));
         i++, j++;
      }
      VH_CHECK((!haveU || i == iu) && (!haveV || j == jv), "script-order", what << " script " << script.substr(0, 400));
   };
   while(in >> op >> name)
   {
      VH_CHECK((op == "A" || op == "D" || op == "M") && name.size() > 1 && (name[0] == 'u' || name[0] == 'v'), "script-line", what << " line " << op << " " << name);
      size_t pos = (size_t)atoll(name.c_str() + 1);
      changes++;
      if(op == "A")
      {
         VH_CHECK(name[0] == 'v', "added-object", what << " adds " << name << ", which is not of the second sequence");
         keepTo(0, pos, false, true);
         j++;
         count("added");
      }
      else if(op == "D")
      {
         VH_CHECK(name[0] == 'u', "deleted-object", what << " deletes " << name << ", which is not of the first sequence");
         keepTo(pos, 0, true, false);
         i++;
         count("deleted");
      }
      else
      {
         VH_CHECK(name[0] == 'u' && m < mods.size() && mods[m].first == u[pos].get(), "modified-object", what << " modifies " << name);
         VH_CHECK(mods[m].second && mods[m].second->side == 1, "modified-into", what << " modifies " << name << " into an object which is not of the second sequence");
         keepTo(pos, (size_t)mods[m].second->pos, true, true);
         VH_CHECK(a[i] != b[j], "modified-equal", what << " modifies equal elements");
         i++, j++, m++;
         count("modified");
      }
   }
   while(i < a.size() && j < b.size())
   {
      VH_CHECK(a[i] == b[j], "kept-unequal", what << " keeps " << i << " as " << j << ", script " << script.substr(0, 400));
      i++, j++;
   }
   VH_CHECK(i == a.size() && j == b.size(), "script-incomplete", what << " script " << script.substr(0, 400));
   VH_CHECK(changes == want, "script-length", what << " has " << changes << " changes, distance " << want);
   count("diffs");
   distinct(mix(hashBytes(a.data(), a.size() * sizeof(int)) ^ hashBytes(b.data(), b.size() * sizeof(int)) * 3));
}
static void diff(const std::vector<int>& a, const std::vector<int>& b)
{
   DiffDistance dd;
   run(dd, a, b, levenshtein(a, b));
}
// all pairs over three letters: 4 and up to 5 letters long (quick: every case one first sequence)
static std::vector<int> word(uint64_t k)
{
   // the k-th word over 0,1,2 in order of length
   std::vector<int> w;
   uint64_t n = 1;
   while(k >= n) { k -= n; n *= 3; w.push_back(0); }
   for(auto& x : w) { x = (int)(k % 3); k /= 3; }
   return w;
}
VH_WORKLOAD(all, 121, 364)   // words of length <= 4 against words of length <= 5; thorough: <= 5 against <= 5
{
   std::vector<int> a = word(c.index);
   for(uint64_t k = 0; k < 364; k++)diff(a, word(k));
   count("pairs", 364);
}
static std::vector<int> edited(Rng& r, std::vector<int> a, int n, int alpha)
{
   while(n--)
   {
      size_t p = r.below(a.size() + 1);
      switch(r.below(4))
      {
         case 0: a.insert(a.begin() + (long)p, (int)r.below((uint64_t)alpha)); break;
         case 1: if(p < a.size())a.erase(a.begin() + (long)p); break;
         case 2: if(p < a.size())a[p] = (int)r.below((uint64_t)alpha); break;
         case 3: if(a.size() > 2) { size_t q = r.below(a.size()); std::rotate(a.begin() + (long)std::min(p, q), a.begin() + (long)q, a.end()); } break;
      }
   }
   return a;
}
VH_WORKLOAD(random, 20000, 200000)
{
   Rng& r = c.r;
   int alpha = r.pick(std::vector<int>{1, 2, 3, 5, 20, 1000});
   size_t mx = r.pick(std::vector<size_t>{0, 3, 10, 40, 120});
   std::vector<int> a, b;
   for(size_t n = r.below(mx + 1); n--;)a.push_back((int)r.below((uint64_t)alpha));
   if(r.chance(0.5))b = edited(r, a, (int)r.below(10), alpha);
   else for(size_t n = r.below(mx + 1); n--;)b.push_back((int)r.below((uint64_t)alpha));
   if(r.chance(0.05))b.clear();
   if(r.chance(0.05))std::swap(a, b);
   diff(a, b);
   if(r.chance(0.2))
   {
      // the same object again, after clear()
      DiffDistance dd;
      run(dd, a, b, levenshtein(a, b));
      dd.clear();
      std::vector<int> e = edited(r, b, 3, alpha);
      run(dd, b, e, levenshtein(b, e));
      dd.clear();
      VH_CHECK(dd.distance() == 0, "clear", "");
      run(dd, e, a, levenshtein(e, a));
      count("reused");
   }
}
VH_WORKLOAD(large, 16, 200)
{
   Rng& r = c.r;
   int alpha = r.pick(std::vector<int>{2, 50, 100000});
   std::vector<int> a;
   for(size_t n = 200 + r.below(800); n--;)a.push_back((int)r.below((uint64_t)alpha));
   std::vector<int> b;
   if(r.chance(0.5))b = edited(r, a, 30, alpha);
   else for(size_t n = 200 + r.below(800); n--;)b.push_back((int)r.below((uint64_t)alpha));
   diff(a, b);
   beat();
   count("large");
}
VH_WORKLOAD(identical, 4, 8)
{
   Rng& r = c.r;
   std::vector<int> a;
   size_t n = c.index ? 1000u << (c.index % 4) * 2 : 200000;
   for(size_t i = 0; i < n; i++)a.push_back((int)r.below(5));
   DiffDistance dd;
   run(dd, a, a, 0);
   beat();
   std::vector<int> b = a;
   b.push_back(9);   // one change at one end
   DiffDistance d2;
   run(d2, a, b, 1);
   DiffDistance d3;
   run(d3, b, a, 1);
   count("identical");
}
VH_WORKLOAD(leaks, 40, 400)
{
   Rng& r = c.r;
   std::vector<int> a, b;
   for(size_t n = 1 + r.below(30); n--;)a.push_back((int)r.below(3));
   for(size_t n = 1 + r.below(30); n--;)b.push_back((int)r.below(3));
   size_t first = 0;
   for(int k = 0; k < 12; k++)
   {
      {
         Out quiet;
         DiffDistance dd;
         std::vector<std::unique_ptr<E>> o;
         for(int x : a) { o.emplace_back(new E(x, 0, 0)); dd.addU(o.back().get()); }
         for(int x : b) { o.emplace_back(new E(x, 1, 0)); dd.addV(o.back().get()); }
         delete dd.solve();
         if(k % 2)delete dd.solve();
         if(k % 3 == 0)dd.clear();
      }
      size_t now = __sanitizer_get_current_allocated_bytes();
      if(k == 2)first = now;
      if(k > 2)VH_CHECK(now <= first + 64, "leak", now - first << " bytes more after " << k << " diffs of " << str(a) << " and " << str(b));
   }
   count("leak-histories");
}
VH_REQUIRE("diffs", "added", "deleted", "modified", "pairs", "reused", "large", "identical", "leak-histories")
VH_DRIVER("P30", "the script transforms the first sequence into the second, keeps only equal pairs, and has as many changes as the dynamic-programming distance")
