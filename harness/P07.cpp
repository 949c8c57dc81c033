// P07: Hashtable against std::map under random histories with colliding keys.
// VH-TECH: random operation histories against a reference map, full read-back after every few steps, under ASan+UBSan
#include "vh.hpp"
#include <map>
#include <algorithm>
#include <memory>
using namespace vh;
using jm::String;
using jm::Char;
using jm::Hashtable;
typedef std::map<U, void*> Model;
static int gCell[64];

// builds the key through one of several histories, so that a hash cached on the way would show
static String key(Rng& r, const U& k)
{
   String s;
   switch(r.below(7))
   {
      case 0: s = mk(k); break;
      case 1: s = mk(u"zz"); s.hashCode(); s = mk(k); break;
      case 2: { s = mk(u"x" + k); s.hashCode(); s.deleteCharAt(0); break; }
      case 3: for(char16_t ch : k)
         {
            s.append(Char((uint16)ch));
            if(r.chance(0.5))s.hashCode();
         }
         break;
      case 4: { String t = mk(k + u"tail"); t.hashCode(); s = t.substring(0, (int64)k.size()); break; }
      case 5: { String t = mk(k); t.hashCode(); s = t; break; }
      default: { String t = mk(k); String v(t); v.hashCode(); v.append(Char('q')); v.hashCode(); v.deleteCharAt((int64)k.size()); s = v; }
   }
   return s;
}
static uint64_t fp(const Model& m)
{
   uint64_t x = m.size();
   for(auto& e : m)x = mix(x, mix(hashU(e.first), (uint64_t)((int*)e.second - gCell)));
   return x;
}
static void readBack(Rng& r, Hashtable& h, const Model& m, const std::string& tr)
{
   VH_CHECK(h.size() == (int64)m.size(), "size", tr << " size " << h.size() << " expected " << m.size());
   VH_CHECK(h.isEmpty() == m.empty(), "isEmpty", tr);
   Model seen;
   {
      std::unique_ptr<jm::Iterator> it(h.keys());
      int64_t n = 0;
      while(it->hasNext())
      {
         if(r.chance(0.3))it->hasNext();
         String* k = reinterpret_cast<String*>(it->next());
         VH_CHECK(k != nullptr, "key-null", tr);
         U u = rd(*k);
         VH_CHECK(m.count(u) == 1, "key-unknown", tr << " lists " << show(u));
         VH_CHECK(seen.insert({u, nullptr}).second, "key-twice", tr << " lists " << show(u) << " twice");
         VH_CHECK(++n <= (int64_t)m.size(), "keys-endless", tr);
      }
      VH_CHECK(it->next() == nullptr, "key-past-end", tr);
   }
   VH_CHECK(seen.size() == m.size(), "key-lost", tr << " lists " << seen.size() << " of " << m.size() << " keys");
   {
      std::unique_ptr<jm::Iterator> it(h.values());
      std::vector<void*> got, want;
      while(it->hasNext())
      {
         got.push_back(it->next());
         VH_CHECK(got.size() <= m.size(), "values-endless", tr);
      }
      for(auto& v : m)want.push_back(v.second);
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      VH_CHECK(got == want, "values", tr << " lists " << got.size() << " values for " << m.size() << " entries, or other ones");
   }
   for(auto& e : m)
   {
      String k = key(r, e.first);
      VH_CHECK(h.get(k) == e.second, "get", tr << " key " << show(e.first));
      VH_CHECK(h.containsKey(k), "containsKey", tr << " key " << show(e.first));
      VH_CHECK(h.containsValue(e.second), "containsValue", tr << " key " << show(e.first));
   }
   count("readBacks");
}
static std::vector<U> keyset(Rng& r)
{
   std::vector<U> ks;
   int n = (int)r.range(2, r.chance(0.2) ? 300 : 40);
   int mode = (int)r.below(4);
   for(int i = 0; i < n; i++)
   {
      U k;
      switch(mode)
      {
         case 0: { int l = (int)r.range(0, 6); while(l--)k += r.chance(0.5) ? u"Aa" : u"BB"; break; }          // equal hash codes
         case 1: { int l = (int)r.range(0, 3); while(l--)k += (char16_t)(u'a' + r.below(3)); break; }            // few, short
         case 2: { int l = (int)r.range(0, 20); while(l--)k += (char16_t)r.below(65536); break; }                // long hashes
         default: k = u"key"; k += (char16_t)(u'0' + i % 10); k += (char16_t)(u'0' + i / 10 % 10); k += (char16_t)(u'0' + i / 100);
      }
      ks.push_back(k);
   }
   return ks;
}
VH_WORKLOAD(histories, 9000, 250000)
{
   Rng& r = c.r;
   std::vector<U> ks = keyset(r);
   Hashtable h;
   Model m;
   int steps = (int)r.range(5, r.chance(0.1) ? 600 : 80);
   double pPut = r.pick(std::vector<double> {0.4, 0.6, 0.8, 0.95});
   std::string tr;
   for(int i = 0; i < steps; i++)
   {
      const U& k = ks[r.below(ks.size())];
      void* v = r.chance(0.05) ? nullptr : (void*)&gCell[r.below(64)];
      auto f = m.find(k);
      void* had = f == m.end() ? nullptr : f->second;
      int64_t before = (int64_t)m.size();
      if(r.chance(pPut))
      {
         tr = "put " + show(k);
         String s = key(r, k);
         void* old = h.put(s, v);
         VH_CHECK(old == had, "put-old", tr << " returned another former value");
         VH_CHECK(rd(s) == k, "put-key-changed", tr);
         m[k] = v;
         if(r.chance(0.3))   // what happens to the caller's string later must not matter
         {
            if(s.size() > 0)s.setCharAt(0, Char('!'));
            s.append(Char('w'));
         }
         count("put");
      }
      else if(r.chance(0.85))
      {
         tr = "remove " + show(k);
         void* old = h.remove(key(r, k));
         VH_CHECK(old == had, "remove-old", tr << " returned another former value");
         m.erase(k);
         count("remove");
      }
      else if(r.chance(0.1))
      {
         tr = "clear";
         h.clear();
         m.clear();
         count("clear");
      }
      else
      {
         U q = r.chance(0.5) ? ks[r.below(ks.size())] : k + u"x";
         String s = key(r, q);
         bool in = m.count(q) != 0;
         tr = "lookup " + show(q);
         VH_CHECK(h.containsKey(s) == in, "containsKey", tr << " says " << h.containsKey(s));
         VH_CHECK(h.get(s) == (in ? m[q] : nullptr), "get", tr);
      }
      VH_CHECK(h.size() == (int64)m.size(), "size", tr << " size " << h.size() << " expected " << m.size() << " (before " << before << ")");
      if(r.chance(m.size() > 60 ? 0.03 : 0.2))readBack(r, h, m, "after " + std::to_string(i) + " steps, " + tr);
      distinct(fp(m));
   }
   readBack(r, h, m, "at the end, " + tr);
   sample(std::to_string(m.size()) + " entries after " + std::to_string(steps) + " steps, last " + tr);
   bool present = false;
   for(auto& e : m)if(e.second == (void*)&st())present = true;
   VH_CHECK(h.containsValue(&st()) == present, "containsValue", "a value never stored");
   eval(1);
}
// growth to many entries, then shrinking again
VH_WORKLOAD(growth, 60, 1500)
{
   Rng& r = c.r;
   Hashtable h;
   Model m;
   int n = (int)r.range(100, 3000);
   bool collide = r.chance(0.3);
   if(collide)n = (int)r.range(60, 120);
   for(int i = 0; i < n; i++)
   {
      U k;
      if(collide)for(int b = 0; b < 7; b++)k += (i >> b & 1) ? u"Aa" : u"BB";
      else for(int b = i * 7919 + 13; b; b /= 23)k += (char16_t)(u'A' + b % 23);
      void* v = &gCell[r.below(64)];
      void* old = h.put(mk(k), v);
      VH_CHECK((old != nullptr) == (m.count(k) != 0), "put-old", "growth, entry " << i);
      m[k] = v;
      VH_CHECK(h.get(mk(k)) == v, "get", "just stored, entry " << i);
   }
   readBack(r, h, m, "grown to " + std::to_string(n));
   distinct(fp(m));
   while(m.size() > (size_t)n / 3)
   {
      auto it = m.begin();
      std::advance(it, (long)r.below(std::min<size_t>(m.size(), 50)));
      VH_CHECK(h.remove(mk(it->first)) == it->second, "remove-old", "shrinking");
      m.erase(it);
   }
   readBack(r, h, m, "shrunk to " + std::to_string(m.size()));
   count("grownTables");
   eval(1);
}
// tables far larger than 65536 entries: growth, iteration by next() alone, partial removal, clearing and reuse
static U largeKey(int i)
{
   U k;
   for(uint64_t b = (uint64_t)i * 2654435761u + 13; b; b /= 61)k += (char16_t)(u'0' + b % 61);
   return k;
}
static void listLarge(Hashtable& h, const std::map<U, int>& m, const std::string& tr)
{
   VH_CHECK(h.size() == (int64_t)m.size(), "size", tr << " size " << h.size() << " expected " << m.size());
   std::unique_ptr<jm::Iterator> it(h.keys());
   size_t n = 0;
   std::vector<U> got;
   while(String* k = reinterpret_cast<String*>(it->next()))   // without asking hasNext()
   {
      VH_CHECK(++n <= m.size(), "keys-endless", tr);
      got.push_back(rd(*k));
   }
   VH_CHECK(n == m.size(), "key-lost", tr << " next() alone lists " << n << " of " << m.size() << " keys");
   VH_CHECK(!it->hasNext(), "hasNext-past-end", tr);
   std::sort(got.begin(), got.end());
   size_t i = 0;
   for(auto& e : m)
   {
      VH_CHECK(got[i] == e.first, "key-unknown", tr << " lists " << show(got[i]) << " instead of " << show(e.first));
      i++;
   }
   std::unique_ptr<jm::Iterator> vt(h.values());
   n = 0;
   std::vector<int> gotv, want;
   while(vt->hasNext())
   {
      gotv.push_back((int)((intptr_t)vt->next() >> 4));
      VH_CHECK(++n <= m.size(), "values-endless", tr);
   }
   for(auto& e : m)want.push_back(e.second);
   std::sort(gotv.begin(), gotv.end());
   std::sort(want.begin(), want.end());
   VH_CHECK(gotv == want, "values", tr << " lists " << gotv.size() << " values for " << m.size() << " entries, or other ones");
   for(auto& e : m)VH_CHECK((int)((intptr_t)h.get(mk(e.first)) >> 4) == e.second, "get", tr << " key " << show(e.first));
   count("largeReadBacks");
}
VH_WORKLOAD(large, 5, 80)
{
   Rng& r = c.r;
   Hashtable h;
   std::map<U, int> m;
   int n = c.index == 0 ? 140000 : (int)r.range(1000, r.chance(0.3) ? 200000 : 30000);
   int rounds = (int)r.range(2, 3);
   for(int round = 0; round < rounds; round++)
   {
      int base = round * (int)r.below(1000);
      for(int i = base; i < base + n; i++)
      {
         U k = largeKey(i);
         int v = i + 1;
         auto f = m.find(k);
         void* old = h.put(mk(k), (void*)((intptr_t)v << 4));
         VH_CHECK((int)((intptr_t)old >> 4) == (f == m.end() ? 0 : f->second), "put-old", "large, entry " << i);
         m[k] = v;
         VH_CHECK(h.size() == (int64)m.size(), "size", "large, entry " << i);
      }
      std::string tr = "large table with " + std::to_string(m.size()) + " entries in round " + std::to_string(round);
      listLarge(h, m, tr);
      VH_CHECK(!h.containsKey(mk(u"-")) && h.get(mk(u"-")) == nullptr && h.remove(mk(u"-")) == nullptr, "lookup", tr);
      if(m.size() > 65536)count("beyond65536");
      if(r.chance(0.5))
      {
         size_t keep = r.below(50);
         for(auto it = m.begin(); it != m.end() && m.size() > keep;)
         {
            VH_CHECK((int)((intptr_t)h.remove(mk(it->first)) >> 4) == it->second, "remove-old", tr);
            it = m.erase(it);
         }
         listLarge(h, m, tr + " after removals");
      }
      if(round + 1 < rounds || r.chance(0.5))
      {
         h.clear();
         VH_CHECK(h.isEmpty() && !h.containsKey(mk(largeKey(base + 1))), "clear", tr);
         m.clear();
         listLarge(h, m, tr + " after clear");
         if(r.chance(0.5))h.clear();
         count("largeCleared");
      }
   }
   distinct((uint64_t)n);
   eval(1);
}
VH_REQUIRE("put", "remove", "clear", "readBacks", "grownTables", "largeReadBacks", "beyond65536", "largeCleared");
VH_DRIVER("P07", "Every put/get/remove/containsKey/size/isEmpty/clear answer and both iterators equal those of a std::map; keys are built through histories that query and mutate hashes, many with equal hash codes")
