// P08: LinkedList, StringList, Stack and Array against plain sequences.
// VH-TECH: random operation histories against reference sequences, all read APIs compared after every step, under ASan+UBSan
#include "vh.hpp"
#include <algorithm>
#include <memory>
#include <deque>
using namespace vh;
using namespace jm;
typedef jm::String S;

struct Node: public Object
{
   int id;
   explicit Node(int i): id(i) {}
};

static void readList(Rng& r, LinkedList& l, const std::vector<Object*>& m, const std::string& tr)
{
   VH_CHECK(l.size() == m.size(), "ll-size", tr << ": size " << l.size() << " expected " << m.size());
   VH_CHECK(l.first() == (m.empty() ? nullptr : m.front()), "ll-first", tr);
   VH_CHECK(l.last() == (m.empty() ? nullptr : m.back()), "ll-last", tr);
   int mode = (int)r.below(3);
   if(mode != 1)
   {
      LinkedListIterator it = l.iterator();
      size_t n = 0;
      while(it.hasNext())
      {
         VH_CHECK(n < m.size(), "ll-iter-long", tr);
         VH_CHECK(it.seek() == m[n], "ll-iter-seek", tr << ": element " << n);
         if(r.chance(0.1))
         {
            LinkedListIterator cp(it);
            VH_CHECK(cp.next() == m[n], "ll-iter-copy", tr << ": element " << n);
            LinkedListIterator as(nullptr);
            as = it;
            VH_CHECK(as.hasNext() && as.next() == m[n], "ll-iter-assign", tr << ": element " << n);
         }
         VH_CHECK(it.next() == m[n], "ll-iter", tr << ": element " << n);
         n++;
      }
      VH_CHECK(n == m.size(), "ll-iter-short", tr << ": " << n << " of " << m.size());
      VH_CHECK(it.next() == nullptr && it.seek() == nullptr, "ll-iter-end", tr);
   }
   if(mode != 0)
   {
      size_t n = 0;
      l.rewind();
      while(l.hasNext())
      {
         VH_CHECK(n < m.size(), "ll-walk-long", tr);
         VH_CHECK(l.next() == m[n], "ll-walk", tr << ": element " << n);
         n++;
      }
      VH_CHECK(n == m.size(), "ll-walk-short", tr << ": " << n << " of " << m.size());
   }
}
VH_WORKLOAD(linkedlist, 20000, 500000)
{
   Rng& r = c.r;
   Node owner(0);
   std::vector<std::unique_ptr<Node>> pool;
   int N = (int)r.range(1, r.chance(0.2) ? 40 : 6);
   for(int i = 0; i < N; i++)pool.emplace_back(new Node(i));
   {
      LinkedList l(&owner);
      std::vector<Object*> m;
      bool dup = r.chance(0.2);
      int steps = (int)r.range(3, 50);
      std::string tr;
      uint64_t fp = 0;
      for(int i = 0; i < steps; i++)
      {
         Object* o = pool[r.below(pool.size())].get();
         bool in = std::find(m.begin(), m.end(), o) != m.end();
         switch(r.below(10))
         {
            case 0:
            case 1:
            case 2:
               if(in && !dup)continue;
               tr = "add";
               l.add(o, nullptr);
               m.push_back(o);
               break;
            case 3:
            case 4:
            {
               if(in && !dup)continue;
               tr = "addBefore";
               Object* b = pool[r.below(pool.size())].get();
               auto f = std::find(m.begin(), m.end(), b);
               if(f == m.end())tr += " an object not in the list";
               l.addBefore(b, o, nullptr);
               if(f != m.end())m.insert(f, o);
               break;
            }
            case 5:
            case 6:
            case 7:
            {
               tr = "remove";
               auto f = std::find(m.begin(), m.end(), o);
               Status s = l.remove(o, nullptr);
               VH_CHECK(s == (f == m.end() ? Status::eNotFound : Status::eOK), "ll-remove-status", tr << " of " << (f == m.end() ? "an absent" : "a present") << " object");
               if(f != m.end())m.erase(f);
               break;
            }
            case 8:
            {
               if(dup)continue;
               tr = "swapData";
               Object* b = pool[r.below(pool.size())].get();
               auto f = std::find(m.begin(), m.end(), o), g = std::find(m.begin(), m.end(), b);
               l.swapData(o, b, nullptr);
               if(f != m.end() && g != m.end())std::iter_swap(f, g);
               break;
            }
            default:
               if(r.chance(0.7))
               {
                  // removal of the element just visited while walking the list
                  tr = "remove while walking";
                  std::vector<Object*> keep;
                  if(dup)continue;
                  l.rewind();
                  size_t n = 0;
                  std::vector<Object*> was = m;
                  while(l.hasNext())
                  {
                     Object* e = l.next();
                     VH_CHECK(n < was.size() && e == was[n], "ll-walk-remove", tr << ": element " << n);
                     n++;
                     if(r.chance(0.3))
                     {
                        VH_CHECK(l.remove(e, nullptr) == Status::eOK, "ll-walk-remove-status", tr);
                        m.erase(std::find(m.begin(), m.end(), e));
                     }
                  }
                  VH_CHECK(n == was.size(), "ll-walk-remove-short", tr << ": " << n << " of " << was.size());
                  count("removeWhileWalking");
               }
               else
               {
                  tr = "clear";
                  l.clear(nullptr);
                  m.clear();
                  count("clear");
               }
         }
         fp = mix(fp, m.size() * 64 + r.below(1));
         for(Object* x : m)fp = mix(fp, (uint64_t)static_cast<Node*>(x)->id);
         distinct(fp);
         readList(r, l, m, "LinkedList after " + std::to_string(i) + " steps, last " + tr);
      }
      count("linkedLists");
      sample("LinkedList of " + std::to_string(m.size()) + " elements after " + std::to_string(steps) + " steps, last " + tr);
   }
   for(auto& p : pool)VH_CHECK(p->referenceCount() == 1, "ll-refcount", "the list changed the reference count of an element to " << p->referenceCount());
}
static U word(Rng& r)
{
   U u;
   int64_t n = r.range(0, 5);
   while(n--)u += r.chance(0.9) ? (char16_t)(u'a' + r.below(3)) : (char16_t)r.range(1, 0xFFFF);
   return u;
}
static void readSL(Rng& r, StringList& l, const std::vector<U>& m, const std::string& tr)
{
   VH_CHECK(l.size() == (int64)m.size(), "sl-size", tr << ": size " << l.size() << " expected " << m.size());
   for(size_t i = 0; i < m.size(); i++)
   {
      U g = rd(r.chance(0.5) ? l.get((int64)i) : l[(int64)i]);
      VH_CHECK(g == m[i], "sl-element", tr << ": element " << i << " is " << show(g) << " expected " << show(m[i]));
   }
   size_t n = 0;
   for(String& s : l)
   {
      VH_CHECK(n < m.size() && rd(s) == m[n], "sl-range-for", tr << ": element " << n);
      n++;
   }
   VH_CHECK(n == m.size(), "sl-range-for", tr << ": length");
   U j;
   char16_t d = r.chance(0.5) ? u',' : (char16_t)r.range(1, 0xFFFF);
   for(size_t i = 0; i < m.size(); i++)
   {
      if(i)j += d;
      j += m[i];
   }
   U g = rd(l.join(Char((uint16)d)));
   VH_CHECK(g == j, "sl-join", tr << ": " << show(g) << " expected " << show(j));
   U w = word(r);
   VH_CHECK(l.contains(mk(w)) == (std::find(m.begin(), m.end(), w) != m.end()), "sl-contains", tr << ": " << show(w));
   for(int64 bad : {(int64) - 1, (int64)m.size(), (int64)m.size() + r.range(0, 20), INT64_MIN, INT64_MAX})
   {
      if(r.chance(0.97))continue;
      for(int k = 0; k < 3; k++)
      {
         bool threw = false;
         try
         {
            if(k == 0)l.get(bad);
            else if(k == 1)l[bad] = S("x");
            else l.set(bad, S("x"));
         }
         catch(const Exception&)
         {
            threw = true;
         }
         VH_CHECK(threw, "sl-bounds", tr << ": index " << bad << " of " << m.size() << " accepted by " << (k == 0 ? "get" : k == 1 ? "[]" : "set"));
      }
   }
}
VH_WORKLOAD(stringlist, 8000, 200000)
{
   Rng& r = c.r;
   std::unique_ptr<StringList> l;
   std::vector<U> m;
   switch(r.below(3))
   {
      case 0: l.reset(new StringList()); break;
      case 1: { int64_t n = r.range(0, 12); l.reset(new StringList((int64)n)); m.assign((size_t)n, U()); break; }
      default: { U w = word(r); l.reset(new StringList(mk(w))); m.push_back(w); }
   }
   std::string tr = "construction";
   readSL(r, *l, m, tr);
   int steps = (int)r.range(2, 30);
   for(int i = 0; i < steps; i++)
   {
      size_t n = m.size();
      switch(r.below(13))
      {
         case 0:
         case 1:
         case 2: { tr = "append"; U w = word(r); l->append(mk(w)); m.push_back(w); break; }
         case 3: { tr = "<<"; U w = word(r), v = word(r); *l << mk(w) << mk(v); m.push_back(w); m.push_back(v); break; }
         case 4: { tr = "remove"; U w = word(r); l->remove(mk(w)); m.erase(std::remove(m.begin(), m.end(), w), m.end()); break; }
         case 5: { if(!n)continue; tr = "set"; int64 k = r.range(0, (int64)n - 1); U w = word(r); l->set(k, mk(w)); m[(size_t)k] = w; break; }
         case 6: { if(!n)continue; tr = "[]="; int64 k = r.range(0, (int64)n - 1); U w = word(r); (*l)[k] = mk(w); m[(size_t)k] = w; break; }
         case 7: tr = "sort"; l->sort(); std::sort(m.begin(), m.end()); count("sort"); break;
         case 8: if(r.chance(0.7))continue; tr = "clear"; l->clear(); m.clear(); break;
         case 9: tr = "reserve"; l->reserve(r.range(0, 20)); break;
         case 10:
         {
            tr = "copy";
            StringList* cp = new StringList(*l);
            l->append(S("only in the original"));
            if(n)l->set(0, S("changed"));
            l.reset(cp);
            break;
         }
         case 11:
         {
            tr = "assign";
            StringList o;
            int64_t k = r.range(0, 12);
            while(k--)o << S("old");
            o = *l;
            l->append(S("only in the original"));
            *l = *l;
            *l = o;
            o.append(S("other"));
            break;
         }
         default:
         {
            if(!n)continue;
            int64 k = r.range(0, (int64)n - 1);
            U w = m[(size_t)k];
            if(r.chance(0.5))
            {
               tr = "append own element";
               l->append((*l)[k]);
               m.push_back(w);
            }
            else
            {
               tr = "remove own element";
               l->remove((*l)[k]);
               m.erase(std::remove(m.begin(), m.end(), w), m.end());
            }
            count("ownElement");
         }
      }
      uint64_t fp = m.size();
      for(auto& w : m)fp = mix(fp, hashU(w));
      distinct(fp);
      readSL(r, *l, m, "StringList after " + std::to_string(i) + " steps, last " + tr);
   }
}
template<class T> static void stackRun(Rng& r, std::function<T()> gen)
{
   Stack<T> s;
   std::deque<T> m;   // top at the front
   int steps = (int)r.range(3, 60);
   std::string tr = "construction";
   uint64_t fp = 1;
   for(int i = 0; i < steps; i++)
   {
      VH_CHECK(s.size() == m.size() && s.hasElements() == !m.empty(), "stack-size", tr << ": " << s.size() << " expected " << m.size());
      if(!m.empty())VH_CHECK(s.top() == m[0] && *s.topRef() == m[0], "stack-top", tr);
      for(int k = 2; k <= 3; k++)
      {
         if((int)m.size() < k && r.chance(0.8))continue;
         bool threw = false;
         try
         {
            T x = k == 2 ? s.top2() : s.top3();
            VH_CHECK((int)m.size() >= k && x == m[(size_t)k - 1], "stack-topN", tr << ": top" << k);
         }
         catch(const Exception&)
         {
            threw = true;
         }
         VH_CHECK(threw == ((int)m.size() < k), "stack-topN-throw", tr << ": top" << k << " with " << m.size() << " elements");
      }
      switch(r.below(9))
      {
         case 0:
         case 1:
         case 2:
         case 3: { tr = "push"; T x = gen(); s.push(x); m.push_front(x); break; }
         case 4:
         case 5: if(m.empty())continue; tr = "pop"; VH_CHECK(s.pop() == m[0], "stack-pop", tr << " returned another element"); m.pop_front(); break;
         case 6: tr = "reverse"; s.reverse(); std::reverse(m.begin(), m.end()); count("reverse"); break;
         case 7:
            if(m.empty())continue;
            tr = "top=";
            if(r.chance(0.5))s.top() = m[0] = gen();
            else *s.topRef() = m[0] = gen();
            break;
         default: if(r.chance(0.8))continue; tr = "clear"; s.clear(); m.clear();
      }
      fp = mix(fp, m.size() * 9 + (uint64_t)tr[0]);
      distinct(fp);
   }
   while(!m.empty() && r.chance(0.9))
   {
      VH_CHECK(s.pop() == m[0], "stack-pop", "emptying");
      m.pop_front();
   }
   VH_CHECK(s.size() == m.size(), "stack-size", "emptying");
}
VH_WORKLOAD(stack, 12000, 300000)
{
   if(c.r.chance(0.6))stackRun<int64>(c.r, [&]() { return (int64)c.r.u64(); });
   else stackRun<S>(c.r, [&]() { return mk(word(c.r)); });
}
static void bounds(const char* what, const std::function<void()>& f)
{
   bool threw = false;
   try
   {
      f();
   }
   catch(const Exception&)
   {
      threw = true;
   }
   VH_CHECK(threw, "array-bounds", what << " outside the bounds accepted");
   count("rejected");
}
VH_WORKLOAD(array, 3000, 250000)
{
   Rng& r = c.r;
   int64_t n = r.range(0, 14);
   // values
   Array<S> a((int64)n);
   std::vector<U> m((size_t)n);
   VH_CHECK(a.size() == n && Array<S>().size() == 0, "array-size", a.size());
   for(int i = 0; i < 20 && n; i++)
   {
      int64 k = r.range(0, n - 1);
      U w = word(r);
      if(r.chance(0.5))a.set(k, mk(w));
      else a[k] = mk(w);
      m[(size_t)k] = w;
   }
   auto cmp = [&](Array<S>& x, const std::vector<U>& y, const char* what)
   {
      VH_CHECK(x.size() == (int64)y.size(), "array-size", what);
      for(size_t i = 0; i < y.size(); i++)VH_CHECK(rd(x.get((int64)i)) == y[i] && rd(x[(int64)i]) == y[i], "array-element", what << ": element " << i << " is " << show(rd(x.get((int64)i))) << " expected " << show(y[i]));
   };
   cmp(a, m, "set");
   for(int64 b : {(int64) - 1, (int64)n, n + r.range(0, 100), INT64_MIN, INT64_MAX})
   {
      bounds("Array get", [&]() { a.get(b); });
      bounds("Array set", [&]() { a.set(b, S("x")); });
      bounds("Array []", [&]() { a[b].size(); });
   }
   Array<S> b(a), d(r.range(0, 5));
   d = a;
   if(n)a[0] = S("changed in the original");
   cmp(b, m, "copy");
   cmp(d, m, "assigned");
   d = *&d;
   cmp(d, m, "self-assigned");
   std::vector<U> ms = m;
   std::sort(ms.begin(), ms.end());
   b.sort();
   cmp(b, ms, "sort");
   // pointers
   std::vector<std::unique_ptr<S>> own;
   Array<S*> p((uint32)n);
   std::vector<S*> pm;
   for(int64_t i = 0; i < n; i++)
   {
      own.emplace_back(new S(mk(word(r))));
      pm.push_back(own.back().get());
      if(r.chance(0.5))p.set((uint32)i, pm.back());
      else p[(uint32)i] = pm.back();
   }
   Array<S*> q(p), t;
   t = p;
   q.sort();
   std::stable_sort(pm.begin(), pm.end(), [](S * x, S * y) { return rd(*x) < rd(*y); });
   VH_CHECK(q.size() == n && t.size() == n && p.size() == n, "parray-size", q.size());
   for(int64_t i = 0; i < n; i++)
   {
      VH_CHECK(rd(*q.get((uint32)i)) == rd(*pm[(size_t)i]), "parray-sort", "element " << i);
      VH_CHECK(p[(uint32)i] == own[(size_t)i].get() && t.get((uint32)i) == p.get((uint32)i), "parray-element", "element " << i);
   }
   if(n)
   {
      std::vector<S*> have, want;
      for(int64_t i = 0; i < n; i++)
      {
         have.push_back(q.get((uint32)i));
         want.push_back(own[(size_t)i].get());
      }
      std::sort(have.begin(), have.end());
      std::sort(want.begin(), want.end());
      VH_CHECK(have == want, "parray-sort-lost", "sorting lost or duplicated an element");
   }
   for(uint32 x : {(uint32)n, (uint32)(n + r.range(0, 100)), (uint32)0xFFFFFFFFu, (uint32)0x80000000u})
   {
      bounds("Array<T*> get", [&]() { p.get(x); });
      bounds("Array<T*> set", [&]() { p.set(x, nullptr); });
      bounds("Array<T*> []", [&]() { p[x] = nullptr; });
   }
   // floats
   FloatArray f((uint32)n);
   std::vector<float> fm((size_t)n);
   for(int64_t i = 0; i < n; i++)
   {
      fm[(size_t)i] = (float)r.range(-5, 5) / 4;
      if(r.chance(0.5))f.Set((uint32)i, fm[(size_t)i]);
      else f[(uint32)i] = fm[(size_t)i];
   }
   FloatArray g(f), h{1.f, 2.f};
   VH_CHECK(h.Length() == 2 && h.Get(0) == 1.f && h.Get(1) == 2.f, "farray-list", "initialiser list");
   h = f;
   g.Sort();
   VH_CHECK(g.Length() == n && h.Length() == n, "farray-size", g.Length());
   for(int64_t i = 0; i < n; i++)VH_CHECK(h.Get((uint32)i) == fm[(size_t)i] && f[(uint32)i] == fm[(size_t)i], "farray-element", "element " << i);
   std::sort(fm.begin(), fm.end());
   for(int64_t i = 0; i < n; i++)VH_CHECK(g.Get((uint32)i) == fm[(size_t)i], "farray-sort", "element " << i);
   uint64_t fp = (uint64_t)n;
   for(auto& w : m)fp = mix(fp, hashU(w));
   distinct(fp);
   count("arrays");
}
// Long sequences: growth far beyond the first capacities, removals and sorting at that size.
VH_WORKLOAD(large, 40, 800)
{
   Rng& r = c.r;
   static const int64 Z[] = {63, 64, 65, 127, 255, 256, 257, 511, 1000, 1025, 2049};
   int64 n = r.chance(0.5) ? r.pick(Z) : r.range(60, 2500);
   switch(c.index % 4)
   {
      case 0:
      {
         std::unique_ptr<StringList> l(r.chance(0.5) ? new StringList() : new StringList(n / 3));
         std::vector<U> m((size_t)l->size());
         for(int64 k = l->size(); k < n; k++)
         {
            U w = word(r);
            if(r.chance(0.02))
            {
               // an element of the list itself
               if(m.size())
               {
                  size_t q = r.below(m.size());
                  w = m[q];
                  l->append((*l)[(int64)q]);
               }
               else l->append(mk(w));
            }
            else l->append(mk(w));
            m.push_back(w);
            if(r.chance(0.01))l->reserve(r.range(0, 300));
            if(r.chance(0.01)) { StringList* cp = new StringList(*l); l.reset(cp); }
            VH_CHECK(l->size() == (int64)m.size() && rd(l->get(l->size() - 1)) == w && rd(l->get(0)) == m[0], "sl-growth", "after " << k << " appends");
         }
         readSL(r, *l, m, "long StringList");
         U w = r.pick(m);
         if(r.chance(0.5))
         {
            // many equal elements, one after the other and scattered
            for(int k = (int)r.range(1, 6); k--;)
            {
               int64 from = r.range(0, l->size() - 1), len = r.range(1, 300), step = r.range(1, 3);
               for(int64 i = 0; i < len && from < l->size(); i++, from += step)
               {
                  l->set(from, mk(w));
                  m[(size_t)from] = w;
               }
            }
            if(r.chance(0.3))
            {
               for(int64 i = 0; i < l->size(); i++)l->set(i, mk(w));
               std::fill(m.begin(), m.end(), w);
               m.push_back(u"other");
               l->append(S("other"));
            }
            count("manyEqual");
         }
         l->remove(mk(w));
         m.erase(std::remove(m.begin(), m.end(), w), m.end());
         readSL(r, *l, m, "long StringList after a removal");
         StringList o(5), sorted(*l);
         o = *l;
         std::vector<U> ms = m;
         std::sort(ms.begin(), ms.end());
         sorted.sort();
         readSL(r, sorted, ms, "long StringList sorted");
         readSL(r, o, m, "long StringList assigned");
         l->clear();
         l->append(S("again"));
         readSL(r, *l, std::vector<U>{u"again"}, "long StringList filled again");
         break;
      }
      case 1:
      {
         int64 k = n * 12;
         std::vector<std::unique_ptr<Node>> pool;
         Node owner(0);
         LinkedList l(&owner);
         std::vector<Object*> m;
         for(int64 i = 0; i < k; i++)
         {
            pool.emplace_back(new Node((int)i));
            l.add(pool.back().get(), nullptr);
            m.push_back(pool.back().get());
         }
         readList(r, l, m, "long LinkedList");
         std::vector<Object*> keep;
         for(size_t i = 0; i < m.size(); i++)
         {
            // from the front, where finding is cheap
            if(i < 3000 && r.chance(0.5))VH_CHECK(l.remove(m[i], nullptr) == Status::eOK, "ll-remove-status", "element " << i);
            else keep.push_back(m[i]);
         }
         readList(r, l, keep, "long LinkedList after removals");
         l.clear(nullptr);
         l.add(m[0], nullptr);
         readList(r, l, std::vector<Object*> {m[0]}, "long LinkedList filled again");
         break;
      }
      case 2:
      {
         Stack<int64> s;
         std::deque<int64> m;
         for(int64 i = 0; i < n * 10; i++)
         {
            if(r.chance(0.7) || m.empty()) { int64 v = (int64)r.u64(); s.push(v); m.push_front(v); }
            else { VH_CHECK(s.pop() == m[0], "stack-pop", "at depth " << m.size()); m.pop_front(); }
            VH_CHECK(s.size() == m.size(), "stack-size", m.size());
         }
         s.reverse();
         std::reverse(m.begin(), m.end());
         while(m.size()) { VH_CHECK(s.hasElements() && s.pop() == m[0], "stack-pop", "at depth " << m.size() << " after reversing"); m.pop_front(); }
         VH_CHECK(!s.hasElements() && s.size() == 0, "stack-size", "emptied");
         break;
      }
      default:
      {
         n = std::min<int64>(n, 1100);
         Array<S> a(n);
         std::vector<U> m((size_t)n);
         Array<S*> p((uint32)n);
         FloatArray f((uint32)n);
         std::vector<float> fm((size_t)n);
         for(int64 i = 0; i < n; i++)
         {
            m[(size_t)i] = word(r);
            a[i] = mk(m[(size_t)i]);
            p.set((uint32)i, &a[i]);
            fm[(size_t)i] = (float)r.range(-500, 500) / 4;
            f.Set((uint32)i, fm[(size_t)i]);
         }
         Array<S> b(a), d(3);
         d = b;
         b.sort();
         p.sort();
         f.Sort();
         std::vector<U> ms = m;
         std::sort(ms.begin(), ms.end());
         std::sort(fm.begin(), fm.end());
         VH_CHECK(a.size() == n && b.size() == n && d.size() == n && p.size() == n && f.Length() == n, "array-size", n);
         for(int64 i = 0; i < n; i++)
         {
            VH_CHECK(rd(a.get(i)) == m[(size_t)i] && rd(d[i]) == m[(size_t)i], "array-element", "element " << i << " of " << n);
            VH_CHECK(rd(b.get(i)) == ms[(size_t)i], "array-sort", "element " << i << " of " << n);
            VH_CHECK(rd(*p.get((uint32)i)) == ms[(size_t)i], "parray-sort", "element " << i << " of " << n);
            VH_CHECK(f.Get((uint32)i) == fm[(size_t)i], "farray-sort", "element " << i << " of " << n);
         }
      }
   }
   distinct(mix((uint64_t)n, c.index % 4));
   count("longSequences");
}
VH_REQUIRE("longSequences", "manyEqual", "linkedLists", "removeWhileWalking", "clear", "sort", "ownElement", "reverse", "rejected", "arrays");
VH_DRIVER("P08", "After every step the sizes, both ends, list walks, iterators, element access, range loops, join, contains and sort results equal those of a std::vector/deque; indices outside the bounds throw")
