// P25: object lifetimes.
// VH-TECH: random histories of create/copy/assign/retain/release/autorelease/drain over an ownership graph against a reference-count model, destructor events recorded as they happen, under ASan (use after free, double free) with live-heap accounting
#include "vh.hpp"
#include <deque>
#include <sys/wait.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vh;
using namespace jm;
struct W;
static W* gW = nullptr;
struct Obj;
struct Rec   // what the model knows of one object
{
   int refs = 1;         // owners, including pending entries in the pool
   bool dead = false, real = false, high = false;
   Obj* p = nullptr;
   std::vector<int> kids;   // objects owned by this one
   bool late = false;       // hands its kids to the pool in its destructor instead of releasing them
};
struct W
{
   std::vector<Rec> v;
   std::deque<int> pool;
   std::set<int> order, want;      // destructions observed / expected
   std::vector<int> owned;         // one entry per reference held by the history
};
struct Obj: public Object
{
   int id;
   std::string pad;
   Obj(int i): id(i), pad(20, 'x') {}
   Obj(const Obj& o, int i): Object(o), id(i), pad(o.pad) {}
   Obj& operator=(const Obj& o) { Object::operator=(o); pad = o.pad; return *this; }
   ~Obj() override;
};
Obj::~Obj()
{
   gW->order.insert(id);
   Rec& r = gW->v[(size_t)id];
   if(r.real)fail("destroyed-twice", "object " + std::to_string(id));
   r.real = true;
   for(int k : r.kids)
   {
      Obj* o = gW->v[(size_t)k].p;
      if(r.late)o->autorelease(); else o->release();
   }
}
static void drop(W& w, int i)
{
   Rec& r = w.v[(size_t)i];
   if(--r.refs)return;
   r.dead = true;
   w.want.insert(i);
   for(int k : r.kids)if(r.late)w.pool.push_back(k); else drop(w, k);
}
static void drainModel(W& w)
{
   std::deque<int> d;
   d.swap(w.pool);
   for(int i : d)drop(w, i);
}
static void compare(W& w, const char* op)
{
   VH_CHECK(w.order == w.want, w.order.size() > w.want.size() ? "destroyed-early" : w.order.size() < w.want.size() ? "not-destroyed" : "destroyed-other",
            "after " << op << ": " << w.order.size() << " objects destroyed, expected " << w.want.size());
   for(size_t i = 0; i < w.v.size(); i++)
   {
      Rec& r = w.v[i];
      if(r.dead)continue;
      VH_CHECK(r.p->referenceCount() == r.refs, "count", "after " << op << ": count of object " << i << " is " << r.p->referenceCount() << " expected " << r.refs);
      VH_CHECK(r.p->highBit() == r.high, "flag", "after " << op << ": flag of object " << i << " is " << r.p->highBit());
      VH_CHECK(r.p->id == (int)i && r.p->pad.size() == 20, "content", "after " << op);
   }
}
static void history(Rng& r, int steps, bool quit)
{
   W w;
   gW = &w;
   uint64_t sig = 0;
   std::vector<size_t> cand;
   auto owned = [&]() { return w.owned[r.below(w.owned.size())]; };
   const char* op = "";
   for(int s = 0; s < steps; s++)
   {
      if(s == 0 || w.owned.empty() || (w.v.size() < 60 && r.chance(0.2)))
      {
         int id = (int)w.v.size();
         w.v.emplace_back();
         Obj* p;
         if(w.owned.size() && r.chance(0.3))
         {
            int from = owned();
            p = new Obj(*w.v[(size_t)from].p, id);
            op = "copy";
            count("copies");
         }
         else { p = new Obj(id); op = "create"; }
         Rec& rec = w.v.back();
         rec.p = p;
         rec.late = r.chance(0.3);
         // own some of what is reachable: ids are smaller, so the graph has no cycle
         if(w.owned.size())for(int k = (int)r.below(3); k--;)
            {
               int o = owned();
               w.v[(size_t)o].p->retain();
               w.v[(size_t)o].refs++;
               rec.kids.push_back(o);
            }
         w.owned.push_back(id);
         sig = mix(sig ^ 1);
      }
      else switch(r.below(7))
         {
            case 0:
            {
               op = "retain";
               int o = owned();
               VH_CHECK(w.v[(size_t)o].p->retain() == w.v[(size_t)o].p, "retain-result", o);
               w.v[(size_t)o].refs++;
               w.owned.push_back(o);
               count("retains");
               break;
            }
            case 1: case 2:
            {
               op = "release";
               size_t k = r.below(w.owned.size());
               int o = w.owned[k];
               w.owned.erase(w.owned.begin() + (long)k);
               Obj* p = w.v[(size_t)o].p;
               drop(w, o);
               p->release();
               count("releases");
               break;
            }
            case 3:
            {
               op = "autorelease";
               size_t k = r.below(w.owned.size());
               int o = w.owned[k];
               w.owned.erase(w.owned.begin() + (long)k);
               w.pool.push_back(o);
               VH_CHECK(w.v[(size_t)o].p->autorelease() == w.v[(size_t)o].p, "autorelease-result", o);
               count("autoreleases");
               break;
            }
            case 4:
            {
               op = "flag";
               int o = owned();
               bool f = r.chance(0.5);
               w.v[(size_t)o].p->setHighBit(f);
               w.v[(size_t)o].high = f;
               count("flags");
               break;
            }
            case 5:
            {
               op = "assign";
               int a = owned(), b = owned();
               *w.v[(size_t)a].p = *w.v[(size_t)b].p;
               count("assignments");
               break;
            }
            case 6:
               if(r.chance(0.4))
               {
                  op = "drain";
                  // objects handed to the pool by destructors may need another round
                  do { drainModel(w); System::autoreleasePool()->drain(); }
                  while(w.pool.size());
                  count("drains");
               }
               break;
         }
      sig = mix(sig ^ (uint64_t)w.want.size() ^ w.owned.size() << 8 ^ w.pool.size() << 20 ^ hashStr(op));
      compare(w, op);
   }
   distinct(sig);
   for(int o : w.owned)
   {
      Obj* p = w.v[(size_t)o].p;
      if(quit || r.chance(0.5)) { w.pool.push_back(o); p->autorelease(); }
      else { drop(w, o); p->release(); }
   }
   w.owned.clear();
   compare(w, "letting go");
   if(quit)
   {
      while(w.pool.size())drainModel(w);
      System::quit();
      VH_CHECK(w.order == w.want, "not-destroyed", "quit: " << w.order.size() << " objects destroyed, expected " << w.want.size());
   }
   else
   {
      for(int n = 0; w.pool.size(); n++)
      {
         drainModel(w);
         System::autoreleasePool()->drain();
         if(n)count("late-drains");
      }
      compare(w, "last drains");
   }
   for(size_t i = 0; i < w.v.size(); i++)VH_CHECK(w.v[i].real, "not-destroyed", "object " << i << " remains after all owners are gone");
   count("objects", w.v.size());
   gW = nullptr;
}
VH_WORKLOAD(histories, 40000, 400000)
{
   history(c.r, (int)c.r.range(1, c.r.chance(0.02) ? 2000 : 120), false);
}
// System::quit() is final, so each history ends in a process of its own
VH_WORKLOAD(quit, 300, 3000)
{
   int fd[2];
   if(pipe(fd))throw Skip();
   pid_t pid = fork();
   if(pid == 0)
   {
      std::string bad;
      try { history(c.r, (int)c.r.range(1, 60), true); }
      catch(Violation& v) { bad = v.key + "|" + v.msg; }
      catch(...) { bad = "unexpected-exception|in the child"; }
      if(bad.size() && write(fd[1], bad.data(), bad.size()) < 0)_exit(1);
      _exit(0);
   }
   close(fd[1]);
   std::string bad;
   char b[4096];
   for(ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;)bad.append(b, (size_t)n);
   close(fd[0]);
   int status = 0;
   waitpid(pid, &status, 0);
   eval();
   count("quits");
   if(bad.size())fail(bad.substr(0, bad.find('|')), bad.substr(bad.find('|') + 1));
   if(status != 0)
   {
      // run it here, so that the report of the sanitizer is the one of this case
      history(c.r, (int)c.r.range(1, 60), true);
      fail("quit-crashed", "child ended with status " + std::to_string(status));
   }
}
// What the library's own objects own is given back with them
struct Early: public Object
{
   int n = 0;
};
static Early gEarly;   // created before System::init()
VH_WORKLOAD(early, 4, 4)
{
   for(int i = 0; i < 100; i++)
   {
      VH_CHECK(gEarly.retain() == &gEarly, "early-retain", "");
      VH_CHECK(gEarly.autorelease() == &gEarly, "early-autorelease", "");
      gEarly.release();
      System::autoreleasePool()->drain();
      gEarly.setHighBit(i & 1);
      VH_CHECK(gEarly.highBit() == ((i & 1) != 0) && gEarly.referenceCount() == 1, "early-state", gEarly.referenceCount());
   }
   gEarly.setHighBit(false);
   count("early");
}
// A long life: counts far above those of the histories, and heap use back at the start
VH_WORKLOAD(heap, 60, 600)
{
   Rng& r = c.r;
   for(int k = 0; k < 3; k++)
   {
      size_t before = __sanitizer_get_current_allocated_bytes();
      {
         W w;
         gW = &w;
         w.v.resize(1);
         int n = (int)r.range(1, 30000);
         Obj* o = new Obj(0);
         for(int i = 0; i < n; i++)o->retain();
         VH_CHECK(o->referenceCount() == n + 1, "count", o->referenceCount() << " expected " << n + 1);
         o->setHighBit(true);
         int out = 0;
         for(int i = 0; i < n; i++)if(r.chance(0.5))o->release(); else { o->autorelease(); out++; }
         VH_CHECK(o->referenceCount() == out + 1 && o->highBit(), "count", o->referenceCount() << " expected " << out + 1);
         System::autoreleasePool()->drain();
         VH_CHECK(o->referenceCount() == 1 && w.order.empty(), "count", o->referenceCount());
         o->release();
         VH_CHECK(w.order.size() == 1, "not-destroyed", "");
         gW = nullptr;
      }
      size_t after = __sanitizer_get_current_allocated_bytes();
      if(k)VH_CHECK(after <= before, "leak", after - before << " bytes more");
      count("heap");
   }
}
VH_REQUIRE("copies", "retains", "releases", "autoreleases", "flags", "assignments", "drains", "quits", "late-drains", "objects", "early", "heap")
VH_DRIVER("P25", "every object destroyed exactly when the reference-count model says so; counts and flags as modelled; heap returns to start")
