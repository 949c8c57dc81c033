// P27: mutexes and threads.
// VH-CONFIG: variants=tsan asan
// VH-CONFIG: libs=-Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock -Wl,--wrap=pthread_create
// VH-CONFIG: hang=40
// VH-TECH: critical-section occupancy and thread life-cycle events (start, body, sleep, wake, interrupt, end) recorded over random schedules with injected delays and thread-creation failures, under ThreadSanitizer and ASan; lost wake-ups and lost interrupts show as hangs
#include "vh.hpp"
#include "sched.hpp"
#include <time.h>
#include <unistd.h>
using namespace vh;
using namespace jm;
static std::atomic<int> gFailCreate{0};
extern "C"
{
   int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
   struct Start { void* (*f)(void*); void* a; ThreadLog log; };
   static void* startWrapped(void* p)
   {
      Start* s = (Start*)p;
      tlog() = &s->log;    // threads of the library get delays, too; the record is kept (leaked) for the life of the thread
      delayPoint();
      return s->f(s->a);
   }
   int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg)
   {
      if(gFailCreate.load(std::memory_order_relaxed))return 11;   // EAGAIN
      static std::atomic<uint64_t> n{1};
      Start* s = new Start{f, arg, {}};
      s->log.rng = mix(n.fetch_add(1, std::memory_order_relaxed)) | 1;
      int e = __real_pthread_create(t, a, startWrapped, s);
      delayPoint();
      return e;
   }
}
static double now()
{
   timespec t;
   clock_gettime(CLOCK_MONOTONIC, &t);
   return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
struct MainDelays   // delays in the main thread as well
{
   ThreadLog log;
   MainDelays(Rng& r) { log.rng = r.u64() | 1; tlog() = &log; sched().level.store((int)r.pick(std::vector<int>{0, 10, 40, 80})); }
   ~MainDelays() { tlog() = nullptr; sched().level.store(0); countDelays(); }
};
VH_WORKLOAD(exclusion, 1500, 20000)
{
   Rng& r = c.r;
   int n = (int)r.range(2, 6), m = (int)r.range(1, 3), steps = (int)r.range(20, 150);
   std::vector<std::unique_ptr<jm::Mutex>> mx;
   for(int i = 0; i < m; i++)mx.emplace_back(new jm::Mutex());
   struct Sec { int64 plain = 0; std::atomic<int> in{0}; };
   std::vector<Sec> sec((size_t)m);
   std::vector<std::vector<int64>> done((size_t)n, std::vector<int64>((size_t)m, 0));
   std::atomic<int> together{0};
   std::vector<uint64_t> seeds;
   for(int i = 0; i < n; i++)seeds.push_back(r.u64());
   uint64_t h = crew(r, n, (int)r.pick(std::vector<int>{0, 5, 20, 60}), [&](int t)
   {
      Rng q(seeds[(size_t)t]);
      for(int s = 0; s < steps; s++)
      {
         size_t i = q.below((uint64_t)m), j = q.below((uint64_t)m);
         bool two = q.chance(0.2) && i < j;
         mx[i]->lock();
         if(two)mx[j]->lock();
         step((int)i);
         if(sec[i].in.fetch_add(1, std::memory_order_relaxed) != 0)together.fetch_add(1, std::memory_order_relaxed);
         if(two && sec[j].in.fetch_add(1, std::memory_order_relaxed) != 0)together.fetch_add(1, std::memory_order_relaxed);
         int64 v = sec[i].plain;
         if(q.chance(0.2))sched_yield();
         sec[i].plain = v + 1;
         done[(size_t)t][i]++;
         if(two) { sec[j].plain++; done[(size_t)t][j]++; }
         sec[i].in.fetch_sub(1, std::memory_order_relaxed);
         if(two)sec[j].in.fetch_sub(1, std::memory_order_relaxed);
         if(two && q.chance(0.5)) { mx[i]->unlock(); mx[j]->unlock(); }
         else { if(two)mx[j]->unlock(); mx[i]->unlock(); }
      }
   });
   distinct(h);
   countDelays();
   VH_CHECK(together == 0, "not-exclusive", together << " times two threads were in one section");
   for(int i = 0; i < m; i++)
   {
      int64 want = 0;
      for(int t = 0; t < n; t++)want += done[(size_t)t][(size_t)i];
      VH_CHECK(sec[(size_t)i].plain == want, "lost-update", sec[(size_t)i].plain << " expected " << want);
   }
   count("sections");
}
// Mutex::sleep() and wakeUp()
VH_WORKLOAD(mutexSleep, 150, 3000)
{
   Rng& r = c.r;
   jm::Mutex m;
   std::atomic<int> awake{0};
   int n = (int)r.range(1, 4);
   crew(r, n + 1, (int)r.pick(std::vector<int>{0, 20, 60}), [&](int t)
   {
      if(t < n)
      {
         step(1);
         m.sleep();
         step(2);
         awake.fetch_add(1, std::memory_order_relaxed);
         // the mutex is free again
         m.lock();
         m.unlock();
      }
      else while(awake.load(std::memory_order_relaxed) < n)
         {
            m.wakeUp();
            sched_yield();
         }
   });
   VH_CHECK(awake == n, "not-woken", awake);
   count("mutex-sleeps");
}
struct T: public jm::Thread
{
   int kind = 0, rounds = 0;
   uint64_t seed = 1;
   int64 ms = 0;
   // written by the body only, read after interrupt() returned
   int bodies = 0, loops = 0, wakes = 0;
   bool sawDead = false, main = false, ended = false;
   double slept = 0;
   std::string name;
   // shared
   int guarded = 0;
   std::atomic<int> phase{0}, woken{0};
   bool nameIt = false;
   void run() override
   {
      bodies++;
      ended = false;
      phase.store(1, std::memory_order_relaxed);
      main = isMainThread();
      Rng q(seed);
      switch(kind)
      {
         case 0:   // works until it is told to stop
            while(isAlive()) { loops++; lock(); guarded++; unlock(); if(q.chance(0.1))sched_yield(); }
            break;
         case 1:   // sleeps until it is told to stop
            while(isAlive()) { loops++; sleep(); woken.fetch_add(1, std::memory_order_relaxed); }
            break;
         case 2:   // sleeps for a long time, repeatedly
            while(isAlive()) { loops++; sleep(ms); woken.fetch_add(1, std::memory_order_relaxed); }
            break;
         case 3:   // ends by itself
            for(int i = 0; i < rounds; i++) { lock(); guarded++; unlock(); }
            break;
         case 4:   // one timed sleep
         {
            double a = now();
            sleep(ms);
            slept = now() - a;
            break;
         }
      }
      if(nameIt)
      {
         char b[64] = "";
         pthread_getname_np(pthread_self(), b, sizeof b);
         name = b;
      }
      sawDead = !isAlive();
      ended = true;
      phase.store(2, std::memory_order_relaxed);
   }
   void count1() { lock(); guarded++; unlock(); }
   int value() { lock(); int v = guarded; unlock(); return v; }
};
VH_WORKLOAD(interrupts, 2500, 40000)
{
   Rng& r = c.r;
   MainDelays md(r);
   T* t = new T();
   t->kind = (int)r.below(4);
   t->rounds = (int)r.below(50);
   t->seed = r.u64();
   t->ms = r.pick(std::vector<int64> {1, 5, 100000, 1000000000});
   VH_CHECK(!t->isAlive(), "alive-before-start", "");
   if(r.chance(0.1)) { t->interrupt(); VH_CHECK(!t->isAlive() && t->bodies == 0, "interrupt-unstarted", ""); count("interrupt-unstarted"); }
   int runs = (int)r.range(1, 3), mine = 0;
   uint64_t sig = (uint64_t)t->kind;
   for(int k = 1; k <= runs; k++)
   {
      if(r.chance(0.1))
      {
         gFailCreate = 1;
         bool threw = false;
         try { t->start(); }
         catch(jm::Exception&) { threw = true; }
         gFailCreate = 0;
         VH_CHECK(threw, "start-failure-silent", "");
         VH_CHECK(!t->isAlive(), "alive-after-failed-start", "");
         if(r.chance(0.5))t->interrupt();
         count("failed-starts");
      }
      t->phase = 0;
      int before = k - 1;
      t->start();
      int when = (int)r.below(5);
      VH_CHECK(t->isAlive() || t->kind == 3, "not-alive-after-start", "");
      switch(when)
      {
         case 0: break;                                          // at once
         case 1: while(t->phase.load(std::memory_order_relaxed) == 0)sched_yield(); break;   // body begun
         case 2: for(int i = (int)r.below(200); i--;)sched_yield(); break;
         case 3: for(int i = (int)r.below(20); i--;) { t->count1(); mine++; } break;
         case 4:
            if(t->kind == 1 || t->kind == 2)
            {
               // woken from outside before the time is over
               int w = t->woken.load(std::memory_order_relaxed);
               while(t->woken.load(std::memory_order_relaxed) == w) { t->wakeUp(); sched_yield(); }
               count("wakes");
            }
            break;
      }
      int seen = t->phase.load(std::memory_order_relaxed);
      t->interrupt();
      sig = mix(sig ^ (uint64_t)(when * 8 + seen));
      count(seen == 0 ? "interrupted-before-body" : seen == 1 ? "interrupted-in-body" : "interrupted-after-body");
      VH_CHECK(t->bodies == before + 1, "body-count", t->bodies << " bodies after " << before + 1 << " starts");
      VH_CHECK(t->ended, "interrupt-early", "interrupt() returned before the body ended");
      VH_CHECK(!t->isAlive(), "alive-after-interrupt", "");
      if(t->kind < 3)VH_CHECK(t->sawDead, "stop-not-seen", "");
      VH_CHECK(!t->main, "main-thread", "body took itself for the main thread");
      if(r.chance(0.2)) { t->interrupt(); count("interrupted-twice"); }
   }
   distinct(mix(sig ^ (uint64_t)t->loops));
   int want = mine + (t->kind == 0 ? t->loops : t->kind == 3 ? t->rounds * runs : 0);
   VH_CHECK(t->value() == want, "lost-update", t->value() << " expected " << want);
   VH_CHECK(jm::Thread::isMainThread(), "main-thread", "the main thread is not");
   t->release();
   System::autoreleasePool()->drain();
}
// Several threads at once, one guarded value
VH_WORKLOAD(many, 250, 4000)
{
   Rng& r = c.r;
   MainDelays md(r);
   std::vector<T*> v;
   for(int n = (int)r.range(2, 8); n--;)
   {
      T* t = new T();
      t->kind = (int)r.below(4);
      t->rounds = (int)r.below(100);
      t->ms = 1000000;
      t->seed = r.u64();
      v.push_back(t);
   }
   for(T* t : v)t->start();
   for(int i = (int)r.below(30); i--;)
   {
      T* t = v[r.below(v.size())];
      if(r.chance(0.5))t->wakeUp();
      else (void)t->isAlive();
   }
   for(T* t : v)
   {
      t->interrupt();
      VH_CHECK(t->ended && t->bodies == 1 && !t->isAlive(), "interrupt-early", "");
      t->release();
   }
   count("crowds");
}
// A sleep without a wake-up ends after its time: neither at once nor much later
VH_WORKLOAD(timed, 48, 600)
{
   Rng& r = c.r;
   static const int64 MS[] = {1, 3, 20, 60, 120, 250, 400};
   int64 ms = c.index % 16 == 8 ? r.range(1300, 1990) : c.index % 8 == 0 ? r.range(1001, 1400) : c.index % 8 == 1 ? r.range(990, 1000) : MS[r.below(7)];
   bool border = c.index % 8 > 3 || c.index % 16 == 8 || c.index % 16 == 9;
   double best = -1;
   for(int attempt = 0; attempt < 4; attempt++)
   {
      T t;
      t.kind = 4;
      t.ms = ms;
      if(border)   // begins just before the next full second
      {
         timeval tv;
         gettimeofday(&tv, nullptr);
         long wait = 1000000 - tv.tv_usec - (long)((ms % 1000) * 500);
         if(wait > 0)usleep((useconds_t)wait);
         count(ms > 1000 ? "long-border" : "second-border");
      }
      beat();
      t.start();
      while(t.phase.load(std::memory_order_relaxed) < 2)usleep(500);
      t.interrupt();
      best = t.slept;
      count("timed");
      if(best >= 0.9 * (double)ms / 1000 && best < (double)ms / 1000 + 2)break;
      count("timed-retries");
   }
   VH_CHECK(best >= 0.9 * (double)ms / 1000, "slept-short", "sleep(" << ms << ") took " << best << " s");
   VH_CHECK(best < (double)ms / 1000 + 2, "slept-long", "sleep(" << ms << ") took " << best << " s");
}
// However long a sleep is to last (up to the largest number there is), it does not end before it is woken
VH_WORKLOAD(endless, 60, 800)
{
   Rng& r = c.r;
   static const int64 LONG[] = {INT64_MAX, INT64_MAX - 1, INT64_MAX / 2, INT64_MAX / 1000, INT64_MAX / 1000000, INT64_MAX / 1000000 + 1, 9223372036854LL + 5, 18446744073709LL,
      18446744073710LL, 4294967296LL, 4294967295LL, 2147483648LL, 2147483647LL, 4294967296LL * 1000, 86400000LL, 3600000, 60000};
   int64 ms = r.chance(0.5) ? LONG[r.below(sizeof LONG / sizeof *LONG)] : (int64)(r.u64() >> r.range(1, 45));
   if(ms < 60000)ms += 60000;
   T t;
   t.kind = 4;
   t.ms = ms;
   t.start();
   while(t.phase.load(std::memory_order_relaxed) < 1)usleep(100);
   usleep((useconds_t)r.range(40000, 80000));
   int ph = t.phase.load(std::memory_order_relaxed);
   t.interrupt();
   VH_CHECK(ph == 1, "slept-short", "sleep(" << ms << ") ended before it was woken, after " << t.slept << " s");
   VH_CHECK(t.slept < 30, "slept-long", "sleep(" << ms << ") took " << t.slept << " s although it was woken");
   count("endless");
}
VH_WORKLOAD(names, 40, 200)
{
   Rng& r = c.r;
   T t;
   t.kind = 1;
   t.nameIt = true;
   std::string n;
   for(int i = (int)r.range(1, 15); i--;)n += (char)r.range('a', 'z');
   t.start();
   t.setName(jm::String(n.c_str()));
   t.interrupt();
   // without a thread there is nothing to be named
   if(r.chance(0.5))t.setName(jm::String(n.c_str()));
   if(r.chance(0.5))
   {
      T u;
      u.setName(jm::String(n.c_str()));
      count("named-unstarted");
   }
   VH_CHECK(t.name == n, "name", t.name << " expected " << n);
   count("names");
}
VH_REQUIRE("sections", "mutex-sleeps", "wakes", "interrupted-before-body", "interrupted-in-body", "interrupted-after-body", "interrupted-twice", "interrupt-unstarted", "failed-starts", "crowds", "timed", "endless", "second-border", "long-border", "names", "named-unstarted", "delays")
VH_DRIVER("P27", "never two threads in one section; one body per start; interrupt() stops, and returns after the body; sleeps end in time or when woken")
