// Shared by the concurrency drivers: random delays at every mutex operation of the library, and a log of
// the order in which threads passed their steps. Only relaxed atomics, so that nothing here orders the
// threads for the race detector.
#ifndef SCHED_HPP
#define SCHED_HPP
#include <atomic>
#include <thread>
#include <sched.h>
#include <time.h>
#include <pthread.h>
namespace vh
{
   struct Sched
   {
      std::atomic<uint64_t> ticket{0};
      std::atomic<uint64_t> delays{0};
      std::atomic<int> level{0};
   };
   inline Sched& sched() { static Sched s; return s; }
   struct ThreadLog
   {
      uint64_t rng = 1;
      int id = 0;
      std::vector<std::pair<uint64_t, int>> steps;
   };
   inline ThreadLog*& tlog() { static thread_local ThreadLog* t = nullptr; return t; }
   inline uint64_t tnext(ThreadLog* t)
   {
      t->rng ^= t->rng << 13;
      t->rng ^= t->rng >> 7;
      t->rng ^= t->rng << 17;
      return t->rng;
   }
   inline void step(int what)
   {
      ThreadLog* t = tlog();
      if(t)t->steps.push_back({sched().ticket.fetch_add(1, std::memory_order_relaxed), what});
   }
   inline void delayPoint()
   {
      ThreadLog* t = tlog();
      if(!t)return;
      int l = sched().level.load(std::memory_order_relaxed);
      if(l == 0)return;
      uint64_t v = tnext(t) % 100;
      if((int)v >= l)return;
      sched().delays.fetch_add(1, std::memory_order_relaxed);
      uint64_t w = tnext(t) % 16;
      if(w < 10)sched_yield();
      else if(w < 15) { for(volatile int i = 0; i < (int)(tnext(t) % 3000); i = i + 1); }
      else { timespec ts{0, (long)(tnext(t) % 60000)}; nanosleep(&ts, nullptr); }
   }
   // Runs f(i) on n threads from a common start; returns a hash of the interleaving of their steps.
   inline uint64_t crew(Rng& r, int n, int level, std::function<void(int)> f)
   {
      std::vector<ThreadLog> logs((size_t)n);
      std::atomic<int> ready{0};
      sched().level.store(level, std::memory_order_relaxed);
      std::vector<std::thread> t;
      for(int i = 0; i < n; i++)
      {
         logs[(size_t)i].rng = r.u64() | 1;
         logs[(size_t)i].id = i;
         t.emplace_back([&, i]()
         {
            tlog() = &logs[(size_t)i];
            ready.fetch_add(1, std::memory_order_relaxed);
            while(ready.load(std::memory_order_relaxed) < n)sched_yield();
            f(i);
            tlog() = nullptr;
         });
      }
      for(auto& x : t)x.join();
      sched().level.store(0, std::memory_order_relaxed);
      std::vector<std::pair<uint64_t, int>> all;
      for(auto& l : logs)for(auto& s : l.steps)all.push_back({s.first, l.id * 1000 + s.second});
      std::sort(all.begin(), all.end());
      uint64_t h = 7;
      int last = -1;
      uint64_t switches = 0;
      for(auto& s : all)
      {
         h = mix(h ^ (uint64_t)s.second);
         if(last >= 0 && s.second / 1000 != last)switches++;
         last = s.second / 1000;
      }
      count("steps", all.size());
      count("switches", switches);
      return h;
   }
   inline void countDelays()
   {
      count("delays", sched().delays.exchange(0, std::memory_order_relaxed));
   }
}
extern "C"
{
   int __real_pthread_mutex_lock(pthread_mutex_t*);
   int __real_pthread_mutex_unlock(pthread_mutex_t*);
   int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
   {
      vh::delayPoint();
      int e = __real_pthread_mutex_lock(m);
      vh::delayPoint();
      return e;
   }
   int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
   {
      int e = __real_pthread_mutex_unlock(m);
      vh::delayPoint();
      return e;
   }
}
#endif
