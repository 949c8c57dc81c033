// Common harness for all property drivers: seeded case loop, violation log, coverage counters,
// crash/hang bookkeeping through a shared memory file that the Python runner reads.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <exception>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include "core/Core.h"

namespace vh
{
   inline uint64_t mix(uint64_t z)
   {
      z += 0x9E3779B97F4A7C15ull;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
   }
   inline uint64_t mix(uint64_t a, uint64_t b)
   {
      return mix(a * 31 + mix(b));
   }
   inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
   {
      const unsigned char* c = (const unsigned char*)p;
      for(size_t i = 0; i < n; i++)
      {
         h ^= c[i];
         h *= 1099511628211ull;
      }
      return mix(h ^ n);
   }
   inline uint64_t hashStr(const std::string& s)
   {
      return hashBytes(s.data(), s.size());
   }

   struct Rng
   {
      uint64_t s;
      explicit Rng(uint64_t seed = 1): s(mix(seed)) {}
      uint64_t u64()
      {
         s += 0x9E3779B97F4A7C15ull;
         uint64_t z = s;
         z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
         z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
         return z ^ (z >> 31);
      }
      // uniform in [0,n)
      uint64_t below(uint64_t n)
      {
         return n ? u64() % n : 0;
      }
      // uniform in [lo,hi]
      int64_t range(int64_t lo, int64_t hi)
      {
         return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
      }
      bool chance(double p)
      {
         return (double)(u64() >> 11) / 9007199254740992.0 < p;
      }
      double unit()
      {
         return (double)(u64() >> 11) / 9007199254740992.0;
      }
      double real(double lo, double hi)
      {
         return lo + unit() * (hi - lo);
      }
      template<class T, size_t N> const T& pick(const T(&v)[N])
      {
         return v[below(N)];
      }
      template<class T> const T& pick(const std::vector<T>& v)
      {
         return v[below(v.size())];
      }
   };

   // A length close to a power of two between 16 and 2^maxBits, where buffers, counters and windows have their limits.
   inline int64_t borderLength(Rng& r, int maxBits)
   {
      int64_t n = ((int64_t)1 << r.range(4, maxBits)) + r.range(-3, 3);
      if(r.chance(0.15))n += n / 2;
      return n;
   }

   struct Violation: std::exception
   {
      std::string key, msg;
      Violation(std::string k, std::string m): key(std::move(k)), msg(std::move(m)) {}
   };
   struct Skip {};

   inline std::string jesc(const std::string& s)
   {
      std::string o;
      char b[8];
      for(unsigned char c : s)
      {
         if(c == '"' || c == '\\')
         {
            o += '\\';
            o += (char)c;
         }
         else if(c < 32 || c > 126)
         {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
         }
         else o += (char)c;
      }
      return o;
   }

   struct Shared
   {
      uint64_t workload, index, beat, active;
   };

   struct State
   {
      std::string prop;
      uint64_t seed = 1;
      bool thorough = false;
      int shard = 0, shards = 1;
      std::string out;
      Shared dummy{};
      Shared* sh = &dummy;
      FILE* viol = nullptr;
      uint64_t violations = 0;
      std::map<std::string, uint64_t> counters;
      std::unordered_set<uint64_t> distinct;
      std::vector<std::string> samples;
      uint64_t evals = 0;
      uint64_t cases = 0;
      std::string scratch;
      bool replay = false;
   };
   inline State& st()
   {
      static State s;
      return s;
   }

   inline void count(const char* name, uint64_t n = 1)
   {
      st().counters[name] += n;
   }
   inline void count(const std::string& name, uint64_t n = 1)
   {
      st().counters[name] += n;
   }
   // Registers a distinct non-trivial case/state fingerprint.
   inline void distinct(uint64_t h)
   {
      if(st().distinct.size() < 400000)st().distinct.insert(h);
   }
   inline void sample(const std::string& s)
   {
      if(st().samples.size() < 4)st().samples.push_back(s.substr(0, 400));
   }
   inline void eval(uint64_t n = 1)
   {
      st().evals += n;
   }
   inline bool thorough()
   {
      return st().thorough;
   }
   inline bool replaying()
   {
      return st().replay;
   }
   inline void beat()
   {
      st().sh->beat++;
   }

   [[noreturn]] inline void fail(const std::string& key, const std::string& msg)
   {
      throw Violation(key, msg);
   }

   struct Msg
   {
      std::ostringstream o;
      Msg()
      {
         o.precision(17);
      }
      template<class T> Msg& operator<<(const T& v)
      {
         if constexpr(std::is_same_v<T, char16_t>)o << "U+" << (unsigned)v;
         else if constexpr(std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>)o << (int)v;
         else o << v;
         return *this;
      }
      operator std::string() const
      {
         return o.str();
      }
   };

#define VH_CHECK(cond, key, msg) \
   do { ::vh::eval(); if(!(cond)) { ::vh::Msg m__; m__ << msg; ::vh::fail(key, m__.o.str()); } } while(0)

   struct Case
   {
      Rng r;
      uint64_t index;
      uint64_t seed;
   };

   struct Workload
   {
      std::string name;
      uint64_t quick, thoroughN;
      std::function<void(Case&)> fn;
      int onlyShard; // -1: all shards, else runs only in shard (onlyShard % shards)
   };
   inline std::vector<Workload>& workloads()
   {
      static std::vector<Workload> w;
      return w;
   }
   struct Reg
   {
      Reg(const char* n, uint64_t q, uint64_t t, std::function<void(Case&)> f)
      {
         workloads().push_back({n, q, t, std::move(f), -1});
      }
   };
#define VH_WORKLOAD(name, q, t) \
   static void vh_w_##name(::vh::Case& c); \
   static ::vh::Reg vh_r_##name(#name, q, t, vh_w_##name); \
   static void vh_w_##name(::vh::Case& c)

   // Counters that must be non-zero at the end of a complete run (runner checks the merged sums).
   inline std::vector<std::string>& required()
   {
      static std::vector<std::string> r;
      return r;
   }
   struct Req
   {
      Req(std::initializer_list<const char*> l)
      {
         for(auto x : l)required().push_back(x);
      }
   };
#define VH_CAT2(a,b) a##b
#define VH_CAT(a,b) VH_CAT2(a,b)
#define VH_REQUIRE(...) static ::vh::Req VH_CAT(vh_req_, __LINE__){__VA_ARGS__};

   inline std::string describeRule()
   {
      return "";
   }

   inline std::string excText(const jm::Exception& e)
   {
      jm::String s = const_cast<jm::Exception&>(e).errorMessage();
      jm::ByteArray b = s.toCString();
      return std::string(b.constData() ? b.constData() : "", (size_t)b.size());
   }

   inline void report(const std::string& w, uint64_t idx, const std::string& key, const std::string& msg)
   {
      State& s = st();
      s.violations++;
      if(s.viol)
      {
         fprintf(s.viol, "{\"workload\":\"%s\",\"index\":%llu,\"key\":\"%s\",\"msg\":\"%s\"}\n", jesc(w).c_str(),
                 (unsigned long long)idx, jesc(key).c_str(), jesc(msg.substr(0, 4000)).c_str());
         fflush(s.viol);
      }
      if(s.replay)fprintf(stderr, "VIOL %s[%llu] key=%s\n%s\n", w.c_str(), (unsigned long long)idx, key.c_str(), msg.c_str());
   }

   // implemented by the driver through VH_DRIVER
   struct DriverInfo
   {
      const char* id;
      const char* rule;
   };

   inline int runMain(int argc, char** argv, DriverInfo info, std::function<void()> setup, std::function<void()> teardown)
   {
      State& s = st();
      s.prop = info.id;
      std::string only, cur, violf, distf;
      uint64_t from = 0;
      double scale = 1.0;
      std::string startAt;
      for(int a = 1; a < argc; a++)
      {
         std::string k = argv[a];
         auto val = [&]() -> std::string { return a + 1 < argc ? argv[++a] : ""; };
         if(k == "--seed")s.seed = strtoull(val().c_str(), nullptr, 0);
         else if(k == "--thorough")s.thorough = true;
         else if(k == "--shard")s.shard = atoi(val().c_str());
         else if(k == "--shards")s.shards = atoi(val().c_str());
         else if(k == "--out")s.out = val();
         else if(k == "--only")only = val();
         else if(k == "--cur")cur = val();
         else if(k == "--viol")violf = val();
         else if(k == "--distinct")distf = val();
         else if(k == "--scale")scale = atof(val().c_str());
         else if(k == "--start-after")startAt = val();
         else if(k == "--scratch")s.scratch = val();
         else if(k == "--replay")s.replay = true;
         else if(k == "--list")
         {
            for(auto& w : workloads())printf("%s %llu %llu\n", w.name.c_str(), (unsigned long long)w.quick, (unsigned long long)w.thoroughN);
            return 0;
         }
      }
      if(cur.size())
      {
         int fd = open(cur.c_str(), O_RDWR | O_CREAT, 0600);
         if(fd >= 0 && ftruncate(fd, 4096) == 0)
         {
            void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if(p != MAP_FAILED)s.sh = (Shared*)p;
         }
      }
      if(violf.size())s.viol = fopen(violf.c_str(), "a");
      if(s.scratch.empty())s.scratch = "/tmp";
      setup();

      std::string ow;
      uint64_t oi = 0;
      bool single = false;
      if(only.size())
      {
         size_t p = only.find(':');
         ow = only.substr(0, p);
         if(p != std::string::npos)
         {
            oi = strtoull(only.c_str() + p + 1, nullptr, 10);
            single = true;
         }
      }
      uint64_t saw = 0, sai = 0;
      bool hasStart = false;
      if(startAt.size())
      {
         size_t p = startAt.find(':');
         saw = strtoull(startAt.c_str(), nullptr, 10);
         sai = strtoull(startAt.c_str() + p + 1, nullptr, 10);
         hasStart = true;
      }
      (void)from;

      for(size_t w = 0; w < workloads().size(); w++)
      {
         Workload& wl = workloads()[w];
         if(ow.size() && wl.name != ow)continue;
         uint64_t n = s.thorough ? wl.thoroughN : wl.quick;
         if(n > 16)
         {
            n = (uint64_t)((double)n * scale);
            if(n < 1)n = 1;
         }
         for(uint64_t i = 0; i < n || single; i++)
         {
            if(single)i = oi;
            else
            {
               if((int)((i + w) % s.shards) != s.shard)continue;
               if(hasStart && (w < saw || (w == saw && i <= sai)))continue;
            }
            s.sh->workload = w;
            s.sh->index = i;
            s.sh->active = 1;
            s.sh->beat++;
            Case c{Rng(mix(s.seed * 1000003ull + hashStr(wl.name)) ^ mix(i + 77)), i, s.seed};
            s.cases++;
            try
            {
               wl.fn(c);
            }
            catch(Skip&)
            {}
            catch(Violation& v)
            {
               report(wl.name, i, v.key, v.msg);
            }
            catch(jm::Exception& e)
            {
               report(wl.name, i, "unexpected-exception", "jm::Exception: " + excText(e));
            }
            catch(jm::Exception* e)
            {
               report(wl.name, i, "unexpected-exception", "jm::Exception* thrown: " + excText(*e));
            }
            catch(std::exception& e)
            {
               report(wl.name, i, "unexpected-exception", std::string("std::exception: ") + e.what());
            }
            catch(...)
            {
               report(wl.name, i, "unexpected-exception", "unknown exception type");
            }
            if(single)break;
            if(s.violations >= 25)break;
         }
         if(s.violations >= 25)break;
      }
      s.sh->active = 2; // finishing
      teardown();

      if(s.out.size())
      {
         FILE* f = fopen(s.out.c_str(), "w");
         fprintf(f, "{\"cases\":%llu,\"evals\":%llu,\"violations\":%llu,\"rule\":\"%s\",\"counters\":{", (unsigned long long)s.cases,
                 (unsigned long long)s.evals, (unsigned long long)s.violations, jesc(info.rule).c_str());
         bool first = true;
         for(auto& kv : s.counters)
         {
            fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second);
            first = false;
         }
         fprintf(f, "},\"required\":[");
         first = true;
         for(auto& r : required())
         {
            fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(r).c_str());
            first = false;
         }
         fprintf(f, "],\"samples\":[");
         first = true;
         for(auto& x : s.samples)
         {
            fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str());
            first = false;
         }
         fprintf(f, "]}\n");
         fclose(f);
      }
      if(distf.size())
      {
         FILE* f = fopen(distf.c_str(), "wb");
         for(uint64_t h : s.distinct)fwrite(&h, 8, 1, f);
         fclose(f);
      }
      if(s.viol)fclose(s.viol);
      fflush(stdout);
      fflush(stderr);
      s.sh->active = 3;
      return s.violations ? 10 : 0;
   }

   inline void defaultSetup()
   {
      jm::System::init("de.verif.harness");
   }
   inline void noTeardown() {}
}

#define VH_DRIVER(id, rule) \
   int main(int argc, char** argv) { return ::vh::runMain(argc, argv, {id, rule}, ::vh::defaultSetup, ::vh::noTeardown); }
#define VH_DRIVER2(id, rule, setup, teardown) \
   int main(int argc, char** argv) { return ::vh::runMain(argc, argv, {id, rule}, setup, teardown); }

namespace vh
{
   // ---- helpers shared by drivers ----
   typedef std::u16string U;
   inline jm::String mk(const U& u)
   {
      return jm::String((const uint16*)u.data(), (int64)u.size());
   }
   inline U rd(const jm::String& s)
   {
      U u;
      int64 n = s.size();
      if(n < 0 || n > (1 << 28))fail("string-size", Msg() << "size() returned " << n);
      u.resize((size_t)n);
      for(int64 i = 0; i < n; i++)u[(size_t)i] = (char16_t)s.charAt(i).unicode();
      return u;
   }
   inline std::string show(const U& u)
   {
      std::string o = "\"";
      char b[8];
      for(char16_t c : u)
      {
         if(c >= 32 && c < 127)o += (char)c;
         else
         {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
         }
         if(o.size() > 600)
         {
            o += "...";
            break;
         }
      }
      return o + "\"(" + std::to_string(u.size()) + ")";
   }
   inline std::string show(const jm::String& s)
   {
      return show(rd(s));
   }
   inline std::string hex(const void* p, size_t n, size_t lim = 200)
   {
      std::string o;
      char b[4];
      for(size_t i = 0; i < n && i < lim; i++)
      {
         snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]);
         o += b;
      }
      if(n > lim)o += "...(" + std::to_string(n) + ")";
      return o;
   }
   inline std::string hex(const std::string& s)
   {
      return hex(s.data(), s.size());
   }
   inline std::string bytesOf(const jm::ByteArray& b)
   {
      if(b.size() <= 0)return std::string();
      return std::string(b.constData(), (size_t)b.size());
   }
   inline uint64_t hashU(const U& u)
   {
      return hashBytes(u.data(), u.size() * 2);
   }
}
#endif
