// P45: exceptions carry their message and origin.
// VH-CONFIG: variants=asan tsan
// VH-CONFIG: libs=-Wl,--wrap=backtrace -Wl,--wrap=backtrace_symbols
// VH-TECH: exceptions with generated messages thrown through generated call chains, caught by reference or value, copied, assigned to several owners and rethrown, also by many threads at once under ThreadSanitizer; stack frames and their failure are generated at link time and the trace compared with them; console and last error are compared with one log per construction
#include "vh.hpp"
#include <thread>
#include <atomic>
#include <execinfo.h>
using namespace vh;
using namespace jm;
struct Quiet
{
   std::ostringstream o, e;
   std::streambuf* a, *b;
   Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); }
   ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
// ---- generated stack frames ----
static thread_local const std::vector<std::string>* gFrames = nullptr;
static thread_local bool gNoMemory = false;
static thread_local int gAsked = 0;
extern "C" {
   int __real_backtrace(void**, int);
   char** __real_backtrace_symbols(void* const*, int);
   int __wrap_backtrace(void** a, int n)
   {
      if(!gFrames)return __real_backtrace(a, n);
      gAsked = n;
      int k = std::min(n, (int)gFrames->size());
      for(int i = 0; i < k; i++)a[i] = (void*)&(*gFrames)[(size_t)i];
      return k;
   }
   char** __wrap_backtrace_symbols(void* const* a, int n)
   {
      if(!gFrames)return __real_backtrace_symbols(a, n);
      if(gNoMemory)return nullptr;
      size_t size = (size_t)n * sizeof(char*);
      for(int i = 0; i < n; i++)size += ((const std::string*)a[i])->size() + 1;
      char** r = (char**)malloc(size + 1);
      char* p = (char*)(r + n);
      for(int i = 0; i < n; i++)
      {
         r[i] = p;
         strcpy(p, ((const std::string*)a[i])->c_str());
         p += strlen(p) + 1;
      }
      return r;
   }
}
static U message(Rng& r)
{
   U u;
   int64_t n = r.chance(0.1) ? 0 : r.chance(0.05) ? borderLength(r, 12) : r.range(1, 30);
   while(n-- > 0)u += r.chance(0.9) ? (char16_t)r.range(32, 126) : r.chance(0.5) ? (char16_t)r.range(0xA1, 0xFF) : (char16_t)r.range(0x400, 0x4FF);
   if(r.chance(0.1))u += u"%1 %s \r\n";
   return u;
}
static std::vector<std::string> frames(Rng& r)
{
   std::vector<std::string> v;
   for(int n = r.chance(0.1) ? 0 : (int)r.range(1, 14); n--;)
   {
      std::string s = "./app(";
      for(int k = r.chance(0.05) ? (int)r.range(1000, 3000) : (int)r.range(0, 40); k--;)s += (char)r.range('A', 'z');
      v.push_back(s + "+0x" + std::to_string(r.below(1000)) + ") [0x" + std::to_string(r.below(1000000)) + "]");
   }
   return v;
}
static size_t occurrences(const std::string& s, const std::string& w)
{
   size_t n = 0;
   for(size_t p = 0; (p = s.find(w, p)) != std::string::npos; p += w.size())n++;
   return n;
}
__attribute__((noinline)) static void deep(int depth, int style, const U& m, const jm::Exception* again)
{
   if(depth > 0)
   {
      if(style % 3 == 0)
      {
         try { deep(depth - 1, style / 3, m, again); }
         catch(const jm::Exception&) { throw; }
      }
      else if(style % 3 == 1)
      {
         try { deep(depth - 1, style / 3, m, again); }
         catch(jm::Exception e) { throw jm::Exception(e); }
      }
      else { volatile int keep = depth; deep(depth - 1, style / 3, m, again); keep = 0; }
      return;
   }
   if(again)throw jm::Exception(*again);
   throw jm::Exception(mk(m));
}
// The lines of the trace after the first one
static void judge(const jm::Exception& e, const U& m, const std::vector<std::string>* f, const char* when)
{
   VH_CHECK(rd(e.errorMessage()) == m, "message", when << ": " << show(e.errorMessage()) << " instead of " << show(m));
   std::string t = bytesOf(e.GetStrackTrace().toCString()), text = bytesOf(mk(m).toCString());
   VH_CHECK(t.find(text) != std::string::npos, "trace-message", when << ": the trace lacks the message");
   if(!f)return;
   size_t at = t.find(text) + text.size(), n = std::min<size_t>(f->size(), 10);
   for(size_t i = 1; i < n; i++)
   {
      size_t p = t.find((*f)[i], at);
      VH_CHECK(p != std::string::npos, "trace-frame", when << ": frame " << i << " of " << n << " is missing or out of order in " << t.size() << " bytes of trace");
      at = p + (*f)[i].size();
   }
   size_t lines = (size_t)std::count(t.begin() + (long)(t.find(text) + text.size()), t.end(), '\n');
   VH_CHECK(lines <= n + 1 && lines >= (n ? n : 1), "trace-lines", when << ": " << lines << " lines for " << n << " frames");
}
VH_WORKLOAD(carry, 6000, 120000)
{
   Rng& r = c.r;
   U m = message(r), last = m;
   auto f = frames(r);
   bool generated = r.chance(0.7), real = !generated;
   std::vector<std::unique_ptr<jm::Exception>> kept;
   {
      Quiet q;
      gFrames = generated ? &f : nullptr;
      int depth = (int)r.range(0, 9), style = (int)r.below(20000);
      bool thrown = false;
      auto out = [&] { std::cout.flush(); return q.o.str(); };
      std::string before;
      try { deep(depth, style, m, nullptr); }
      catch(const jm::Exception& e)
      {
         thrown = true;
         before = out();
         judge(e, m, generated ? &f : nullptr, "caught");
         kept.emplace_back(new jm::Exception(e));
      }
      VH_CHECK(thrown, "thrown", "no exception arrives");
      VH_CHECK(rd(System::lastErrorMessage()) == m, "last-error", show(System::lastErrorMessage()) << " instead of " << show(m));
      // once on the console, and no copy adds anything
      U ascii;
      for(char16_t ch : m)if(ch >= 32 && ch < 127)ascii += ch;
      if(ascii == m && m.size() > 3)
      {
         std::string text = bytesOf(mk(m).toCString());
         size_t own = occurrences(text + "\n", text);
         VH_CHECK(occurrences(before, text) == own, "logged", "the message is on the console " << occurrences(before, text) << " times");
         count("loggedOnce");
      }
      jm::String other("something else");
      System::log(other, LogLevel::kError);
      std::string now = out();
      for(int k = (int)r.range(1, 5); k--;)
      {
         const jm::Exception& src = *kept[r.below(kept.size())];
         if(r.chance(0.5))kept.emplace_back(new jm::Exception(src));
         else
         {
            try { deep((int)r.below(4), (int)r.below(100), m, &src); }
            catch(jm::Exception e) { kept.emplace_back(new jm::Exception(e)); }
         }
         if(r.chance(0.4) && kept.size() > 1)kept.erase(kept.begin() + (long)r.below(kept.size()));
      }
      VH_CHECK(out() == now && System::lastErrorMessage().equals(other), "copy-logs", "copying an exception logs '" << out().substr(now.size()) << "'");
      std::vector<jm::String> t;
      for(auto& e : kept)
      {
         judge(*e, m, generated ? &f : nullptr, "copied");
         t.push_back(e->GetStrackTrace());
      }
      for(auto& x : t)VH_CHECK(x.equals(t[0]), "trace-equal", "copies have different traces");
      const jm::Exception& any = *kept[r.below(kept.size())];
      any.printStackTrace();
      std::cout.flush();
      std::cerr.flush();
      std::string printed = q.e.str() + q.o.str().substr(now.size());
      if(ascii == m)
      {
         VH_CHECK(printed.find(bytesOf(mk(m).toCString())) != std::string::npos, "print-message", printed.substr(0, 200));
         size_t at = 0;
         if(generated)for(size_t i = 1; i < std::min<size_t>(f.size(), 10); i++)
            {
               size_t p = printed.find(f[i], at);
               VH_CHECK(p != std::string::npos, "print-frame", "frame " << i);
               at = p + f[i].size();
            }
         count("printed");
      }
      gFrames = nullptr;
   }
   count(real ? "realFrames" : f.size() > 10 ? "manyFrames" : f.empty() ? "noFrames" : "fewFrames");
   distinct(mix(hashU(m), f.size()));
}
// No memory for the names of the frames
VH_WORKLOAD(memory, 400, 4000)
{
   Rng& r = c.r;
   Quiet q;
   U m = message(r);
   auto f = frames(r);
   gFrames = &f;
   gNoMemory = true;
   bool thrown = false;
   try { deep((int)r.below(4), (int)r.below(100), m, nullptr); }
   catch(const jm::Exception& e)
   {
      thrown = true;
      jm::Exception copy(e);
      gNoMemory = false;
      judge(e, m, nullptr, "without memory");
      judge(copy, m, nullptr, "without memory");
      copy.printStackTrace();
   }
   gNoMemory = false;
   gFrames = nullptr;
   VH_CHECK(thrown, "thrown", "no exception arrives");
   count("noMemory");
   distinct(mix(hashU(m), f.size()));
}
// Real calls of the library that are documented to throw
VH_WORKLOAD(library, 2000, 40000)
{
   Rng& r = c.r;
   Quiet q;
   std::string text;
   for(int k = (int)r.range(1, 20); k--;)text += (char)r.range('a', 'z');
   jm::String s(text.c_str());
   System::log("none", LogLevel::kError);
   bool thrown = false;
   int kind = (int)r.below(4);
   U m;
   try
   {
      switch(kind)
      {
         case 0: s.charAt(r.chance(0.5) ? -1 - (int64)r.below(5) : s.size() + (int64)r.below(5)); break;
         case 1: { File f("/tmp", s); File g(f, ""); break; }
         case 2: s.substring((int64)text.size() + 1 + (int64)r.below(9)); break;
         default: { StringList l; l.append(s); l.get(1 + (int64)r.below(5)); break; }
      }
   }
   catch(const jm::Exception& e)
   {
      thrown = true;
      m = rd(e.errorMessage());
      VH_CHECK(m.size() > 0, "empty-message", "kind " << kind);
      VH_CHECK(rd(System::lastErrorMessage()) == m, "last-error", "kind " << kind << ": " << show(System::lastErrorMessage()) << " instead of " << show(m));
   }
   count(thrown ? "throws" + std::to_string(kind) : "accepts" + std::to_string(kind));
   distinct(hashU(m) + (uint64_t)kind);
}
// Many threads
static void sut(Rng q, int id, std::string* wrong)
{
   for(int k = 0; k < 12 && wrong->empty(); k++)
   {
      U m = message(q);
      m += (char16_t)('0' + id);
      std::vector<std::string> f = frames(q);
      gFrames = q.chance(0.5) ? &f : nullptr;
      bool arrived = false;
      try { deep((int)q.below(5), (int)q.below(300), m, nullptr); }
      catch(const jm::Exception& e)
      {
         arrived = true;
         jm::Exception copy(e);
         if(rd(e.errorMessage()) != m || rd(copy.errorMessage()) != m)*wrong = "another message";
         std::string t = bytesOf(copy.GetStrackTrace().toCString());
         if(gFrames)for(size_t i = 1; i < std::min<size_t>(f.size(), 10); i++)if(t.find(f[i]) == std::string::npos)*wrong = "a frame is missing";
      }
      if(!arrived)*wrong = "no exception arrives";
   }
   gFrames = nullptr;
}
VH_WORKLOAD(threads, 60, 1200)
{
   Rng& r = c.r;
   Quiet q;
   int n = (int)r.range(2, 6);
   std::vector<std::string> wrong((size_t)n);
   std::vector<std::thread> t;
   for(int i = 0; i < n; i++)t.emplace_back(sut, Rng(r.u64()), i, &wrong[(size_t)i]);
   for(auto& x : t)x.join();
   for(auto& x : wrong)VH_CHECK(x.empty(), "threads", x);
   count("threads", (uint64_t)n);
   distinct(r.u64());
}
// Constructed in one thread, copied and printed in others
static std::string printed(const jm::Exception& e, Quiet& q)
{
   q.e.str("");
   q.o.str("");
   e.printStackTrace();
   std::cerr.flush();
   std::cout.flush();
   return q.e.str() + q.o.str();
}
VH_WORKLOAD(origin, 300, 3000)
{
   Rng& r = c.r;
   Quiet q;
   int n = (int)r.range(2, 5);
   std::vector<std::unique_ptr<jm::Exception>> e;
   std::vector<std::string> text;
   std::vector<U> messages;
   // All origins are alive at the same time, so that they are different threads
   std::atomic<int> ready{0}, turn{0};
   for(int i = 0; i < n; i++)
   {
      e.emplace_back();
      text.emplace_back();
      messages.push_back(r.chance(0.2) ? U() : message(r));
   }
   U same = message(r);
   bool equal = r.chance(0.5);
   std::vector<std::thread> t;
   for(int i = 0; i < n; i++)t.emplace_back([&, i]
   {
      ready++;
      while(ready < n)std::this_thread::yield();
      while(turn != i)std::this_thread::yield();
      std::vector<std::string> none;
      gFrames = &none;
      e[(size_t)i].reset(new jm::Exception(mk(equal ? same : messages[(size_t)i])));
      text[(size_t)i] = printed(*e[(size_t)i], q);
      gFrames = nullptr;
      turn++;
      while(turn < n)std::this_thread::yield();
   });
   for(auto& x : t)x.join();
   for(int i = 0; i < n; i++)
   {
      std::string where = "exception " + std::to_string(i) + " of " + std::to_string(n);
      VH_CHECK(printed(*e[(size_t)i], q) == text[(size_t)i], "origin-moved", where << ": printed by another thread it is " << q.e.str().substr(0, 200) << " instead of " << text[(size_t)i].substr(0, 200));
      jm::Exception copy(*e[(size_t)i]), again(copy);
      VH_CHECK(printed(again, q) == text[(size_t)i], "origin-copy", where << ": its copy prints " << q.e.str().substr(0, 200) << " instead of " << text[(size_t)i].substr(0, 200));
      try { throw copy; }
      catch(const jm::Exception& x)
      {
         VH_CHECK(printed(x, q) == text[(size_t)i], "origin-rethrown", where << ": rethrown it prints " << q.e.str().substr(0, 200));
      }
      if(equal)for(int k = 0; k < i; k++)VH_CHECK(text[(size_t)k] != text[(size_t)i], "origin-same", where << ": two threads print " << text[(size_t)i].substr(0, 200));
   }
   count("origins", (uint64_t)n);
   distinct(r.u64());
}
VH_REQUIRE("origins", "realFrames", "manyFrames", "noFrames", "fewFrames", "loggedOnce", "printed", "noMemory", "threads")
VH_DRIVER("P45", "message and frames of every caught and copied exception are those of the one constructed; one log per construction")
