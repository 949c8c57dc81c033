// P28: logging.
// VH-CONFIG: variants=tsan asan
// VH-CONFIG: libs=-Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock
// VH-TECH: many threads log under ThreadSanitizer with injected delays while settings change and the last error is read; the captured standard output is checked line by line (each message once, whole, in order per thread)
#include "vh.hpp"
#include "sched.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <iostream>
using namespace vh;
using namespace jm;
static int gOut = -1;
static void clearOut()
{
   std::cout.flush();
   fflush(stdout);
   if(ftruncate(gOut, 0))abort();
   lseek(gOut, 0, SEEK_SET);
}
static std::string readOut()
{
   std::cout.flush();
   fflush(stdout);
   off_t n = lseek(gOut, 0, SEEK_END);
   std::string s((size_t)n, '\0');
   if(pread(gOut, &s[0], (size_t)n, 0) != n)abort();
   return s;
}
struct Msg1
{
   LogLevel level;
   std::string text;   // UTF-8
};
static std::string text(Rng& q, int t, int s)
{
   static const char* P[] = {"%s%d", "ERROR: ", "[x] ", "\xc3\xa4", "\xe2\x82\xac", "\xe4\xb8\x80", "\xc4\x8a", "\xd0\x80", "\xf0\x9f\x98\x80", "\xc4\x8d", "\t", "a", " ", "\\n", "\x1b[0", "]"};
   std::string m = "<" + std::to_string(t) + ":" + std::to_string(s) + ">";
   for(int k = (int)q.below(q.chance(0.02) ? 3000 : 12); k--;)m += P[q.below(16)];
   return m + "<end>";
}
// Standard output carries Windows-1252; what that does not have is replaced by something harmless (0x1 here)
static std::string printed(const std::string& utf8)
{
   std::string o;
   for(char16_t ch : rd(jm::String(utf8.c_str())))o += ch == 0x20ac ? '\x80' : ch < 256 ? (char)ch : '\x1';
   return o;
}
static bool same(const std::string& got, const std::string& want)
{
   if(got.size() != want.size())return false;
   for(size_t i = 0; i < got.size(); i++)if(want[i] == '\x1' ? (unsigned char)got[i] < 32 : got[i] != want[i])return false;
   return true;
}
static LogLevel level(Rng& q)
{
   static const LogLevel L[] = {LogLevel::kDebug, LogLevel::kInformation, LogLevel::kWarning, LogLevel::kError};
   return L[q.below(4)];
}
static const char* label(LogLevel l)
{
   return l == LogLevel::kError ? "ERROR: " : l == LogLevel::kWarning ? "WARNING: " : l == LogLevel::kInformation ? "INFO: " : "DEBUG: ";
}
static bool isDate(const std::string& s)
{
   // [2026-11-19T22:48:58.123Z] 
   static const char F[] = "[dddd-dd-ddTdd:dd:dd.dddZ] ";
   if(s.size() != sizeof F - 1)return false;
   for(size_t i = 0; i < s.size(); i++)if(F[i] == 'd' ? !isdigit((unsigned char)s[i]) : s[i] != F[i])return false;
   return true;
}
// Takes one line apart: [date] colour label message reset. date/labelled: 1 yes, 0 no, -1 either.
static void line(const std::string& l, const Msg1& m, int date, int labelled)
{
   std::string s = l;
   if(date != 0 && s.size() >= 27 && isDate(s.substr(0, 27)))s = s.substr(27);
   else VH_CHECK(date != 1, "date-missing", l);
   if(m.level >= LogLevel::kWarning)
   {
      std::string col = std::string(kTxtBold) + (m.level == LogLevel::kError ? kTxtRed : kTxtYellow);
      VH_CHECK(s.compare(0, col.size(), col) == 0, "colour", show(mk(U(s.begin(), s.end()))));
      s = s.substr(col.size());
      std::string rs = kTxtReset;
      VH_CHECK(s.size() >= rs.size() && s.compare(s.size() - rs.size(), rs.size(), rs) == 0, "reset", l);
      s.resize(s.size() - rs.size());
   }
   std::string lb = label(m.level);
   std::string want = printed(m.text);
   if(labelled != 0 && same(s, lb + want))return;
   VH_CHECK(labelled != 1 && same(s, want), "text", "line " << show(mk(U(s.begin(), s.end()))) << " for " << m.text);
}
VH_WORKLOAD(single, 6000, 60000)
{
   Rng& r = c.r;
   bool date = r.chance(0.5);
   LogLevel from = level(r);
   System::logEnableDate(date);
   System::logEnableLabel(from);
   clearOut();
   std::vector<Msg1> want;
   std::string lastError = bytesOf(System::lastErrorMessage().toCString());
   for(int n = (int)r.range(1, 8), i = 0; i < n; i++)
   {
      Msg1 m{level(r), text(r, 0, i)};
      if(r.chance(0.1))
      {
         // nothing but a few blanks or nothing at all
         m.text = std::string(r.below(3), ' ');
         count("blank");
      }
      System::log(jm::String(m.text.c_str()), m.level);
      if(m.level != LogLevel::kDebug)want.push_back(m);
      else count("suppressed");
      if(m.level == LogLevel::kError)lastError = m.text;
      VH_CHECK(bytesOf(System::lastErrorMessage().toCString()) == lastError, "last-error", lastError);
   }
   std::string out = readOut();
   size_t pos = 0;
   for(auto& m : want)
   {
      size_t e = out.find('\n', pos);
      VH_CHECK(e != std::string::npos, "lost", m.text);
      line(out.substr(pos, e - pos), m, date, m.level >= from);
      pos = e + 1;
      count("lines");
   }
   VH_CHECK(pos == out.size(), "extra-output", out.substr(pos, 200));
   distinct(hashBytes(out.data() + (date ? 0 : 0), out.size()));
   // a text without a faithful encoding does not stop the log
   if(r.chance(0.05))
   {
      U u = u"odd";
      u += (char16_t)r.range(0xD800, 0xDFFF);
      try { System::log(mk(u), level(r)); }
      catch(jm::Exception&) {}
      count("odd");
   }
}
VH_WORKLOAD(crowd, 700, 9000)
{
   Rng& r = c.r;
   int n = (int)r.range(2, 6), steps = (int)r.range(5, 60);
   bool toggles = r.chance(0.4);
   System::logEnableDate(true);
   System::logEnableLabel(LogLevel::kWarning);
   clearOut();
   std::vector<uint64_t> seeds;
   for(int i = 0; i < n; i++)seeds.push_back(r.u64());
   std::vector<std::vector<Msg1>> sent((size_t)n);
   std::vector<std::vector<std::string>> errorsSeen((size_t)n);
   uint64_t h = crew(r, n, (int)r.pick(std::vector<int>{0, 5, 20, 60}), [&](int t)
   {
      Rng q(seeds[(size_t)t]);
      for(int s = 0; s < steps; s++)
      {
         if(toggles && q.chance(0.1)) { System::logEnableDate(q.chance(0.5)); System::logEnableLabel(level(q)); }
         if(q.chance(0.2))errorsSeen[(size_t)t].push_back(bytesOf(System::lastErrorMessage().toCString()));
         Msg1 m{level(q), text(q, t, s)};
         sent[(size_t)t].push_back(m);
         jm::String str(m.text.c_str());
         step((int)m.level);
         System::log(str, m.level);
      }
   });
   distinct(h);
   countDelays();
   std::string out = readOut();
   std::vector<size_t> next((size_t)n, 0);
   std::string lastError;
   std::set<std::string> errors;
   size_t pos = 0, lines = 0;
   while(pos < out.size())
   {
      size_t e = out.find('\n', pos);
      VH_CHECK(e != std::string::npos, "unfinished-line", out.substr(pos, 200));
      std::string l = out.substr(pos, e - pos);
      pos = e + 1;
      size_t k = l.find('<');
      VH_CHECK(k != std::string::npos, "foreign-line", l.substr(0, 200));
      int t = -1, s = -1;
      VH_CHECK(sscanf(l.c_str() + k, "<%d:%d>", &t, &s) == 2 && t >= 0 && t < n && s >= 0 && s < steps, "mixed-line", l.substr(0, 200));
      size_t& x = next[(size_t)t];
      while(x < sent[(size_t)t].size() && sent[(size_t)t][x].level == LogLevel::kDebug)x++;
      VH_CHECK((size_t)s == x, (size_t)s < x ? "twice-or-late" : "lost", "thread " << t << " message " << s << " expected " << x);
      x++;
      const Msg1& m = sent[(size_t)t][(size_t)s];
      line(l, m, toggles ? -1 : 1, toggles ? -1 : m.level >= LogLevel::kWarning);
      if(m.level == LogLevel::kError)lastError = m.text, errors.insert(m.text);
      lines++;
   }
   for(int t = 0; t < n; t++)
   {
      size_t x = next[(size_t)t];
      while(x < sent[(size_t)t].size() && sent[(size_t)t][x].level == LogLevel::kDebug)x++;
      VH_CHECK(x == sent[(size_t)t].size(), "lost", "thread " << t << " message " << x << " never appeared");
   }
   if(lastError.size())VH_CHECK(bytesOf(System::lastErrorMessage().toCString()) == lastError, "last-error", "is not the error logged last");
   for(auto& v : errorsSeen)for(auto& e : v)
      {
         // whole: an error of this case, or one from before
         bool ok = errors.count(e) || e.empty() || (e.size() > 6 && e.compare(e.size() - 5, 5, "<end>") == 0) || e.compare(0, 3, "odd") == 0;
         VH_CHECK(ok, "torn-error", e.substr(0, 200));
         count("errors-read");
      }
   count("crowd-lines", lines);
}
static void setup()
{
   defaultSetup();
   std::string p = st().scratch + "/stdout.txt";
   if(!freopen(p.c_str(), "w+", stdout))abort();
   gOut = fileno(stdout);
}
static void teardown() {}
VH_REQUIRE("lines", "suppressed", "crowd-lines", "errors-read", "odd", "switches", "delays")
VH_DRIVER2("P28", "each printed line is one whole message, each message above debug level is printed once and in order per thread, the last error is the one logged last", setup, teardown)
