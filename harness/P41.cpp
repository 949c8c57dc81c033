// P41: verdicts of the unit-test framework.
// VH-TECH: generated test classes whose every check has a known verdict, run by test vectors (all, one selected, repeated, with exceptions); counters, returned number, destroyed tests and the printed report are compared with the expected verdicts; ASan+UBSan
#include "vh.hpp"
using namespace vh;
using namespace jm;
struct Quiet
{
   std::ostringstream o, e;
   std::streambuf* a, *b;
   Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); }
   ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
static size_t occurrences(const std::string& s, const std::string& w)
{
   size_t n = 0;
   for(size_t p = 0; (p = s.find(w, p)) != std::string::npos; p += w.size())n++;
   return n;
}
struct Step { int kind; bool good; uint64_t seed; std::string msg; };
static int gAlive = 0, gRuns = 0;
static std::vector<int> gOrder;
static int64_t I(Rng& r, int64_t lo, int64_t hi) { return r.chance(0.3) ? (r.chance(0.5) ? lo : hi) : r.chance(0.5) ? r.range(std::max<int64_t>(lo, -3), std::min<int64_t>(hi, 3)) : (int64_t)((uint64_t)lo + r.below((uint64_t)hi - (uint64_t)lo)); }
struct Script: public jm::Test
{
   int id;
   std::vector<Step> steps;
   int throwAt = -1;
   bool checkCounters = true;
   std::string wrong;
   Script(int i, const std::string& name): id(i) { gAlive++; setName(jm::String(name.c_str())); }
   ~Script() override { gAlive--; }
   static const int KINDS = 18;
   void one(const Step& s)
   {
      Rng r(s.seed);
      jm::String m(s.msg.c_str());
      bool g = s.good;
      auto other = [&](int64_t a, int64_t lo, int64_t hi) { if(g)return a; int64_t b; do b = I(r, lo, hi); while(b == a); return b; };
      switch(s.kind)
      {
         case 0: { int64 a = I(r, INT64_MIN, INT64_MAX); testEquals(a, (int64)other(a, INT64_MIN, INT64_MAX), m); break; }
         case 1: { int32 b = (int32)I(r, INT32_MIN, INT32_MAX); int64 a = g ? b : r.chance(0.5) ? (int64)b + (r.chance(0.5) ? (1ll << 32) : -(1ll << 32)) : other(b, INT64_MIN, INT64_MAX); testEquals(a, b, m); break; }
         case 2: { uint64 a = (uint64)I(r, INT64_MIN, INT64_MAX); testEquals(a, (uint64)other((int64)a, INT64_MIN, INT64_MAX), m); break; }
         case 3: { int32 b = (int32)I(r, 0, INT32_MAX); uint64 a = g ? (uint64)b : r.chance(0.5) ? (uint64)b + (1ull << 32) : (uint64)other(b, INT64_MIN, INT64_MAX); testEquals(a, b, m); break; }
         case 4: { uint32 b = (uint32)I(r, 0, UINT32_MAX); uint64 a = g ? (uint64)b : r.chance(0.5) ? (uint64)b + (1ull << 32) : (uint64)other(b, INT64_MIN, INT64_MAX); testEquals(a, b, m); break; }
         case 5: { int32 a = (int32)I(r, INT32_MIN, INT32_MAX); testEquals(a, (int32)other(a, INT32_MIN, INT32_MAX), m); break; }
         case 6: { uint32 a = (uint32)I(r, 0, UINT32_MAX); testEquals(a, (uint32)other(a, 0, UINT32_MAX), m); break; }
         case 7: { uint32 a = (uint32)I(r, 0, INT32_MAX); int32 b = (int32)a; if(!g) { a = (uint32)I(r, 0, UINT32_MAX); do b = r.chance(0.3) ? (int32)a : (int32)I(r, INT32_MIN, INT32_MAX); while((int64_t)a == b); if(r.chance(0.3)) { a = 0xFFFFFFFFu; b = -1; } } testEquals(a, b, m); break; }
         case 8: { int32 a = (int32)I(r, 0, INT32_MAX); uint32 b = (uint32)a; if(!g) { if(r.chance(0.3)) { a = -1; b = 0xFFFFFFFFu; } else do { a = (int32)I(r, INT32_MIN, INT32_MAX); b = (uint32)I(r, 0, UINT32_MAX); } while((int64_t)b == a); } testEquals(a, b, m); break; }
         case 9:
         {
            double a = r.chance(0.5) ? r.real(-10, 10) : r.real(-1e6, 1e6), b = a;
            if(g)b = a + r.real(-0.9e-6, 0.9e-6);
            else b = a + (r.chance(0.5) ? 1 : -1) * (r.chance(0.5) ? 1.2e-6 : r.real(1e-5, 1e6));
            if(r.chance(0.2)) { double inf = INFINITY; a = r.chance(0.5) ? inf : -inf; b = g ? a : r.chance(0.5) ? -a : r.real(-1e9, 1e9); }
            else if(!g && r.chance(0.2))(r.chance(0.5) ? a : b) = NAN;
            testEquals(a, b, m);
            break;
         }
         case 10: { std::string t = r.chance(0.3) ? "" : std::string(r.chance(0.03) ? (size_t)borderLength(r, 13) : r.below(30), (char)r.range('a', 'z')), u = t; if(!g) { if(t.size() && r.chance(0.5))u[r.below(u.size())] ^= 0x20; else u += "x"; } testEquals(jm::String(t.c_str()), jm::String(u.c_str()), m); break; }
         case 11: { std::string t = std::string(r.below(20), (char)r.range('a', 'z')), u = t; for(auto& q : u)if(r.chance(0.5))q ^= 0x20; if(!g)u += r.chance(0.5) ? "1" : "a"; testEqualsIgnoreCase(jm::String(t.c_str()), jm::String(u.c_str()), m); break; }
         case 12: testNull(g ? nullptr : (void*)this, m); break;
         case 13: testNotNull(g ? (const void*)this : nullptr, m); break;
         case 14: testTrue(g, m); break;
         case 15: testFalse(!g, m); break;
         case 16: { char* a = (char*)this, *b = g ? a : r.chance(0.5) ? nullptr : a + 1; testEquals((void*)a, (void*)b, m); break; }
         case 17: if(!g) { if(r.chance(0.5))testFail(m); else testUnexpectedException(m); } break;   // never succeeds: nothing to count then
      }
   }
   void doTest() override
   {
      gOrder.push_back(id);
      gRuns++;
      int64_t n = 0, e = 0;
      for(size_t i = 0; i <= steps.size(); i++)
      {
         if((int)i == throwAt)throw jm::Exception(jm::String(("thrown-" + std::to_string(id) + "-").c_str()));
         if(i == steps.size())break;
         int64_t t0 = gTotalTestCount, e0 = gTotalErrorCount;
         one(steps[i]);
         bool counted = steps[i].kind != 17 || !steps[i].good;
         n += counted;
         e += !steps[i].good;
         if(wrong.empty() && (gTotalTestCount - t0 != counted || gTotalErrorCount - e0 != !steps[i].good))
            wrong = "check of kind " + std::to_string(steps[i].kind) + " with verdict " + (steps[i].good ? "good" : "bad") + " counts " + std::to_string(gTotalTestCount - t0) + " tests and " + std::to_string(gTotalErrorCount - e0) + " errors";
         if(wrong.empty() && (gTestCount != n || gErrorCount != e))wrong = "after " + std::to_string(n) + " checks of one test its counters are " + std::to_string(gTestCount) + " and " + std::to_string(gErrorCount) + " with " + std::to_string(e) + " errors";
      }
   }
};
VH_WORKLOAD(vectors, 4000, 60000)
{
   Rng& r = c.r;
   int n = r.chance(0.05) ? 0 : r.chance(0.05) ? (int)r.range(20, r.chance(0.05) ? 700 : 60) : (int)r.range(1, 6);
   if(n > 256)count("longVectors");
   std::string tag = "t" + std::to_string(r.below(100000)) + "x";
   // which tests run
   std::string arg;
   int64_t single = -1;
   const char* argv[3] = {"program", nullptr, "more"};
   int argc = 1;
   if(r.chance(0.4))
   {
      switch(r.below(4))
      {
         case 0: arg = "all"; break;
         case 1: arg = ""; break;
         case 2: single = r.range(0, n + 1); arg = std::to_string(single); break;
         default: arg = "x" + std::to_string(r.below(9)); break;
      }
      argv[1] = arg.c_str();
      argc = r.chance(0.3) ? 3 : 2;
   }
   gAlive = 0;
   gOrder.clear();
   struct Want { int64_t tests = 0, errors = 0; std::string name; };
   std::vector<Want> want;
   std::vector<Script*> tests;
   std::vector<int> order;
   int64_t total = 0, bad = 0;
   std::vector<std::string> failing, passing;
   {
      TestVector v(argc, argv);
      for(int i = 0; i < n; i++)
      {
         Want w;
         w.name = tag + "-name-" + std::to_string(i) + "-";
         Script* s = new Script(i, w.name);
         bool allGood = r.chance(0.3);
         for(int k = r.chance(0.05) ? (int)r.range(100, r.chance(0.01) ? 3000 : 400) : (int)r.range(0, 12); k--;)
         {
            Step x{(int)r.below(Script::KINDS), allGood || r.chance(0.7), r.u64(), tag + "-msg-" + std::to_string(i) + "-" + std::to_string(k) + "-"};
            if(r.chance(0.02)) { x.msg += r.chance(0.5) ? "100% %1 %s \\n \"q\" <a>&" : std::string((size_t)borderLength(r, 11), '.'); count("oddMessages"); }
            s->steps.push_back(x);
         }
         if(r.chance(0.2))s->throwAt = (int)r.below(s->steps.size() + 1);
         bool run = single < 0 || single == i;
         size_t done = s->throwAt >= 0 ? (size_t)s->throwAt : s->steps.size();
         for(size_t k = 0; k < s->steps.size(); k++)
         {
            const Step& x = s->steps[k];
            bool counted = x.kind != 17 || !x.good;
            if(k < done) { w.tests += counted; w.errors += !x.good; }
            if(run && k < done && !x.good)failing.push_back(x.msg);
            else passing.push_back(x.msg);
            count("checks");
         }
         if(s->throwAt >= 0) { w.tests++; w.errors++; if(run) { failing.push_back("thrown-" + std::to_string(i) + "-"); count("exceptions"); } }
         if(run) { order.push_back(i); total += w.tests; bad += w.errors; }
         want.push_back(w);
         tests.push_back(s);
         v.addTest(s);
         if(r.chance(0.05))v.addTest(nullptr), n = i + 1;   // ignored; only at the end, so that the numbers stay
         if(n == i + 1)break;
      }
      for(int rep = r.chance(0.3) ? 2 : 1; rep--;)
      {
         gOrder.clear();
         std::string out;
         int64_t got;
         {
            Quiet q;
            got = v.execute();
            out = q.o.str();
         }
         for(auto t : tests)VH_CHECK(t->wrong.empty(), "verdict", t->wrong);
         VH_CHECK(gOrder == order, "order", gOrder.size() << " tests ran instead of " << order.size() << " with argument '" << arg << "' of " << n);
         VH_CHECK(got == bad, "returned", "returned " << got << " with " << bad << " errors");
         VH_CHECK(gTotalTestCount == total && gTotalErrorCount == bad, "totals", gTotalTestCount << " tests, " << gTotalErrorCount << " errors instead of " << total << ", " << bad);
         for(auto& f : failing)VH_CHECK(f[0] == 't' && f[1] == 'h' ? occurrences(out, f) >= 1 : occurrences(out, f) == 1, "message", "the message " << f << " of a failed check appears " << occurrences(out, f) << " times");
         for(auto& f : passing)VH_CHECK(occurrences(out, f) == 0, "message-of-good", "the message of a check that did not fail appears");
         // the report names each test that ran with its numbers, in order
         std::istringstream in(out);
         std::string line;
         size_t k = 0;
         int64_t sumT = -1, sumE = -1;
         bool open = false;
         while(std::getline(in, line))
         {
            long long a, b;
            size_t p;
            if(line.find(tag + "-name-") != std::string::npos)
            {
               VH_CHECK(!open && k < order.size() && line.find(want[(size_t)order[k]].name) != std::string::npos, "report-order", line);
               open = true;
            }
            else if((p = line.find("Test finished! ")) != std::string::npos && sscanf(line.c_str() + p, "Test finished! %lld Tests, %lld Errors.", &a, &b) == 2)
            {
               VH_CHECK(open, "report-order", line);
               const Want& w = want[(size_t)order[k]];
               VH_CHECK(a == w.tests && b == w.errors, "report", "'" << line << "' instead of " << w.tests << " and " << w.errors);
               open = false;
               k++;
            }
            else if((p = line.find("Tests: ")) != std::string::npos)sumT = atoll(line.c_str() + p + 7);
            else if((p = line.find("Errors: ")) != std::string::npos)sumE = atoll(line.c_str() + p + 8);
         }
         VH_CHECK(k == order.size(), "reports", k << " tests reported instead of " << order.size());
         VH_CHECK(sumT == total && sumE == bad, "summary", "the summary says " << sumT << " tests and " << sumE << " errors instead of " << total << " and " << bad);
         count("vectors");
         if(bad)count("withErrors");
         else count("withoutErrors");
         if(single >= 0)count("selected");
      }
      VH_CHECK(gAlive == (int)tests.size(), "owned", gAlive);
   }
   VH_CHECK(gAlive == 0, "destroyed", gAlive << " tests left after the vector is gone");
   distinct(mix((uint64_t)total * 1000 + (uint64_t)bad, hashStr(arg)));
}
VH_REQUIRE("longVectors", "oddMessages", "checks", "exceptions", "vectors", "withErrors", "withoutErrors", "selected")
VH_DRIVER("P41", "verdict, counters, order, messages, report and returned number of every run vector")
