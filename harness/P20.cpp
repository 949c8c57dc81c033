// P20: preferences survive saving and loading.
// VH-TECH: random histories of settings saved to and loaded from real files over several cycles against a map model; file bytes compared between cycles, hand-written file variants, allocation-growth monitor; ASan+UBSan
#include "vh.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vh;
using namespace jm;
typedef std::map<U, U> M;
static bool wsChar(char16_t k) { return jm::Char((uint16)k).isWhitespace(); }
static U text(Rng& r, size_t mx)
{
   static const char* P[] = {"\\n", "\\t", "\\\\", "\\", "\n", "\r", "\r\n", "\t", "=", " ", "\\u", "\\u0041", "\\r", "\\\\n", "#", "a", "\\\\\\t", "true", ";", ":", "\"", "%1"};
   U u;
   for(size_t n = r.below(mx + 1); n--;)switch(r.below(5))
      {
         case 0: case 1: for(const char* q = P[r.below(22)]; *q; q++)u += (char16_t)*q; break;
         case 2: { static const char16_t T[] = {0xe4, 0xdf, 0x20ac, 0x3a9, 0x65e5, 0x85, 0xa0, 0x2028, 0x2003, 0xfffd, 0x7f, 1, 0x0b, 0x0c, 0x3000, 0x7ff, 0x800, 0, 0xd800, 0xdc00, 0xdbff, 0xdfff}; u += T[r.below(22)]; break; }
         case 3: if(r.chance(0.3)) { uint32_t p = (uint32_t)r.below(0x100000); u += (char16_t)(0xD800 + (p >> 10)); u += (char16_t)(0xDC00 + (p & 0x3FF)); break; } [[fallthrough]];
         default: u += (char16_t)r.range(32, 126);
      }
   return u;
}
// Keys the line format can hold: not empty, no '=' and no line break, no white space at the ends.
static U keyText(Rng& r)
{
   for(;;)
   {
      U k = text(r, 5), o;
      for(auto x : k)if(x != u'=' && x != u'\n' && x != u'\r' && x != 0)o += x;
      if(o.empty() || wsChar(o[0]) || wsChar(o.back()) || o[0] == 0xfeff)continue;
      return o;
   }
}
static std::string slurp(const std::string& p)
{
   std::string s;
   FILE* f = fopen(p.c_str(), "rb");
   if(!f)return s;
   char b[4096];
   size_t n;
   while((n = fread(b, 1, sizeof b, f)) > 0)s.append(b, n);
   fclose(f);
   return s;
}
static void same(Preferences& p, const M& m, Rng& r, const char* when)
{
   for(auto& e : m)
   {
      VH_CHECK(p.hasValue(mk(e.first)), "missing", when << ": key " << show(mk(e.first)));
      VH_CHECK(rd(p.value(mk(e.first))) == e.second, "value", when << ": key " << show(mk(e.first)) << " is " << show(p.value(mk(e.first))) << " want " << show(mk(e.second)));
      VH_CHECK(rd(p.value(mk(e.first), "some default")) == e.second, "value-default", when << ": key " << show(mk(e.first)) << " is " << show(p.value(mk(e.first), "some default")) << " want " << show(mk(e.second)));
   }
   for(int k = 0; k < 3; k++)
   {
      U u = keyText(r);
      if(m.count(u))continue;
      U d = text(r, 4);
      VH_CHECK(!p.hasValue(mk(u)) && p.value(mk(u)).isEmpty() && rd(p.value(mk(u), mk(d))) == d, "default", when << ": " << show(mk(u)));
      VH_CHECK(p.valueInt(mk(u), -77) == -77 && p.valueDouble(mk(u), 2.5) == 2.5 && p.valueBool(mk(u), true) && !p.valueBool(mk(u), false), "typed-default", when);
   }
   size_t n = 0;
   Iterator* it = p.keys();
   while(it->hasNext())
   {
      U k = rd(*static_cast<jm::String*>(it->next()));
      VH_CHECK(m.count(k), "extra", when << ": " << show(mk(k)));
      n++;
   }
   delete it;
   VH_CHECK(n == m.size(), "count", when << ": " << n << " of " << m.size());
}
struct Num { int kind; int64 i; double d; };
static void history(Rng& r, size_t steps, bool counted)
{
   std::string path = st().scratch + "/p20.properties";
   unlink(path.c_str());
   M m;
   std::map<U, Num> num;
   std::unique_ptr<Preferences> p(new Preferences);
   std::string bytes;
   std::vector<U> keys;
   for(size_t k = 0; k < steps; k++)
   {
      switch(r.below(10))
      {
         case 0: case 1: case 2: case 3:
         {
            U u = keys.size() && r.chance(0.4) ? r.pick(keys) : keyText(r), v = text(r, r.chance(0.004) ? 12000 : r.chance(0.05) ? 200 : 8);
            if(v.size() > 4096 && counted)count("longValues");
            if(r.chance(0.003))
            {
               while(u.size() < 3000)u += keyText(r);
            }
            p->setValue(mk(u), mk(v));
            m[u] = v;
            num.erase(u);
            keys.push_back(u);
            VH_CHECK(p->valueBool(mk(u), true) == (v.empty() || v == u"true") && p->valueBool(mk(u), false) == (v == u"true"), "bool-text", show(mk(v)) << " is read as a truth value");
            if(counted)
            {
               count("strings");
               if(v.empty())count("empty");
               if(v.size() && (wsChar(v[0]) || wsChar(v.back())))count("outerBlanks");
               if(v.find(u'\n') != U::npos || v.find(u'\r') != U::npos)count("lineBreaks");
               if(v.find(u'\\') != U::npos)count("backslashes");
            }
            break;
         }
         case 4: case 5:
         {
            U u = keys.size() && r.chance(0.4) ? r.pick(keys) : keyText(r);
            Num n{(int)r.below(3), 0, 0};
            if(n.kind == 0)
            {
               n.i = (int64)r.u64() >> r.below(64);
               if(r.chance(0.1))n.i = r.chance(0.5) ? INT64_MIN : INT64_MAX;
               p->setValue(mk(u), n.i);
               VH_CHECK(p->valueInt(mk(u), 5) == n.i, "int", n.i);
               m[u] = rd(jm::String(std::to_string((long long)n.i).c_str()));
            }
            else if(n.kind == 1)
            {
               n.d = r.chance(0.3) ? (double)r.range(-1000, 1000) : r.real(-1e6, 1e6);
               p->setValue(mk(u), n.d);
               m[u] = rd(p->value(mk(u)));
               double q = p->valueDouble(mk(u), -1e300);
               VH_CHECK(std::fabs(q - n.d) <= 5.1e-6 + 1e-9 * std::fabs(n.d), "double", n.d << " reads " << q << " text " << show(p->value(mk(u))));
            }
            else
            {
               n.i = r.chance(0.5);
               p->setValue(mk(u), n.i != 0);
               m[u] = n.i ? u"true" : u"false";
            }
            num[u] = n;
            keys.push_back(u);
            if(counted)count("numbers");
            break;
         }
         case 6: same(*p, m, r, "in memory"); break;
         case 7:
         case 8:
         {
            p->save(jm::File(jm::String(path.c_str())));
            bytes = slurp(path);
            if(counted)distinct(hashBytes(bytes.data(), bytes.size()));
            int cycles = (int)r.range(1, 3);
            for(int q = 0; q < cycles; q++)
            {
               std::unique_ptr<Preferences> n(new Preferences);
               n->load(jm::File(jm::String(path.c_str())));
               same(*n, m, r, "after loading");
               n->save(jm::File(jm::String(path.c_str())));
               std::string again = slurp(path);
               VH_CHECK(again == bytes, "unstable-file", "cycle " << q << ": " << bytes << " became " << again);
               p.swap(n);
               if(counted)count("cycles");
            }
            for(auto& e : num)
            {
               if(e.second.kind == 0)VH_CHECK(p->valueInt(mk(e.first), 5) == e.second.i, "int-loaded", e.second.i);
               if(e.second.kind == 1)VH_CHECK(std::fabs(p->valueDouble(mk(e.first), -1e300) - e.second.d) <= 5.1e-6 + 1e-9 * std::fabs(e.second.d), "double-loaded", e.second.d);
               if(e.second.kind == 2)VH_CHECK(p->valueBool(mk(e.first), false) == (e.second.i != 0) && p->valueBool(mk(e.first), true) == (e.second.i != 0), "bool-loaded", e.second.i);
            }
            break;
         }
         case 9:
         {
            // loading on top of existing values
            if(bytes.empty() || !r.chance(0.3))break;
            Preferences a;
            a.load(jm::File(jm::String(path.c_str())));
            U u = keyText(r), v = text(r, 5);
            bool had = a.hasValue(mk(u));
            M am;
            Iterator* it = a.keys();
            while(it->hasNext())
            {
               jm::String* s = static_cast<jm::String*>(it->next());
               am[rd(*s)] = rd(a.value(*s));
            }
            delete it;
            M saved = am;
            a.setValue(mk(u), mk(v));
            am[u] = v;
            if(had)am[u] = saved[u];
            if(saved.size() && r.chance(0.7))
            {
               U w = std::next(saved.begin(), (long)r.below(saved.size()))->first;
               a.setValue(mk(w), "changed\nvalue");
            }
            a.load(jm::File(jm::String(path.c_str())));
            same(a, am, r, "after reloading");
            if(counted)count("reloads");
         }
      }
   }
   same(*p, m, r, "at the end");
}
VH_WORKLOAD(histories, 10000, 60000)
{
   history(c.r, (size_t)c.r.range(3, 40), true);
   eval();

}
// Many entries, long keys and values.
VH_WORKLOAD(large, 40, 400)
{
   Rng& r = c.r;
   static const int N[] = {256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 70000};
   std::string path = st().scratch + "/p20l.properties";
   M m;
   Preferences p;
   auto put = [&](const U& k, const U& v) { p.setValue(mk(k), mk(v)); m[k] = v; };
   auto word = [&](size_t n, bool key) { U o; while(o.size() < n) { char16_t x = (char16_t)(r.chance(0.02) ? r.range(0xa1, 0x167f) : r.range(33, 126)); if(key && x == 61)x = 62; if(!key && r.chance(0.1))x = u" =\n\t\\%#"[r.below(7)]; o += x; } return o; };
   if(c.index % 4 == 0)
   {
      int n = N[r.below(9)];
      for(int k = 0; k < n; k++)put(word(3, true) + U(u".") + U(1, (char16_t)(0x100 + k)), word(r.below(9), false));
      count("manyEntries");
   }
   else
   {
      for(int k = (int)r.range(1, 4); k--;)put(word((size_t)(r.chance(0.4) ? N[r.below(16)] : 5), true), word((size_t)(r.chance(0.6) ? N[r.below(16)] : 9), false));
      count("longEntries");
   }
   jm::File f(jm::String(path.c_str()));
   p.save(f);
   Preferences q;
   q.load(jm::File(jm::String(path.c_str())));
   same(q, m, r, "large");
   unlink(path.c_str());
   distinct(m.size() * 100003 + m.begin()->first.size());
   count("large");
}
VH_WORKLOAD(handwritten, 8000, 40000)
{
   // files written by people: blanks around key and value, empty lines, both line ends, no final line end
   Rng& r = c.r;
   std::string path = st().scratch + "/p20h.properties", s;
   M m;
   for(int n = (int)r.below(8); n--;)
   {
      const char* e = r.chance(0.5) ? "\r\n" : "\n";
      if(r.chance(0.2))s += e;
      if(r.chance(0.1)) { s += "no value here"; s += e; }
      std::string k, v;
      for(int i = (int)r.range(1, 6); i--;)k += "abcdefXYZ.-_"[r.below(12)];
      for(int i = (int)r.below(12); i--;)v += "abcdef XYZ.-_=,%/"[r.below(17)];
      s += std::string(r.below(3), ' ') + k + std::string(r.below(3), ' ') + "=" + std::string(r.below(3), ' ') + v + std::string(r.below(2), '\t');
      if(n || r.chance(0.5))s += e;
      size_t a = v.find_first_not_of(" \t"), b = v.find_last_not_of(" \t");
      v = a == std::string::npos ? "" : v.substr(a, b - a + 1);
      m[U(k.begin(), k.end())] = U(v.begin(), v.end());
   }
   FILE* f = fopen(path.c_str(), "wb");
   fwrite(s.data(), 1, s.size(), f);
   fclose(f);
   Preferences p;
   p.load(jm::File(jm::String(path.c_str())));
   same(p, m, r, ("file " + s).c_str());
   count("handwritten");
   distinct(hashBytes(s.data(), s.size()));
}
VH_WORKLOAD(garbage, 10000, 30000)
{
   // any file can be loaded, and what was loaded survives the next cycle
   Rng& r = c.r;
   std::string path = st().scratch + "/p20g.properties", s;
   for(int n = (int)r.below(120); n--;)s += r.chance(0.6) ? (char)r.range(1, 255) : "=\n\r\\untu00 \t"[r.below(13)];
   FILE* f = fopen(path.c_str(), "wb");
   fwrite(s.data(), 1, s.size(), f);
   fclose(f);
   M m;
   {
      Preferences p;
      p.load(jm::File(jm::String(path.c_str())));
      Iterator* it = p.keys();
      while(it->hasNext())
      {
         U k = rd(*static_cast<jm::String*>(it->next()));
         m[k] = rd(p.value(mk(k)));
      }
      delete it;
      bool pure = true;
      for(auto& e : m)
      {
         if(e.first.empty() || e.first[0] == 0xfeff)pure = false;
         for(size_t i = 0; i < e.first.size(); i++)if(!e.first[i])pure = false;
         for(auto ch : e.second)if(!ch || (ch >= 0xD800 && ch < 0xE000))pure = false;
         for(auto ch : e.first)if(ch >= 0xD800 && ch < 0xE000)pure = false;
      }
      if(!pure)return;
      p.save(jm::File(jm::String(path.c_str())));
   }
   Preferences q;
   q.load(jm::File(jm::String(path.c_str())));
   same(q, m, r, "garbage");
   count("garbage");
}
VH_WORKLOAD(directories, 60, 300)
{
   Rng& r = c.r;
   std::string dir = st().scratch + "/d" + std::to_string(r.below(1000000)), path = dir + "/x.properties";
   Preferences p;
   p.load(jm::File(jm::String(path.c_str())));   // nothing there
   VH_CHECK(!p.hasValue("a"), "ghost", "");
   p.setValue("a", jm::String("1"));
   p.save(jm::File(jm::String(path.c_str())));
   Preferences q;
   q.load(jm::File(jm::String(path.c_str())));
   VH_CHECK(q.value("a").equals("1"), "new-directory", path);
   // a shorter content replaces a longer one completely
   for(int k = 0; k < 20; k++)p.setValue(jm::String("key") + jm::String::valueOf((int64)k), jm::String("long long long value"));
   p.save(jm::File(jm::String(path.c_str())));
   q.save(jm::File(jm::String(path.c_str())));
   Preferences z;
   z.load(jm::File(jm::String(path.c_str())));
   same(z, M{{u"a", u"1"}}, r, "replaced");
   unlink(path.c_str());
   rmdir(dir.c_str());
   count("directories");
}
VH_WORKLOAD(leaks, 24, 200)
{
   Rng base = c.r;
   size_t last = 0, grown = 0;
   for(int k = 0; k < 6; k++)
   {
      Rng r = base;
      history(r, 30, false);
      size_t now = __sanitizer_get_current_allocated_bytes();
      if(k >= 3 && now > last + 64)grown++;
      last = now;
   }
   VH_CHECK(grown < 3, "leak", "allocated bytes grow with every identical history");
   count("leakHistories");
}
VH_REQUIRE("manyEntries", "longEntries", "longValues", "strings", "numbers", "empty", "outerBlanks", "lineBreaks", "backslashes", "cycles", "reloads", "handwritten", "garbage", "directories", "leakHistories")
VH_DRIVER("P20", "the model is a map from key to value; files live in the scratch directory")
