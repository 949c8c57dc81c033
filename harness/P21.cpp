// P21: translation catalogues.
// VH-TECH: generated binary catalogues (memory, file) looked up against a map model, and damaged catalogues (every truncation, mutated tables, noise) under ASan+UBSan with exact-size buffers
#include "vh.hpp"
#include <set>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vh;
using namespace jm;
typedef std::map<U, U> M;
static U text(Rng& r, size_t mx)
{
   static const char* P[] = {"\\n", "\n", "\r\n", "%1", "=", " ", "\t", "\\", "a", "\"", "<a>", "Datei", "&"};
   U u;
   for(size_t n = r.below(mx + 1); n--;)switch(r.below(5))
      {
         case 0: for(const char* q = P[r.below(13)]; *q; q++)u += (char16_t)*q; break;
         case 1: { static const char16_t T[] = {0xe4, 0xdf, 0x20ac, 0x3a9, 0x65e5, 0x85, 0xa0, 0x2028, 0xfffd, 0x7f, 1, 0x7ff, 0x800}; u += T[r.below(13)]; break; }
         case 2: if(r.chance(0.3)) { uint32_t p = (uint32_t)r.below(0x100000); u += (char16_t)(0xD800 + (p >> 10)); u += (char16_t)(0xDC00 + (p & 0x3FF)); break; } [[fallthrough]];
         default: u += (char16_t)r.range(32, 126);
      }
   return u;
}
static void put(std::string& s, size_t at, uint32_t v)
{
   for(int i = 0; i < 4; i++)s[at + (size_t)i] = (char)(v >> 8 * i);
}
// Independent writer of the GNU message catalogue format
static std::string catalogue(Rng& r, const M& m)
{
   std::string s(28, '\0');
   uint32_t n = (uint32_t)m.size();
   put(s, 0, 0x950412de);
   put(s, 8, n);
   auto pad = [&]() { if(r.chance(0.3))s += std::string(r.below(9), (char)r.below(256)); };
   pad();
   size_t to = s.size();
   s += std::string(8 * n, '\0');
   bool late = r.chance(0.3);
   size_t tt = 0;
   if(!late) { pad(); tt = s.size(); s += std::string(8 * n, '\0'); }
   pad();
   std::vector<std::pair<std::string, std::string>> v;
   for(auto& e : m)v.push_back({bytesOf(mk(e.first).toCString()), bytesOf(mk(e.second).toCString())});
   std::vector<std::pair<size_t, size_t>> off(v.size());
   for(size_t i = 0; i < v.size(); i++) { off[i].first = s.size(); s += v[i].first; s += '\0'; pad(); }
   for(size_t i = 0; i < v.size(); i++) { off[i].second = s.size(); s += v[i].second; if(r.chance(0.97) || late || i + 1 < v.size())s += '\0'; pad(); }
   if(late) { tt = s.size(); s += std::string(8 * n, '\0'); }
   put(s, 12, (uint32_t)to);
   put(s, 16, (uint32_t)tt);
   for(size_t i = 0; i < v.size(); i++)
   {
      put(s, to + 8 * i, (uint32_t)v[i].first.size());
      put(s, to + 8 * i + 4, (uint32_t)off[i].first);
      put(s, tt + 8 * i, (uint32_t)v[i].second.size());
      put(s, tt + 8 * i + 4, (uint32_t)off[i].second);
   }
   return s;
}
static void load(Rng& r, I18nBundle& b, const std::string& s)
{
   if(r.chance(0.1))
   {
      std::string path = st().scratch + "/p21.mo";
      FILE* f = fopen(path.c_str(), "wb");
      fwrite(s.data(), 1, s.size(), f);
      fclose(f);
      jm::File file(jm::String(path.c_str()));
      b.appendMo(&file);
      count("files");
   }
   else
   {
      std::unique_ptr<uint8[]> d(new uint8[s.size()]);
      memcpy(d.get(), s.data(), s.size());
      MemoryStream m(d.get(), (int64)s.size());
      b.appendMo(&m);
   }
}
static M randomMap(Rng& r, int mx)
{
   M m;
   if(r.chance(0.5))m[u""] = u"Project-Id-Version: x\nContent-Type: text/plain; charset=UTF-8\n";
   for(int n = (int)r.below((uint64_t)mx + 1); n--;)m[text(r, r.chance(0.03) ? 400 : 8)] = text(r, r.chance(0.03) ? 400 : 10);
   return m;
}
static void check(const I18nBundle& b, const M& m, Rng& r, const char* when)
{
   for(auto& e : m)
   {
      U want = e.second.empty() ? e.first : e.second;   // an empty translation means untranslated
      if(e.second.empty())count("untranslated");
      jm::String got = b.translate(mk(e.first));
      VH_CHECK(rd(got) == want, "translation", when << ": " << show(mk(e.first)) << " gives " << show(got) << " want " << show(mk(want)));
      count("translations");
   }
   for(int k = 0; k < 4; k++)
   {
      U u = text(r, 6);
      if(k < 2 && m.size()) { u = std::next(m.begin(), (long)r.below(m.size()))->first; if(r.chance(0.5) && u.size())u.pop_back(); else u += u'.'; }
      if(m.count(u))continue;
      VH_CHECK(rd(b.translate(mk(u))) == u, "unknown-text", when << ": " << show(mk(u)) << " gives " << show(b.translate(mk(u))));
      count("unknown");
   }
}
VH_WORKLOAD(valid, 30000, 150000)
{
   Rng& r = c.r;
   I18nBundle b(r.chance(0.5) ? "de-DE" : "en");
   M all;
   for(int n = (int)r.range(1, 3); n--;)
   {
      M m = randomMap(r, r.chance(0.02) ? 300 : 10);
      if(all.size() && r.chance(0.5))m[std::next(all.begin(), (long)r.below(all.size()))->first] = text(r, 5);
      std::string s = catalogue(r, m);
      load(r, b, s);
      for(auto& e : m)all[e.first] = e.second;
      check(b, all, r, "after adding");
      distinct(hashBytes(s.data(), s.size()));
      count("catalogues");
   }
}
// Catalogues as large programs have them
VH_WORKLOAD(large, 12, 300)
{
   Rng& r = c.r;
   M m;
   size_t n = r.chance(0.4) ? (size_t)r.range(65530, 66000) : (size_t)r.range(500, 9000);
   for(size_t i = 0; i < n; i++)
   {
      std::string k = "message " + std::to_string(i * 7919 % 1000003), t = "Meldung " + std::to_string(r.below(1000000));
      m[U(k.begin(), k.end())] = U(t.begin(), t.end());
   }
   if(r.chance(0.5))
   {
      U k = text(r, 300), t;
      while(k.size() < (size_t)r.range(65500, 70000))k += text(r, 300) + u'.';
      while(t.size() < (size_t)r.range(65500, 70000))t += text(r, 300) + u'.';
      m[k] = t;
      m[k + u'x'] = u"short";
      count("largeMessages");
   }
   I18nBundle b("de");
   M first = randomMap(r, 10);
   load(r, b, catalogue(r, first));
   std::string s = catalogue(r, m);
   load(r, b, s);
   for(auto& e : m)first[e.first] = e.second;
   check(b, first, r, "after a large catalogue");
   distinct(hashBytes(s.data(), s.size()));
   count("large");
}
// One damaged catalogue: nothing may be read outside it, and what the bundle held before stays.
static void damaged(Rng& r, const std::string& s, const M& before, const std::string& good)
{
   I18nBundle b("de");
   load(r, b, good);
   load(r, b, s);
   count("damaged");
   // what the catalogue says, read independently: every record whose entries lie within it
   std::map<U, std::set<U>> said;
   auto u32 = [&](uint64_t at) -> uint64_t { return at + 4 <= s.size() ? (uint64_t)(uint8_t)s[at] | (uint64_t)(uint8_t)s[at + 1] << 8 | (uint64_t)(uint8_t)s[at + 2] << 16 | (uint64_t)(uint8_t)s[at + 3] << 24 : UINT32_MAX; };
   if(s.size() >= 20)
      for(uint64_t k = 0, n = std::min<uint64_t>(u32(8), s.size()); k < n; k++)
      {
         uint64_t ol = u32(u32(12) + 8 * k), oo = u32(u32(12) + 8 * k + 4), tl = u32(u32(16) + 8 * k), to = u32(u32(16) + 8 * k + 4);
         if(oo + ol > s.size() || to + tl > s.size())continue;
         said[rd(jm::String(s.data() + oo, (int64)ol))].insert(rd(jm::String(s.data() + to, (int64)tl)));
      }
   auto look = [&](const U& key)
   {
      U got = rd(b.translate(mk(key)));
      auto it = before.find(key);
      bool ok = got == key ? it == before.end() || it->second.empty() || it->second == key || (said.count(key) && (said[key].count(U()) || said[key].count(key)))
                : (it != before.end() && it->second == got) || (said.count(key) && said[key].count(got));
      VH_CHECK(ok, "damaged-translation", show(mk(key)) << " gives " << show(mk(got)) << (it == before.end() ? std::string(", not known before") : ", before " + show(mk(it->second))) << ", the damaged catalogue has " << (said.count(key) ? (int)said[key].size() : 0) << " records for it; " << hex(s.substr(0, 400)));
      count("damagedLookups");
   };
   for(auto& e : before)look(e.first);
   int n = 0;
   for(auto& e : said)if(n++ < 20)look(e.first);
   for(int k = 0; k < 3; k++)look(text(r, 6));
}
VH_WORKLOAD(truncated, 900, 2500)
{
   // every truncation of a small catalogue
   Rng& r = c.r;
   M m = randomMap(r, 3);
   std::string s = catalogue(r, m);
   for(size_t k = 0; k < s.size() && k < 400; k++)
   {
      std::unique_ptr<uint8[]> d(new uint8[k + 1]);
      memcpy(d.get(), s.data(), k);
      std::unique_ptr<uint8[]> e(new uint8[k]);
      memcpy(e.get(), s.data(), k);
      I18nBundle b("de");
      MemoryStream x(e.get(), (int64)k);
      b.appendMo(&x);
      eval();
   }
   count("truncations", std::min<size_t>(s.size(), 400));
}
VH_WORKLOAD(mutated, 40000, 100000)
{
   Rng& r = c.r;
   M m = randomMap(r, 6), before = randomMap(r, 3);
   std::string good = catalogue(r, before), s = catalogue(r, m);
   for(int n = (int)r.range(1, 4); n--;)
   {
      static const uint32_t V[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff8u, 0x1fffffff, 0x20000000, 28, 0x950412de, 0xde120495};
      size_t at = r.chance(0.7) ? 4 * r.below((s.size() > 120 ? 120 : s.size()) / 4) : r.below(s.size());
      if(at + 4 > s.size())continue;
      switch(r.below(6))
      {
         case 0: put(s, at, V[r.below(11)]); break;
         case 1: put(s, at, (uint32_t)s.size() + (uint32_t)r.range(-9, 9)); break;
         case 2: put(s, at, (uint32_t)r.u64()); break;
         case 3: s[at] = (char)r.below(256); break;
         case 4: s = s.substr(0, at + 1); break;
         case 5: put(s, at, (uint32_t)r.below(s.size() + 4)); break;
      }
   }
   damaged(r, s, before, good);
   distinct(hashBytes(s.data(), s.size()));
}
VH_WORKLOAD(noise, 15000, 30000)
{
   Rng& r = c.r;
   std::string s;
   for(int n = (int)r.below(100); n--;)s += (char)(r.chance(0.5) ? 0 : r.below(256));
   if(s.size() >= 4 && r.chance(0.8))put(s, 0, 0x950412de);
   if(s.size() >= 8 && r.chance(0.8))put(s, 4, 0);
   if(s.size() >= 20 && r.chance(0.8)) { put(s, 8, (uint32_t)r.below(6)); put(s, 12, (uint32_t)r.below(100)); put(s, 16, (uint32_t)r.below(100)); }
   damaged(r, s, M(), catalogue(r, M()));
   distinct(hashBytes(s.data(), s.size()));
}
// Files that are no catalogue at all add nothing.
VH_WORKLOAD(refused, 800, 20000)
{
   Rng& r = c.r;
   M m = randomMap(r, 5);
   I18nBundle b("de");
   std::string s = catalogue(r, m);
   switch(r.below(3))
   {
      case 0: s[r.below(4)] = (char)(s[0] + 1 + (char)r.below(100)); if((uint8_t)s[0] == 0xde && (uint8_t)s[1] == 0x12 && (uint8_t)s[2] == 4 && (uint8_t)s[3] == 0x95)s[0] = 0; break;
      case 1: put(s, 4, (uint32_t)r.range(1, 5)); break;
      case 2: s = s.substr(0, r.below(20)); break;
   }
   load(r, b, s);
   for(auto& e : m)VH_CHECK(rd(b.translate(mk(e.first))) == e.first, "refused-but-added", show(mk(e.first)));
   count("refused");
   // A good catalogue that cannot be opened or not be read to its end adds nothing to what is there
   struct Broken: public MemoryStream
   {
      bool deny;
      int64 most;
      Broken(uint8* d, int64 n, bool refuse, int64 k): MemoryStream(d, n), deny(refuse), most(k) {}
      Status open(FileMode mode) override { return deny ? Status::eInvalidInput : MemoryStream::open(mode); }
      int64 read(uint8* buffer, int64 n) override { return MemoryStream::read(buffer, std::min(n, most)); }
      int64 readFully(ByteArray& buffer, int64 n) override { return MemoryStream::readFully(buffer, std::min(n, most)); }
   };
   M first = randomMap(r, 5), second = randomMap(r, 5);
   std::string good = catalogue(r, first), bad = catalogue(r, second);
   load(r, b, good);
   Broken stream((uint8*)&bad[0], (int64)bad.size(), r.chance(0.5), (int64)r.below(bad.size()));
   b.appendMo(&stream);
   check(b, first, r, "after a broken stream");
   for(auto& e : second)if(!first.count(e.first))VH_CHECK(rd(b.translate(mk(e.first))) == e.first, "broken-but-added", show(mk(e.first)));
   count("broken");
}
VH_WORKLOAD(leaks, 24, 200)
{
   size_t last = 0;
   int grown = 0;
   for(int k = 0; k < 6; k++)
   {
      Rng r = c.r;
      M m = randomMap(r, 20);
      std::string s = catalogue(r, m);
      {
         I18nBundle b("de");
         load(r, b, s);
         load(r, b, s);
         load(r, b, s.substr(0, s.size() / 2));
      }
      m.clear();
      s = std::string();
      size_t now = __sanitizer_get_current_allocated_bytes();
      if(k >= 3 && now > last + 64)grown++;
      last = now;
   }
   VH_CHECK(grown < 3, "leak", "allocated bytes grow with every identical history");
   count("leakHistories");
}
static void setup()
{
   defaultSetup();
   // refusals are logged to standard output
   if(!freopen("/dev/null", "w", stdout))abort();
}
static void teardown() {}
VH_REQUIRE("broken", "large", "largeMessages", "damagedLookups", "translations", "untranslated", "unknown", "catalogues", "files", "damaged", "truncations", "refused", "leakHistories")
VH_DRIVER2("P21", "catalogues are written by the driver's own encoder of the GNU format", setup, teardown)
