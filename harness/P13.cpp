// P13: damaged zip archives.
// VH-CONFIG: libs=-lz
// VH-TECH: valid archives with lying header fields, mutations, truncations and noise, opened from exactly sized buffers and files; every listed entry read; ASan+UBSan, watchdog, allocation bound, zlib-checked bytes of undamaged entries
#include "deflate_gen.hpp"
#include <fstream>
#include <sanitizer/allocator_interface.h>
using namespace vh;
using namespace jm;
static void p16(B& o, unsigned v) { o += (char)v; o += (char)(v >> 8); }
static void p32(B& o, uint32_t v) { o.append((const char*)&v, 4); }
struct Arch { B b; std::vector<size_t> lo, ce; size_t eocd = 0; std::vector<B> data; std::vector<B> names; };
static Arch valid(Rng& r)
{
   Arch a;
   B dir;
   int n = (int)r.range(0, 4);
   std::vector<size_t> dpos;
   for(int k = 0; k < n; k++)
   {
      B d = genData(r, (size_t)r.range(0, r.chance(0.1) ? 5000 : 200)), comp = d;
      unsigned m = 0;
      if(r.chance(0.6))
      {
         Enc e;
         comp = zDeflate(r, d, true, e);
         m = 8;
      }
      B name = B((size_t)r.range(1, 12), (char)('a' + k)), lx(r.chance(0.2) ? r.below(20) : 0, 'l'), cx(r.chance(0.2) ? r.below(20) : 0, 'x'), cc(r.chance(0.2) ? r.below(20) : 0, 'c');
      uint32_t crc = (uint32_t)crc32(0, (const Bytef*)d.data(), (uInt)d.size());
      a.lo.push_back(a.b.size());
      p32(a.b, 0x04034b50); p16(a.b, 20); p16(a.b, 0x800); p16(a.b, m); p32(a.b, 0); p32(a.b, crc); p32(a.b, (uint32_t)comp.size()); p32(a.b, (uint32_t)d.size()); p16(a.b, (unsigned)name.size()); p16(a.b, (unsigned)lx.size());
      a.b += name + lx + comp;
      dpos.push_back(dir.size());
      p32(dir, 0x02014b50); p16(dir, 20); p16(dir, 20); p16(dir, 0x800); p16(dir, m); p32(dir, 0); p32(dir, crc); p32(dir, (uint32_t)comp.size()); p32(dir, (uint32_t)d.size()); p16(dir, (unsigned)name.size()); p16(dir, (unsigned)cx.size()); p16(dir, (unsigned)cc.size());
      p16(dir, 0); p16(dir, 0); p32(dir, 0); p32(dir, (uint32_t)a.lo.back());
      dir += name + cx + cc;
      a.data.push_back(d);
      a.names.push_back(name);
   }
   size_t co = a.b.size();
   for(size_t p : dpos)a.ce.push_back(co + p);
   a.b += dir;
   a.eocd = a.b.size();
   B com(r.chance(0.3) ? r.below(60) : 0, 'k');
   p32(a.b, 0x06054b50); p32(a.b, 0); p16(a.b, (unsigned)n); p16(a.b, (unsigned)n); p32(a.b, (uint32_t)dir.size()); p32(a.b, (uint32_t)co); p16(a.b, (unsigned)com.size());
   a.b += com;
   return a;
}
static uint32_t lie(Rng& r, uint32_t old, size_t fileSize, unsigned bytes)
{
   uint32_t v;
   switch(r.below(9))
   {
      case 0: v = 0; break;
      case 1: v = 0xFFFFFFFFu - (uint32_t)r.below(60); break;
      case 2: v = 0x7FFFFFFFu + (uint32_t)r.below(3); break;
      case 3: v = old + (uint32_t)r.range(1, 60); break;
      case 4: v = old - (uint32_t)r.range(1, 60); break;
      case 5: v = (uint32_t)fileSize - (uint32_t)r.below(70); break;
      case 6: v = (uint32_t)fileSize + (uint32_t)r.below(70); break;
      case 7: v = (uint32_t)r.below(fileSize + 1); break;
      default: v = (uint32_t)r.u64();
   }
   return bytes == 2 ? v & 0xFFFF : v;
}
static uint32_t get(const B& b, size_t o, unsigned n) { uint32_t v = 0; for(unsigned i = 0; i < n; i++)v |= (uint32_t)(unsigned char)b[o + i] << 8 * i; return v; }
static void put(B& b, size_t o, unsigned n, uint32_t v) { for(unsigned i = 0; i < n; i++)b[o + i] = (char)(v >> 8 * i); }
// The bytes of entry k as the file has them, read without the library: by the directory the last end record names, and
// the entry's local header. False, if there are no such bytes.
static bool reference(const B& in, size_t k, B& out)
{
   size_t e = in.rfind("PK\x05\x06");
   while(e != B::npos && e + 22 > in.size())e = e == 0 ? B::npos : in.rfind("PK\x05\x06", e - 1);
   if(e == B::npos)return false;
   uint64_t c = get(in, e + 16, 4), end = c + get(in, e + 12, 4);
   if(end > in.size())return false;
   for(size_t i = 0; i < k; i++)
   {
      if(c + 46 > end)return false;
      c += 46 + (uint64_t)get(in, c + 28, 2) + get(in, c + 30, 2) + get(in, c + 32, 2);
   }
   if(c + 46 > end)return false;
   uint64_t cs = get(in, c + 20, 4), us = get(in, c + 24, 4), lo = get(in, c + 42, 4);
   if(lo + 30 > in.size())return false;
   uint64_t d = lo + 30 + get(in, lo + 26, 2) + get(in, lo + 28, 2);
   if(d + cs > in.size())return false;
   if(get(in, lo + 8, 2) == 0)
   {
      out = in.substr(d, cs);
      return cs == us;
   }
   z_stream z{};
   if(inflateInit2(&z, -15) != Z_OK)abort();
   out.assign(us + 1, 0);
   B slice = in.substr(d, cs);
   z.next_in = (Bytef*)slice.data();
   z.avail_in = (uInt)slice.size();
   z.next_out = (Bytef*)&out[0];
   z.avail_out = (uInt)out.size();
   int rc = inflate(&z, Z_FINISH);
   out.resize(z.total_out);
   inflateEnd(&z);
   return rc == Z_STREAM_END && out.size() == us;
}
// Returns false if opening threw.
static bool one(Rng& r, const B& in, const std::string& what, std::vector<std::pair<B, B>>* got = nullptr)
{
   std::unique_ptr<uint8[]> hold(new uint8[in.size()]);
   memcpy(hold.get(), in.data(), in.size());
   std::unique_ptr<Stream> s;
   if(r.chance(0.8))s.reset(new MemoryStream(hold.get(), (int64)in.size()));
   else
   {
      std::string p = st().scratch + "/d.zip";
      std::ofstream(p, std::ios::binary | std::ios::trunc).write(in.data(), (std::streamsize)in.size());
      s.reset(new jm::File(jm::String(p.c_str())));
      count("asFile");
   }
   size_t m0 = __sanitizer_get_current_allocated_bytes();
   {
      ZipFile z(s.get());
      try
      {
         z.open();
      }
      catch(jm::Exception& e)
      {
         count("openRejected");
         distinct(mix(hashStr(what), hashStr(excText(e))));
         return false;
      }
      count("opened");
      VH_CHECK(z.entryCount() <= 65535 && (int64)z.entryCount() * 46 <= (int64)in.size(), "entry-count", what << ": " << z.entryCount() << " entries in " << in.size() << " bytes");
      LinkedListIterator it = z.entryIterator();
      int n = 0;
      while(it.hasNext() && n++ < 70000)
      {
         ZipEntry* e = static_cast<ZipEntry*>(it.next());
         jm::String nm = e->name();
         std::unique_ptr<Stream> t;
         size_t before = __sanitizer_get_current_allocated_bytes();
         try
         {
            t.reset(z.stream(e));
         }
         catch(jm::Exception& x)
         {
            count("entryRejected");
            distinct(mix(hashStr(what), hashStr(excText(x))));
            size_t after = __sanitizer_get_current_allocated_bytes();
            VH_CHECK(after < before + 4000000, "rejected-entry-keeps-memory", what << ": " << after - before << " bytes kept");
            continue;
         }
         if(!t)
         {
            count("noEntry");
            continue;
         }
         VH_CHECK(t->size() == (int64)e->uncompressedSize(), "stream-size", what << ": stream of " << t->size() << " bytes for an entry of " << e->uncompressedSize());
         VH_CHECK(t->size() <= (int64)in.size() * 1040, "amplification", what << ": " << t->size() << " bytes from " << in.size());
         t->open(FileMode::kRead);
         B d;
         for(;;)
         {
            std::unique_ptr<uint8[]> b(new uint8[777]);
            int64 k = t->read(b.get(), 777);
            VH_CHECK(k <= 777, "read-count", what);
            if(k <= 0)break;
            d.append((char*)b.get(), (size_t)k);
            if(d.size() > 100000000)break;
         }
         VH_CHECK((int64)d.size() == t->size(), "stream-bytes", what << ": " << d.size() << " of " << t->size());
         B want;
         bool there = reference(in, (size_t)n - 1, want);
         VH_CHECK(there, "invented-bytes", what << ": entry " << n << " gives " << d.size() << " bytes, but the file holds none for it");
         VH_CHECK(want == d, "other-bytes", what << ": entry " << n << " gives " << hexShort(d) << " instead of " << hexShort(want));
         if(got)got->push_back({bytesOf(nm.toCString()), d});
         count("entriesRead");
      }
      // A lookup of a name that is there
      z.entry(jm::String("aaa"));
      z.close();
   }
   size_t m1 = __sanitizer_get_current_allocated_bytes();
   VH_CHECK(m1 < m0 + 70000 * 600 + in.size() * 4, "memory", what << ": " << m1 - m0 << " bytes kept");
   return true;
}
static const struct { size_t off; unsigned n; const char* name; } LF[] = {{0, 4, "local signature"}, {8, 2, "local method"}, {14, 4, "local crc"}, {18, 4, "local compressed size"}, {22, 4, "local size"}, {26, 2, "local name length"}, {28, 2, "local extra length"}},
CF[] = {{0, 4, "directory signature"}, {10, 2, "directory method"}, {20, 4, "compressed size"}, {24, 4, "size"}, {28, 2, "name length"}, {30, 2, "extra length"}, {32, 2, "comment length"}, {42, 4, "local offset"}},
EF[] = {{0, 4, "end signature"}, {8, 2, "entries here"}, {10, 2, "entries"}, {12, 4, "directory size"}, {16, 4, "directory offset"}, {20, 2, "end comment length"}};
// One or more fields lie; entries that no field of theirs and none of the directory changed must still be read right or be refused.
VH_WORKLOAD(lyingFields, 30000, 800000)
{
   Rng& r = c.r;
   Arch a = valid(r);
   B b = a.b;
   std::string what;
   bool dirOk = true;
   std::vector<bool> touched(a.data.size(), false);
   for(int n = r.chance(0.7) ? 1 : (int)r.range(2, 4); n--;)
   {
      int kind = a.lo.empty() ? 2 : (int)r.below(3);
      size_t base, k = a.lo.empty() ? 0 : r.below(a.lo.size());
      auto f = kind == 0 ? LF[r.below(7)] : kind == 1 ? CF[r.below(8)] : EF[r.below(6)];
      base = kind == 0 ? a.lo[k] : kind == 1 ? a.ce[k] : a.eocd;
      uint32_t old = get(b, base + f.off, f.n), v = lie(r, old, b.size(), f.n);
      put(b, base + f.off, f.n, v);
      what += std::string(f.name) + " of entry " + std::to_string(k) + " " + std::to_string(old) + "->" + std::to_string(v) + "; ";
      if(kind == 2)dirOk = false;
      else
      {
         touched[k] = true;
         if(kind == 1 && f.n == 2 && f.off >= 28)dirOk = false;
      }
      count(std::string("lied: ") + f.name);
   }
   what += std::to_string(b.size()) + " bytes: " + hex(b);
   std::vector<std::pair<B, B>> got;
   one(r, b, what, &got);
   if(dirOk)for(auto& g : got)for(size_t k = 0; k < a.data.size(); k++)if(!touched[k] && g.first == a.names[k])
      VH_CHECK(g.second == a.data[k], "undamaged-entry", what << ": entry " << g.first << " has other bytes");
   sample(what);
}
VH_WORKLOAD(mutations, 20000, 500000)
{
   Rng& r = c.r;
   Arch a = valid(r);
   B b = a.b;
   std::string what = "mutated ";
   for(int n = r.chance(0.5) ? 1 : (int)r.range(2, 12); n--;)switch(r.below(7))
   {
      case 0: b.resize(r.below(b.size() + 1)); break;
      case 1: if(b.size())b.erase(0, r.below(b.size() + 1)); break;
      case 2: if(b.size())b[r.below(b.size())] ^= (char)(1 << r.below(8)); break;
      case 3: if(b.size())b[r.below(b.size())] = (char)r.below(256); break;
      case 4: if(b.size())b.erase(r.below(b.size()), 1 + r.below(6)); break;
      case 5: b.insert(r.below(b.size() + 1), (size_t)r.range(1, 30), (char)r.below(256)); break;
      default: { Arch o = valid(r); b = b.substr(0, r.below(b.size() + 1)) + o.b.substr(r.below(o.b.size() + 1)); }
   }
   what += std::to_string(b.size()) + " bytes: " + hex(b);
   one(r, b, what);
   count("mutated");
}
VH_WORKLOAD(prefixes, 120, 3000)
{
   Rng& r = c.r;
   Arch a = valid(r);
   if(a.b.size() > 900)throw Skip();
   for(size_t i = 0; i <= a.b.size(); i++)one(r, a.b.substr(0, i), "prefix of " + std::to_string(i) + " of " + std::to_string(a.b.size()) + " bytes: " + hex(a.b));
   for(size_t i = 0; i <= a.b.size(); i++)one(r, a.b.substr(i), "from byte " + std::to_string(i) + " of " + std::to_string(a.b.size()) + " bytes: " + hex(a.b));
   count("prefixRuns");
}
VH_WORKLOAD(noise, 6000, 100000)
{
   Rng& r = c.r;
   B b;
   for(int n = (int)r.range(0, 40); n--;)
   {
      static const char* S[] = {"PK\x05\x06", "PK\x03\x04", "PK\x01\x02"};
      if(r.chance(0.4))b += S[r.below(3)];
      else for(int k = (int)r.range(1, 30); k--;)b += (char)(r.chance(0.5) ? r.below(256) : r.below(3));
   }
   one(r, b, "noise of " + std::to_string(b.size()) + " bytes: " + hex(b));
   count("noise");
}
VH_REQUIRE("opened", "openRejected", "entryRejected", "entriesRead", "mutated", "prefixRuns", "noise", "asFile", "lied: directory offset", "lied: directory size", "lied: entries", "lied: local offset", "lied: compressed size", "lied: size", "lied: name length", "lied: local name length", "lied: local method")
VH_DRIVER("P13", "For every byte sequence: no sanitizer report, termination, an entry's stream has exactly the announced size, entries that no lying field concerns keep their bytes, memory bounded by the input")
