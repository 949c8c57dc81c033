// P12: zip archives.
// VH-CONFIG: libs=-lz
// VH-TECH: archives written by the library judged by Python's zipfile, by an independent reader in the driver and by the library itself; archives of Python's zipfile and of an own encoder read by the library; ASan+UBSan
#include "deflate_gen.hpp"
#include <fstream>
#include <sys/stat.h>
using namespace vh;
using namespace jm;
struct Ent { U name; B data; };
static B utf8(const U& u)
{
   B o;
   for(char16_t c : u)
   {
      if(c < 0x80)o += (char)c;
      else if(c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
      else { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
   }
   return o;
}
static B slurp(const std::string& p)
{
   std::ifstream f(p, std::ios::binary);
   std::ostringstream o;
   o << f.rdbuf();
   return o.str();
}
static void spit(const std::string& p, const B& b)
{
   std::ofstream f(p, std::ios::binary | std::ios::trunc);
   f.write(b.data(), (std::streamsize)b.size());
}
static U genName(Rng& r, int k)
{
   static const char16_t A[] = u"abcXYZ0189_-. /\u00e4\u00df\u20ac\u03a9\u65e5\u8a9e'~$";
   U u;
   for(int n = (int)r.range(0, r.chance(0.05) ? 300 : 18); n--;)u += A[r.below(sizeof A / 2 - 1)];
   while(u.size() && u[0] == '/')u.erase(0, 1);
   u += u'_';
   for(char ch : std::to_string(k))u += (char16_t)ch;
   if(r.chance(0.1))u += u'/';
   return u;
}
static B genContent(Rng& r)
{
   switch(r.below(6))
   {
      case 0: return "";
      case 1: return B((size_t)r.range(1, 3), (char)r.below(256));
      case 2: { B b; for(int n = (int)r.range(0, 20); n--;) { static const char* S[] = {"PK\x05\x06", "PK\x03\x04", "PK\x01\x02", "PK"}; b += S[r.below(4)]; } return b; }
      case 3: return genData(r, (size_t)r.range(0, r.chance(0.1) ? 70000 : 6000));
      default: return genData(r, (size_t)r.range(0, 300));
   }
}
static std::vector<Ent> genEntries(Rng& r)
{
   std::vector<Ent> e;
   static const int N[] = {0, 1, 1, 2, 3, 4, 7, 20};
   int n = N[r.below(8)];
   if(r.chance(0.01))n = 300;
   for(int k = 0; k < n; k++)
   {
      Ent x{genName(r, k), genContent(r)};
      if(k && r.chance(0.1))
      {
         // a name that differs from an older one in one letter's case, in its end or in its begin only
         U y = e[r.below(e.size())].name;
         char16_t& ch = y[r.below(y.size())];
         if((ch | 32) >= u'a' && (ch | 32) <= u'z')ch ^= 32;
         else if(r.chance(0.5))y += u'_';
         else y = u"n" + y;
         bool there = false;
         for(auto& o : e)there = there || o.name == y;
         if(!there)x.name = y, count("similarNames");
      }
      if(r.chance(0.08))
      {
         // a name of a single character
         static const char16_t A[] = u"aZ0_-. ~\u00e4\u20ac";
         U y(1, A[r.below(sizeof A / 2 - 1)]);
         bool there = false;
         for(auto& o : e)there = there || o.name == y;
         if(!there)x.name = y, count("shortNames");
      }
      if(x.name.back() == '/')x.data.clear();
      e.push_back(x);
   }
   return e;
}
static std::string desc(const std::vector<Ent>& e)
{
   std::string s = std::to_string(e.size()) + " entries:";
   for(size_t i = 0; i < e.size() && i < 6; i++)s += " " + show(e[i].name) + "=" + std::to_string(e[i].data.size()) + "B";
   return s;
}
static void writeByLib(Rng& r, const std::string& path, const std::vector<Ent>& ents)
{
   std::unique_ptr<jm::File> f(new jm::File(jm::String(path.c_str())));
   ZipOutputFile z(f.get());
   z.open();
   int j = 0;
   for(auto& e : ents)
   {
      ZipEntry* ze = new ZipEntry(mk(e.name));
      z.putNextEntry(ze);
      if(r.chance(0.2))
      {
         std::string src = st().scratch + "/src" + std::to_string(j++ % 3) + ".bin";
         spit(src, e.data);
         jm::File in(jm::String(src.c_str()));
         z.writeAndClose(&in);
         count("fromFile");
      }
      else
      {
         size_t o = 0;
         while(o < e.data.size())
         {
            size_t k = r.chance(0.5) ? e.data.size() - o : (size_t)r.range(1, (int64_t)(e.data.size() - o));
            size_t lead = r.chance(0.002) ? (size_t)r.range(65000, 140000) : r.below(r.chance(0.1) ? 700 : 4);     // bytes in front that the offset skips
            std::vector<uint8> b(lead, 0xEE);
            b.insert(b.end(), e.data.begin() + (long)o, e.data.begin() + (long)(o + k));
            z.write(b.data(), (int64)lead, (int64)k);
            o += k;
         }
         z.closeEntry();
      }
      VH_CHECK(ze->uncompressedSize() == e.data.size(), "written-size", "entry " << show(e.name) << " has uncompressedSize " << ze->uncompressedSize() << " after " << e.data.size() << " bytes");
   }
   z.close();
}
// The library's own reading of an archive.
static void readByLib(Rng& r, const B& bytes, const std::string& path, const std::vector<Ent>& ents, const std::string& what)
{
   std::unique_ptr<uint8[]> hold(new uint8[bytes.size()]);
   memcpy(hold.get(), bytes.data(), bytes.size());
   std::unique_ptr<Stream> s;
   if(r.chance(0.5) || path.empty())s.reset(new MemoryStream(hold.get(), (int64)bytes.size()));
   else s.reset(new jm::File(jm::String(path.c_str())));
   ZipFile z(s.get());
   try
   {
      z.open();
   }
   catch(jm::Exception& e)
   {
      fail("open-rejected", what + ": " + excText(e));
   }
   VH_CHECK(z.entryCount() == ents.size(), "count", what << ": entryCount " << z.entryCount());
   LinkedListIterator it = z.entryIterator();
   size_t k = 0;
   std::vector<ZipEntry*> ze;
   while(it.hasNext())
   {
      ZipEntry* e = static_cast<ZipEntry*>(it.next());
      VH_CHECK(k < ents.size(), "too-many", what);
      U n = rd(e->name());
      VH_CHECK(n == ents[k].name, "name", what << ": entry " << k << " is " << show(n) << " instead of " << show(ents[k].name));
      VH_CHECK(e->uncompressedSize() == ents[k].data.size(), "size", what << ": entry " << show(n) << " size " << e->uncompressedSize() << " instead of " << ents[k].data.size());
      VH_CHECK(e->isDirectory() == (n.size() && n.back() == '/'), "directory-flag", what << " " << show(n));
      ze.push_back(e);
      k++;
   }
   VH_CHECK(k == ents.size(), "iterated", what << ": " << k << " entries");
   std::vector<size_t> order;
   for(size_t i = 0; i < ents.size(); i++)order.push_back(i);
   for(size_t i = order.size(); i > 1; i--)std::swap(order[i - 1], order[r.below(i)]);
   for(size_t i : order)
   {
      ZipEntry* e = z.entry(mk(ents[i].name));
      VH_CHECK(e == ze[i], "lookup", what << ": entry(" << show(ents[i].name) << ")");
      std::unique_ptr<Stream> in;
      try
      {
         in.reset(z.stream(e));
      }
      catch(jm::Exception& x)
      {
         fail("entry-rejected", what + ": entry " + show(ents[i].name) + ": " + excText(x));
      }
      const B& d = ents[i].data;
      VH_CHECK(in && in->size() == (int64)d.size(), "stream-size", what << ": " << (in ? in->size() : -1) << " instead of " << d.size());
      in->open(FileMode::kRead);
      B got;
      size_t chunk = r.chance(0.5) ? d.size() + 1 : (size_t)r.range(1, 4000);
      for(;;)
      {
         std::vector<uint8> b(chunk);
         int64 n = in->read(b.data(), (int64)chunk);
         if(n <= 0)break;
         got.append((const char*)b.data(), (size_t)n);
         if(got.size() > d.size())break;
      }
      VH_CHECK(got == d, "bytes", what << ": entry " << show(ents[i].name) << " " << got.size() << " bytes instead of " << d.size() << ": " << hexShort(got) << " / " << hexShort(d));
      count("entriesRead");
      if(d.empty())count("emptyEntries");
   }
   VH_CHECK(z.entry(mk(u"no such entry\u20ac")) == nullptr, "lookup-missing", what);
   z.close();
   count("archivesRead");
}
static uint32_t u32at(const B& b, size_t o) { uint32_t v; memcpy(&v, b.data() + o, 4); return v; }
static uint32_t u16at(const B& b, size_t o) { return (unsigned char)b[o] | (unsigned)(unsigned char)b[o + 1] << 8; }
// Strict structural reading by the driver.
static void strict(const B& b, const std::vector<Ent>& ents, const std::string& what)
{
   VH_CHECK(b.size() >= 22 && u32at(b, b.size() - 22) == 0x06054b50, "structure", what << ": no end record at the end");
   size_t e = b.size() - 22;
   VH_CHECK(u16at(b, e + 4) == 0 && u16at(b, e + 6) == 0 && u16at(b, e + 8) == ents.size() && u16at(b, e + 10) == ents.size() && u16at(b, e + 20) == 0, "structure", what << ": end record");
   size_t cs = u32at(b, e + 12), co = u32at(b, e + 16), pos = 0;
   VH_CHECK(co + cs == e, "structure", what << ": directory at " << co << " size " << cs << " end " << e);
   size_t c = co;
   for(auto& x : ents)
   {
      B n = utf8(x.name);
      VH_CHECK(c + 46 <= e && u32at(b, c) == 0x02014b50, "structure", what << ": directory signature");
      size_t nl = u16at(b, c + 28), xl = u16at(b, c + 30), cl = u16at(b, c + 32), lo = u32at(b, c + 42);
      uint32_t crc = (uint32_t)crc32(0, (const Bytef*)x.data.data(), (uInt)x.data.size());
      VH_CHECK(b.substr(c + 46, nl) == n, "structure", what << ": directory name");
      VH_CHECK(u32at(b, c + 16) == crc && u32at(b, c + 20) == x.data.size() && u32at(b, c + 24) == x.data.size(), "structure", what << ": directory sizes or checksum of " << show(x.name));
      VH_CHECK(lo == pos && u32at(b, lo) == 0x04034b50, "structure", what << ": local header offset " << lo << " instead of " << pos);
      VH_CHECK(u32at(b, lo + 14) == crc && u32at(b, lo + 18) == x.data.size() && u32at(b, lo + 22) == x.data.size() && u16at(b, lo + 26) == nl, "structure", what << ": local header of " << show(x.name));
      VH_CHECK(u16at(b, lo + 8) == 0 && u16at(b, c + 10) == 0, "structure", what << ": method");
      VH_CHECK(b.substr(lo + 30, nl) == n && b.substr(lo + 30 + nl + u16at(b, lo + 28), x.data.size()) == x.data, "structure", what << ": local name or data of " << show(x.name));
      pos = lo + 30 + nl + u16at(b, lo + 28) + x.data.size();
      c += 46 + nl + xl + cl;
   }
   VH_CHECK(c == e && pos == co, "structure", what << ": gaps");
}
VH_WORKLOAD(roundtrip, 3000, 60000)
{
   Rng& r = c.r;
   std::string p = st().scratch + "/a.zip";
   unlink(p.c_str());
   if(r.chance(0.3))
   {
      spit(p, B((size_t)r.range(1, 20000), 'x'));
      count("overExisting");
   }
   std::vector<Ent> ents = genEntries(r);
   std::string what = desc(ents);
   writeByLib(r, p, ents);
   B b = slurp(p);
   strict(b, ents, what);
   readByLib(r, b, p, ents, what);
   distinct(hashStr(b));
   count("archivesWritten");
   for(auto& e : ents)for(char16_t ch : e.name)if(ch > 127) { count("nonAsciiNames"); break; }
   if(ents.size() > 200)count("manyEntries");
   sample(what);
   // the scratch folder holds nothing the library left behind
   VH_CHECK(access((p + ".jmzipdata.tmp").c_str(), F_OK) != 0, "left-behind", what);
}
// two archives of different content under way at the same time, and one archive rewritten several times
VH_WORKLOAD(twoAtOnce, 300, 3000)
{
   Rng& r = c.r;
   std::string pa = st().scratch + "/two1.zip", pb = st().scratch + "/two2.zip";
   std::vector<Ent> ea = genEntries(r), eb = genEntries(r);
   jm::File fa(jm::String(pa.c_str())), fb(jm::String(pb.c_str()));
   ZipOutputFile za(&fa), zb(&fb);
   za.open();
   zb.open();
   size_t i = 0, j = 0;
   bool openA = false, openB = false;
   auto step = [&](ZipOutputFile & z, std::vector<Ent>& e, size_t& k, bool& op)
   {
      if(!op)
      {
         z.putNextEntry(new ZipEntry(mk(e[k].name)));
         op = true;
      }
      else
      {
         B d = e[k].data;
         if(d.size())z.write((uint8*)d.data(), 0, (int64)d.size());
         z.closeEntry();
         op = false;
         k++;
      }
   };
   while(i < ea.size() || j < eb.size())
   {
      if(i < ea.size() && (j >= eb.size() || r.chance(0.5)))step(za, ea, i, openA);
      else if(j < eb.size())step(zb, eb, j, openB);
   }
   za.close();
   zb.close();
   B a = slurp(pa), b = slurp(pb);
   strict(a, ea, "first of two: " + desc(ea));
   strict(b, eb, "second of two: " + desc(eb));
   readByLib(r, a, pa, ea, "first of two: " + desc(ea));
   readByLib(r, b, pb, eb, "second of two: " + desc(eb));
   count("pairs");
}
static void manifest(const std::string& p, const std::vector<Ent>& ents)
{
   B m;
   auto put = [&](const B & x) { uint32_t n = (uint32_t)x.size(); m.append((const char*)&n, 4); m += x; };
   for(auto& e : ents)
   {
      put(utf8(e.name));
      put(e.data);
   }
   spit(p, m);
}
static B tool(const std::string& args)
{
   const char* v = getenv("VERIF_DIR");
   std::string cmd = "python3 " + std::string(v ? v : "/verif") + "/tools/zipcheck.py " + args + " 2>&1";
   FILE* f = popen(cmd.c_str(), "r");
   B o;
   char b[4096];
   size_t n;
   while((n = fread(b, 1, sizeof b, f)) > 0)o.append(b, n);
   int rc = pclose(f);
   if(rc != 0)o += "\nzipcheck.py failed";
   beat();
   return o;
}
VH_WORKLOAD(pythonReads, 48, 500)
{
   Rng& r = c.r;
   std::string d = st().scratch, list;
   for(int k = 0; k < 25; k++)
   {
      std::vector<Ent> ents = genEntries(r);
      std::string p = d + "/py" + std::to_string(k) + ".zip", m = d + "/py" + std::to_string(k) + ".man";
      if(r.chance(0.7))unlink(p.c_str());
      writeByLib(r, p, ents);
      manifest(m, ents);
      list += p + " " + m + "\n";
   }
   spit(d + "/list", list);
   B o = tool("read " + d);
   VH_CHECK(o.empty(), "python-reads", o.substr(0, 1500));
   count("readByPython", 25);
}
VH_WORKLOAD(pythonWrites, 48, 500)
{
   Rng& r = c.r;
   std::string d = st().scratch;
   uint64_t seed = r.below(1u << 30);
   B o = tool("write " + d + " " + std::to_string(seed) + " 30");
   if(!o.empty())fail("python-tool", o.substr(0, 1000));
   for(int k = 0; k < 30; k++)
   {
      std::string p = d + "/w" + std::to_string(k) + ".zip";
      B m = slurp(d + "/w" + std::to_string(k) + ".man"), b = slurp(p);
      std::vector<Ent> ents;
      for(size_t q = 0; q < m.size();)
      {
         uint32_t n = u32at(m, q);
         B name = m.substr(q + 4, n);
         q += 4 + n;
         n = u32at(m, q);
         Ent e;
         for(size_t i = 0; i < name.size();)
         {
            unsigned char ch = (unsigned char)name[i];
            if(ch < 0x80)e.name += (char16_t)ch, i++;
            else if(ch < 0xE0)e.name += (char16_t)((ch & 31) << 6 | (name[i + 1] & 63)), i += 2;
            else e.name += (char16_t)((ch & 15) << 12 | (name[i + 1] & 63) << 6 | (name[i + 2] & 63)), i += 3;
         }
         e.data = m.substr(q + 4, n);
         q += 4 + n;
         ents.push_back(e);
      }
      readByLib(r, b, p, ents, "written by Python (seed " + std::to_string(seed) + ", archive " + std::to_string(k) + "): " + desc(ents));
      distinct(hashStr(b));
      count("writtenByPython");
   }
}
// k bytes of extra fields: numbered blocks of arbitrary bytes
static B fields(Rng& r, size_t k)
{
   static const unsigned ID[] = {0x5455, 0x7875, 0xFEFF, 0xFFFE, 0xCAFE, 0x0102, 0x9901, 0xBBEF};
   B o;
   while(o.size() + 4 <= k)
   {
      size_t n = std::min(k - o.size() - 4, (size_t)r.range(0, r.chance(0.2) ? 600 : 12));
      unsigned id = ID[r.below(8)];
      o += (char)id; o += (char)(id >> 8); o += (char)n; o += (char)(n >> 8);
      while(n--)o += (char)(r.chance(0.3) ? 0 : r.below(256));
   }
   return o;
}
// archives of an encoder in the driver: random deflate blocks, local extra fields, comments, data descriptors, gaps between the entries
VH_WORKLOAD(ownWriter, 4000, 40000)
{
   Rng& r = c.r;
   std::vector<Ent> ents = genEntries(r);
   if(ents.size() > 30)ents.resize(30);
   B out, dir;
   auto p16 = [](B & o, unsigned v) { o += (char)v; o += (char)(v >> 8); };
   auto p32 = [](B & o, uint32_t v) { o.append((const char*)&v, 4); };
   for(auto& e : ents)
   {
      if(r.chance(0.1))out.append((size_t)r.range(1, 50), 'g');
      B comp = e.data;
      unsigned method = 0;
      if(r.chance(0.6))
      {
         method = 8;
         if(r.chance(0.5) && e.name.back() != '/')
         {
            std::string d;
            e.data.clear();
            comp = randomStream(r, e.data, true, d);
         }
         else
         {
            Enc en;
            comp = zDeflate(r, e.data, true, en);
         }
         count("deflatedEntries");
      }
      B n = utf8(e.name), lx, cx, cc;
      auto extra = [&](char fill)
      {
         // lengths up to the largest the fields can hold
         size_t k = r.chance(0.93) ? (size_t)r.range(1, 60) : r.chance(0.5) ? (size_t)r.range(32700, 65535) : r.chance(0.5) ? 65535 : (size_t)r.range(255, 9000);
         if(k > 32000)count("longFields");
         return r.chance(0.5) ? B(k, fill) : fields(r, k);
      };
      if(r.chance(0.3))lx = extra('\x01');
      if(r.chance(0.3))cx = extra('\x02');
      if(r.chance(0.3))cc = extra('c');
      bool dd = r.chance(0.3);
      uint32_t crc = (uint32_t)crc32(0, (const Bytef*)e.data.data(), (uInt)e.data.size());
      size_t lo = out.size();
      p32(out, 0x04034b50); p16(out, 20); p16(out, 0x0800 | (dd ? 8 : 0)); p16(out, method); p16(out, (unsigned)r.below(65536)); p16(out, (unsigned)r.below(65536));
      p32(out, dd ? 0 : crc); p32(out, dd ? 0 : (uint32_t)comp.size()); p32(out, dd ? 0 : (uint32_t)e.data.size());
      p16(out, (unsigned)n.size()); p16(out, (unsigned)lx.size());
      out += n + lx + comp;
      if(dd) { p32(out, 0x08074b50); p32(out, crc); p32(out, (uint32_t)comp.size()); p32(out, (uint32_t)e.data.size()); }
      p32(dir, 0x02014b50); p16(dir, 0x031E); p16(dir, 20); p16(dir, 0x0800 | (dd ? 8 : 0)); p16(dir, method); p16(dir, (unsigned)r.below(65536)); p16(dir, (unsigned)r.below(65536));
      p32(dir, crc); p32(dir, (uint32_t)comp.size()); p32(dir, (uint32_t)e.data.size());
      p16(dir, (unsigned)n.size()); p16(dir, (unsigned)cx.size()); p16(dir, (unsigned)cc.size()); p16(dir, 0); p16(dir, 0); p32(dir, (uint32_t)r.u64()); p32(dir, (uint32_t)lo);
      dir += n + cx + cc;
   }
   size_t co = out.size();
   B com = r.chance(0.3) ? B((size_t)r.range(1, 700), 'z') : r.chance(0.02) ? B((size_t)r.range(32000, 65535), 'z') : B();
   if(com.size() > 32000)count("longArchiveComments");
   out += dir;
   p32(out, 0x06054b50); p16(out, 0); p16(out, 0); p16(out, (unsigned)ents.size()); p16(out, (unsigned)ents.size()); p32(out, (uint32_t)dir.size()); p32(out, (uint32_t)co); p16(out, (unsigned)com.size());
   out += com;
   std::string path;
   if(r.chance(0.3))spit(path = st().scratch + "/own.zip", out);
   readByLib(r, out, path, ents, "own writer: " + desc(ents));
   distinct(hashStr(out));
   count("ownArchives");
}
// the entries of an archive with extra fields and comments handed on to another archive: they arrive as they are
VH_WORKLOAD(handedFields, 400, 8000)
{
   Rng& r = c.r;
   std::vector<Ent> ents = genEntries(r);
   if(ents.size() > 6)ents.resize(6);
   std::vector<B> extra, note;
   B out, dir;
   auto p16 = [](B & o, unsigned v) { o += (char)v; o += (char)(v >> 8); };
   auto p32 = [](B & o, uint32_t v) { o.append((const char*)&v, 4); };
   for(auto& e : ents)
   {
      B n = utf8(e.name), x = fields(r, r.chance(0.05) ? (size_t)r.range(32700, 65535) : r.below(80)), t;
      for(size_t k = r.below(40); k--;)t += (char)(r.chance(0.8) ? r.range(32, 126) : r.below(256));
      uint32_t crc = (uint32_t)crc32(0, (const Bytef*)e.data.data(), (uInt)e.data.size());
      size_t lo = out.size();
      p32(out, 0x04034b50); p16(out, 20); p16(out, 0x0800); p16(out, 0); p32(out, 0);
      p32(out, crc); p32(out, (uint32_t)e.data.size()); p32(out, (uint32_t)e.data.size()); p16(out, (unsigned)n.size()); p16(out, 0);
      out += n + e.data;
      p32(dir, 0x02014b50); p16(dir, 0x031E); p16(dir, 20); p16(dir, 0x0800); p16(dir, 0); p32(dir, 0);
      p32(dir, crc); p32(dir, (uint32_t)e.data.size()); p32(dir, (uint32_t)e.data.size());
      p16(dir, (unsigned)n.size()); p16(dir, (unsigned)x.size()); p16(dir, (unsigned)t.size()); p16(dir, 0); p16(dir, 0); p32(dir, 0); p32(dir, (uint32_t)lo);
      dir += n + x + t;
      extra.push_back(x);
      note.push_back(t);
   }
   size_t co = out.size();
   out += dir;
   p32(out, 0x06054b50); p32(out, 0); p16(out, (unsigned)ents.size()); p16(out, (unsigned)ents.size()); p32(out, (uint32_t)dir.size()); p32(out, (uint32_t)co); p16(out, 0);
   std::string what = "handed on with fields: " + desc(ents), q = st().scratch + "/fields.zip";
   readByLib(r, out, "", ents, what);
   unlink(q.c_str());
   MemoryStream ms((uint8*)out.data(), (int64)out.size());
   ZipFile src(&ms);
   src.open();
   jm::File to(jm::String(q.c_str()));
   ZipOutputFile dst(&to);
   dst.open();
   LinkedListIterator it = src.entryIterator();
   for(auto& e : ents)
   {
      dst.putNextEntry(static_cast<ZipEntry*>(it.next()));
      if(e.data.size())dst.write((uint8*)e.data.data(), 0, (int64)e.data.size());
      dst.closeEntry();
   }
   dst.close();
   src.close();
   B b = slurp(q);
   strict(b, ents, what);
   size_t p = u32at(b, b.size() - 6);
   for(size_t k = 0; k < ents.size(); k++)
   {
      size_t nl = u16at(b, p + 28), xl = u16at(b, p + 30), cl = u16at(b, p + 32);
      VH_CHECK(b.substr(p + 46 + nl, xl) == extra[k], "extra", what << ": entry " << k << " has " << hexShort(b.substr(p + 46 + nl, xl)) << " instead of " << hexShort(extra[k]));
      VH_CHECK(b.substr(p + 46 + nl + xl, cl) == note[k], "comment", what << ": entry " << k << " has " << hexShort(b.substr(p + 46 + nl + xl, cl)) << " instead of " << hexShort(note[k]));
      p += 46 + nl + xl + cl;
   }
   if(c.index % 8 == 0)
   {
      manifest(st().scratch + "/fields.man", ents);
      spit(st().scratch + "/list", q + " " + st().scratch + "/fields.man\n");
      B o = tool("read " + st().scratch);
      VH_CHECK(o.empty(), "python-reads", what << ": " << o.substr(0, 1500));
   }
   distinct(hashStr(b));
   count("handedFields");
}
// what the format cannot hold: many entries, long names, large files. Either everything is in the archive or somebody is told.
// an archive that grows beyond 4 GiB (behind a hole, so that it takes no space): a valid archive or somebody is told
VH_WORKLOAD(fourGiB, 60, 1000)
{
   Rng& r = c.r;
   std::string p = st().scratch + "/4g.zip";
   unlink(p.c_str());
   struct Gone { const std::string& p; ~Gone() { unlink(p.c_str()); } } gone{p};
   int64 start = r.chance(0.8) ? ((int64)1 << 32) - r.range(0, r.chance(0.5) ? 300 : 5000) : ((int64)1 << 31) + r.range(-300, 300);
   std::vector<Ent> ents = genEntries(r);
   if(ents.size() > 8)ents.resize(8);
   std::string what = "archive behind " + std::to_string(start) + " bytes, " + desc(ents);
   bool told = false;
   {
      jm::File f(jm::String(p.c_str()));
      ZipOutputFile z(&f);
      z.open();
      f.seek(start);
      try
      {
         for(auto& e : ents)
         {
            z.putNextEntry(new ZipEntry(mk(e.name)));
            if(e.data.size())z.write((uint8*)e.data.data(), 0, (int64)e.data.size());
            z.closeEntry();
         }
         z.close();
      }
      catch(jm::Exception&)
      {
         told = true;
         if(f.isOpen())f.close();
      }
   }
   size_t total = 0;
   for(auto& e : ents)total += 300 + e.name.size() * 8 + e.data.size();
   VH_CHECK(!told || start + (int64)total > ((int64)1 << 32), "refused", what);
   count(told ? "fourGiBRefused" : "fourGiBWritten");
   if(told)return;
   {
      FILE* h = fopen(p.c_str(), "rb");
      char end[22] = {};
      bool ok = h && fseek(h, -22, SEEK_END) == 0 && fread(end, 1, 22, h) == 22;
      if(h)fclose(h);
      VH_CHECK(ok && memcmp(end, "PK\x05\x06", 4) == 0, "structure", what << ": no end record at the end");
   }
   jm::File g(jm::String(p.c_str()));
   ZipFile in(&g);
   in.open();
   VH_CHECK(in.entryCount() == ents.size(), "count", what << ": entryCount " << in.entryCount());
   LinkedListIterator it = in.entryIterator();
   for(auto& e : ents)
   {
      ZipEntry* ze = static_cast<ZipEntry*>(it.next());
      VH_CHECK(rd(ze->name()) == e.name && ze->uncompressedSize() == e.data.size(), "name", what << ": " << show(rd(ze->name())));
      std::unique_ptr<Stream> s(in.stream(ze));
      s->open(FileMode::kRead);
      B got(e.data.size() + 1, 0);
      int64 n = s->read((uint8*)&got[0], (int64)got.size());
      VH_CHECK(std::max<int64>(n, 0) == (int64)e.data.size() && got.substr(0, e.data.size()) == e.data, "bytes", what << ": " << show(e.name));
   }
   in.close();
}
VH_WORKLOAD(limits, 10, 100)
{
   Rng& r = c.r;
   std::string d = st().scratch, p = d + "/lim.zip";
   unlink(p.c_str());
   jm::File f(jm::String(p.c_str()));
   ZipOutputFile z(&f);
   std::vector<Ent> ents;
   std::string what;
   bool told = false;
   if(c.index == 0)        // number of entries
   {
      what = "65540 entries";
      z.open();
      try
      {
         for(int k = 0; k < 65540; k++)
         {
            Ent e{U(), B()};
            for(char ch : std::to_string(k))e.name += (char16_t)ch;
            if(k % 1000 == 1)e.data = e.name.size() % 2 ? "data" : "x";
            ZipEntry* ze = new ZipEntry(mk(e.name));
            z.putNextEntry(ze);
            if(e.data.size())z.write((uint8*)e.data.data(), 0, (int64)e.data.size());
            z.closeEntry();
            ents.push_back(e);
            if(k % 256 == 0)beat();
         }
      }
      catch(jm::Exception&) { told = true; }
      VH_CHECK(ents.size() >= 65535, "too-few", "only " << ents.size() << " entries are accepted");
      count("tooMany");
   }
   else if(c.index % 5 == 1)   // size of a file
   {
      int64_t n = ((int64_t)1 << 32) + r.range(0, 100);
      what = "file of " + std::to_string(n) + " bytes";
      std::string src = d + "/large.bin";
      FILE* h = fopen(src.c_str(), "w");
      bool ok = h && ftruncate(fileno(h), (off_t)n) == 0;
      if(h)fclose(h);
      if(!ok)fail("large-file", "cannot make the file");
      ents.push_back(Ent{u"first", "1st"});
      z.open();
      z.putNextEntry(new ZipEntry(mk(u"first")));
      z.write((uint8*)ents[0].data.data(), 0, 3);
      z.closeEntry();
      z.putNextEntry(new ZipEntry(mk(u"large")));
      try
      {
         jm::File in(jm::String(src.c_str()));
         z.writeAndClose(&in);
      }
      catch(jm::Exception&) { told = true; }
      unlink(src.c_str());
      count("tooLarge");
      if(!told)
      {
         z.close();
         struct stat sb;
         VH_CHECK(stat(p.c_str(), &sb) == 0 && sb.st_size > n, "cut", what << " gives an archive of " << sb.st_size << " bytes and no exception");
      }
      return;
   }
   else if(c.index % 5 == 2)   // an entry of more than 16 MiB, in pieces
   {
      z.open();
      Ent e{u"larger", B()};
      z.putNextEntry(new ZipEntry(mk(e.name)));
      size_t n = ((size_t)1 << 24) + r.below(1u << 22);
      what = "entry of " + std::to_string(n) + " bytes";
      while(e.data.size() < n)
      {
         B part = genData(r, std::min(n - e.data.size(), (size_t)r.range(1, 3000000)));
         if(part.empty())part = "x";
         z.write((uint8*)part.data(), 0, (int64)part.size());
         e.data += part;
         beat();
      }
      z.closeEntry();
      ents.push_back(e);
      count("largerEntries");
   }
   else                        // length of a name
   {
      size_t len = r.chance(0.3) ? 65535 : r.chance(0.3) ? 65536 : (size_t)r.range(65000, 200000);
      bool wide = r.chance(0.4);
      U name;
      size_t bytes = 0;
      while(bytes < len)
      {
         if(wide && bytes + 2 <= len) { name += u'\u00e4'; bytes += 2; }
         else { name += (char16_t)(u'a' + bytes % 26); bytes++; }
      }
      what = "name of " + std::to_string(len) + " bytes";
      int n = (int)r.range(0, 3), m = (int)r.range(0, 3);
      z.open();
      try
      {
         for(int k = 0; k < n + 1 + m; k++)
         {
            Ent e{k == n ? name : genName(r, k), genContent(r)};
            if(e.name.back() == '/')e.data.clear();
            try { z.putNextEntry(new ZipEntry(mk(e.name))); }
            catch(jm::Exception&)
            {
               if(k != n || len <= 65535)throw;
               count("nameRefused");
               continue;
            }
            if(e.data.size())z.write((uint8*)e.data.data(), 0, (int64)e.data.size());
            z.closeEntry();
            ents.push_back(e);
         }
      }
      catch(jm::Exception& x) { fail("refused", what + " or another: " + excText(x)); }
      count("longNames");
   }
   try { z.close(); }
   catch(jm::Exception&) { count("closeRefused"); return; }
   if(told)count("manyRefused");
   B b = slurp(p);
   if(ents.size() <= 65535)strict(b, ents, what);
   manifest(d + "/lim.man", ents);
   spit(d + "/list", p + " " + d + "/lim.man\n");
   B o = tool("read " + d);
   VH_CHECK(o.empty(), "python-reads", what << ": " << o.substr(0, 1500));
   MemoryStream ms((uint8*)b.data(), (int64)b.size());
   ZipFile in(&ms);
   in.open();
   VH_CHECK(in.entryCount() == ents.size(), "count", what << ": entryCount " << in.entryCount() << " of " << ents.size());
   LinkedListIterator it = in.entryIterator();
   for(auto& e : ents)
   {
      VH_CHECK(it.hasNext(), "iterated", what);
      ZipEntry* ze = static_cast<ZipEntry*>(it.next());
      VH_CHECK(rd(ze->name()) == e.name && ze->uncompressedSize() == e.data.size(), "name", what << ": " << show(e.name.substr(0, 100)));
   }
   eval(ents.size());
}
// the same reader and writer objects opened again, and entries of one archive handed on to another
VH_WORKLOAD(again, 600, 8000)
{
   Rng& r = c.r;
   std::string p = st().scratch + "/again.zip";
   unlink(p.c_str());
   jm::File f(jm::String(p.c_str()));
   ZipOutputFile z(&f);
   jm::File g(jm::String(p.c_str()));
   ZipFile rd1(&g);
   int rounds = (int)r.range(2, 4);
   for(int round = 0; round < rounds; round++)
   {
      std::vector<Ent> ents = genEntries(r);
      if(ents.size() > 12)ents.resize(12);
      std::string what = "round " + std::to_string(round) + ", " + desc(ents);
      z.open();
      for(auto& e : ents)
      {
         z.putNextEntry(new ZipEntry(mk(e.name)));
         if(e.data.size())z.write((uint8*)e.data.data(), 0, (int64)e.data.size());
         z.closeEntry();
      }
      z.close();
      strict(slurp(p), ents, "writer opened again, " + what);
      for(int k = (int)r.range(1, 2); k--;)
      {
         rd1.open();
         VH_CHECK(rd1.entryCount() == ents.size(), "count", "reader opened again, " << what << ": entryCount " << rd1.entryCount());
         LinkedListIterator it = rd1.entryIterator();
         size_t i = 0;
         while(it.hasNext())
         {
            ZipEntry* ze = static_cast<ZipEntry*>(it.next());
            VH_CHECK(i < ents.size() && rd(ze->name()) == ents[i].name && rd1.entry(mk(ents[i].name)) == ze, "name", "reader opened again, " << what);
            std::unique_ptr<Stream> in(rd1.stream(ze));
            in->open(FileMode::kRead);
            B got(ents[i].data.size() + 1, 0);
            int64 n = ents[i].data.empty() ? 0 : in->read((uint8*)&got[0], (int64)got.size());
            VH_CHECK(n == (int64)ents[i].data.size() && got.substr(0, (size_t)n) == ents[i].data, "bytes", "reader opened again, " << what);
            i++;
         }
         VH_CHECK(i == ents.size(), "iterated", what);
         rd1.close();
         count("reopened");
      }
      // copy
      std::string q = st().scratch + "/copy.zip";
      unlink(q.c_str());
      {
         jm::File from(jm::String(p.c_str())), to(jm::String(q.c_str()));
         ZipFile src(&from);
         src.open();
         ZipOutputFile dst(&to);
         dst.open();
         std::vector<Ent> part;
         LinkedListIterator it = src.entryIterator();
         for(auto& e : ents)
         {
            ZipEntry* ze = static_cast<ZipEntry*>(it.next());
            if(r.chance(0.3))continue;
            dst.putNextEntry(ze);
            if(e.data.size())dst.write((uint8*)e.data.data(), 0, (int64)e.data.size());
            dst.closeEntry();
            part.push_back(e);
         }
         dst.close();
         src.close();
         strict(slurp(q), part, "copy of some, " + what);
         count("handedOn");
      }
   }
   distinct(hashStr(slurp(p)));
}
VH_REQUIRE("fourGiBRefused", "fourGiBWritten", "largerEntries", "handedFields", "longFields", "longArchiveComments", "similarNames", "shortNames", "tooMany", "tooLarge", "longNames", "reopened", "handedOn", "archivesWritten", "archivesRead", "entriesRead", "emptyEntries", "nonAsciiNames", "overExisting", "fromFile", "readByPython", "writtenByPython", "ownArchives", "deflatedEntries", "pairs", "manyEntries")
VH_DRIVER("P12", "For every archive: names, order, sizes, checksums and bytes of all entries identical for Python's zipfile, the driver's strict reader and ZipFile; nothing left behind in the folder")
