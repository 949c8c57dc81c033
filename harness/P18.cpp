// P18: reading and writing files.
// VH-TECH: operation histories on scratch files compared with a byte-vector model of an ordinary file; disk contents read back through POSIX calls; exactly sized buffers under ASan+UBSan
#include "vh.hpp"
#include <sys/stat.h>
#include <map>
using namespace vh;
using namespace jm;
typedef std::string B;
static B slurp(const std::string& p)
{
   B o;
   int fd = ::open(p.c_str(), O_RDONLY);
   if(fd < 0)return "<none>";
   char b[8192];
   ssize_t n;
   while((n = ::read(fd, b, sizeof b)) > 0)o.append(b, (size_t)n);
   ::close(fd);
   return o;
}
static void spit(const std::string& p, const B& d)
{
   int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
   if(::write(fd, d.data(), d.size()) != (ssize_t)d.size())abort();
   ::close(fd);
}
static B randBytes(Rng& r, size_t n)
{
   B b;
   while(n--)b += (char)r.below(256);
   return b;
}
static size_t len(Rng& r)
{
   if(r.chance(0.004))
   {
      count("largeTransfers");
      return r.chance(0.5) ? 65530 + r.below(12) : 65000 + r.below(150000);
   }
   switch(r.below(8))
   {
      case 0: return r.below(3);
      case 1: return 4090 + r.below(12);
      case 2: return r.below(20000);
      default: return r.below(200);
   }
}
// nothing is transferred by a file that is not open
static void unopened(jm::File& f, Rng& r, const std::string& h)
{
   uint8 b[40] = {7};
   switch(r.below(6))
   {
      case 0: VH_CHECK(f.read(b, 40) <= 0 && b[0] == 7, "not-open-read", h); break;
      case 1: VH_CHECK(f.write((const uint8*)b, 40) <= 0, "not-open-write", h); break;
      case 2:
      {
         ByteArray a(40, 0x77);
         VH_CHECK(f.Stream::readFully(a) <= 0 && a.get(0) == 0x77, "not-open-readFully", h);
         break;
      }
      case 3: VH_CHECK(f.position() <= 0, "not-open-position", h); break;
      default:
         try
         {
            if(r.chance(0.5))f.seek((int64)r.below(50));
            else f.move((int64)r.below(50));
         }
         catch(jm::Exception&)
         {
         }
   }
   count("notOpen");
}
VH_WORKLOAD(histories, 40000, 800000)
{
   Rng& r = c.r;
   std::string p = st().scratch + "/f18" + (r.chance(0.3) ? "\xc3\xa4\xe2\x82\xac" : "") + ".bin";
   unlink(p.c_str());
   B m;
   bool there = r.chance(0.7);
   if(there)spit(p, m = randBytes(r, len(r)));
   jm::File f{jm::String(p.c_str())};
   std::string h = there ? "file of " + std::to_string(m.size()) + "; " : "no file; ";
   for(int o = (int)r.range(1, 5); o--;)
   {
      VH_CHECK(f.exists() == there && f.isFile() == there, "exists", h << " exists " << f.exists());
      VH_CHECK(f.size() == (there ? (int64)m.size() : 0), "size", h << " size " << f.size() << " instead of " << m.size());
      VH_CHECK(!f.isOpen(), "isOpen", h);
      if(r.chance(0.2))unopened(f, r, h);
      int mode = (int)r.below(3);
      static const char* MN[] = {"read", "write", "readwrite"};
      h += std::string("open(") + MN[mode] + "); ";
      if(!there && mode != 1)
      {
         if(r.chance(0.9))continue;
         Status s = f.open(mode == 0 ? FileMode::kRead : FileMode::kReadWrite);
         VH_CHECK(s == Status::eNotFound && !f.isOpen(), "open-missing", h << " status " << (int)s);
         if(r.chance(0.5))unopened(f, r, h);
         VH_CHECK(slurp(p) == "<none>", "open-missing-created", h);
         count("openMissing");
         continue;
      }
      Status s = f.open(mode == 0 ? FileMode::kRead : mode == 1 ? FileMode::kWrite : FileMode::kReadWrite);
      VH_CHECK(s == Status::eOK && f.isOpen(), "open", h << " status " << (int)s);
      if(mode == 1)
      {
         m.clear();
         there = true;
      }
      count(MN[mode]);
      int64 pos = 0;
      int last = 0;   // 1 read, 2 written
      for(int k = (int)r.range(0, 14); k--;)
      {
         int op = (int)r.below(8);
         if(op < 3 && mode == 1)op = 4;
         if((op == 3 || op == 4) && mode == 0)op = 0;
         if(last == 1 && (op == 3 || op == 4))count("writeAfterRead");
         if(last == 2 && op < 3)count("readAfterWrite");
         switch(op)
         {
            case 0:
            case 1:
            {
               size_t n = len(r);
               std::unique_ptr<uint8[]> b(new uint8[n]);
               h += "read " + std::to_string(n) + "@" + std::to_string(pos) + "; ";
               int64 e = std::max<int64>(0, std::min<int64>((int64)n, (int64)m.size() - pos));
               int64 g = f.read(b.get(), (int64)n);
               VH_CHECK(g == e, "read-count", h << " returned " << g << " instead of " << e);
               if(e > 0)VH_CHECK(memcmp(b.get(), m.data() + pos, (size_t)e) == 0, "read-bytes", h);
               pos += e;
               last = 1;
               if(e < (int64)n)count("shortReads");
               count("reads");
               break;
            }
            case 2:
            {
               size_t n = len(r);
               ByteArray b((int64)n, 0x77);
               int64 l = r.chance(0.5) ? (int64)n : (int64)len(r);
               h += "readFully " + std::to_string(n) + "," + std::to_string(l) + "@" + std::to_string(pos) + "; ";
               int64 e = std::max<int64>(0, std::min<int64>(std::min((int64)n, l), (int64)m.size() - pos));
               int64 g = l == (int64)n ? f.Stream::readFully(b) : f.readFully(b, l);
               VH_CHECK(g == e && b.size() == (int64)n, "readFully-count", h << " returned " << g << " instead of " << e);
               for(int64 q = 0; q < (int64)n; q++)if(b.get(q) != (q < e ? (uint8)m[(size_t)(pos + q)] : 0x77))fail("readFully-bytes", h + " byte " + std::to_string(q));
               eval();
               pos += e;
               last = 1;
               count("readFully");
               break;
            }
            case 3:
            case 4:
            {
               B d = randBytes(r, len(r));
               std::unique_ptr<uint8[]> b(new uint8[d.size()]);
               memcpy(b.get(), d.data(), d.size());
               h += "write " + std::to_string(d.size()) + "@" + std::to_string(pos) + "; ";
               int64 g;
               if(r.chance(0.1))
               {
                  d = "caf\xc3\xa9 \xe2\x82\xac";
                  g = f.Stream::write(jm::String("caf\xc3\xa9 \xe2\x82\xac"));
               }
               else g = r.chance(0.5) ? f.write((const uint8*)b.get(), (int64)d.size()) : f.Stream::write((const int8*)b.get(), (int64)d.size());
               VH_CHECK(g == (int64)d.size(), "write-count", h << " returned " << g);
               if(pos > (int64)m.size() && d.size())
               {
                  m.resize((size_t)pos, 0);
                  count("writtenBeyondEnd");
               }
               if(d.size())
               {
                  if(pos + (int64)d.size() > (int64)m.size())m.resize((size_t)pos + d.size(), 0);
                  memcpy(&m[(size_t)pos], d.data(), d.size());
               }
               pos += (int64)d.size();
               last = 2;
               count("writes");
               break;
            }
            case 5:
            {
               int64 q = r.chance(0.8) ? r.range(0, (int64)m.size()) : r.range(0, (int64)m.size() + 3000);
               h += "seek " + std::to_string(q) + "; ";
               f.seek(q);
               pos = q;
               last = 0;
               if(q > (int64)m.size())count("seekBeyondEnd");
               count("seeks");
               break;
            }
            case 6:
            {
               int64 q = r.range(-pos, (int64)m.size() - pos + (r.chance(0.1) ? 1000 : 0) < -pos ? -pos : (int64)m.size() - pos + 5);
               h += "move " + std::to_string(q) + "; ";
               f.move(q);
               pos += q;
               last = 0;
               count("moves");
               break;
            }
            default:
               if(r.chance(0.05))
               {
                  bool threw = false;
                  try
                  {
                     if(r.chance(0.5))f.seek(-1 - (int64)r.below(100));
                     else f.move(-pos - 1 - (int64)r.below(100));
                  }
                  catch(jm::Exception&)
                  {
                     threw = true;
                  }
                  VH_CHECK(threw, "seek-before-start", h << " accepted");
                  last = 0;
                  f.seek(pos);
                  count("seekBeforeStart");
               }
         }
         VH_CHECK(f.position() == pos, "position", h << " position " << f.position() << " instead of " << pos);
         VH_CHECK(f.isOpen(), "isOpen", h);
      }
      f.close();
      h += "close; ";
      VH_CHECK(!f.isOpen(), "still-open", h);
      B d = slurp(p);
      VH_CHECK(d == m, "disk", h << " on disk " << d.size() << " bytes instead of " << m.size() << ": " << hex(d.substr(0,40)) << " / " << hex(m.substr(0,40)));
      if(r.chance(0.2))f.close();   // closing twice changes nothing
   }
   VH_CHECK(f.size() == (there ? (int64)m.size() : 0), "size", h << " size " << f.size());
   if(there)
   {
      // whole-file read
      f.open(FileMode::kRead);
      ByteArray all(f.size(), 0);
      int64 g = f.Stream::readFully(all);
      f.close();
      VH_CHECK(g == (int64)m.size() && bytesOf(all) == m, "whole", h << " read " << g << " of " << m.size());
      count("whole");
   }
   distinct(hashStr(h));
   sample(h);
   unlink(p.c_str());
}
// two files at once; a file replaced behind the object's back
VH_WORKLOAD(several, 6000, 40000)
{
   Rng& r = c.r;
   std::vector<std::string> p;
   std::vector<B> m;
   std::vector<std::unique_ptr<jm::File>> f;
   int n = (int)r.range(2, 4);
   for(int k = 0; k < n; k++)
   {
      p.push_back(st().scratch + "/s" + std::to_string(k));
      m.push_back(randBytes(r, len(r)));
      spit(p.back(), m.back());
      f.emplace_back(new jm::File(jm::String(p.back().c_str())));
      f.back()->open(FileMode::kReadWrite);
   }
   std::string h;
   for(int k = 30; k--;)
   {
      size_t i = r.below((uint64_t)n);
      int64 q = r.range(0, (int64)m[i].size());
      f[i]->seek(q);
      if(r.chance(0.5))
      {
         B d = randBytes(r, r.below(60));
         VH_CHECK(f[i]->write((const uint8*)d.data(), (int64)d.size()) == (int64)d.size(), "write-count", h);
         if(q + (int64)d.size() > (int64)m[i].size())m[i].resize((size_t)q + d.size());
         if(d.size())memcpy(&m[i][(size_t)q], d.data(), d.size());
         h += "w" + std::to_string(i) + "@" + std::to_string(q) + "+" + std::to_string(d.size()) + " ";
      }
      else
      {
         size_t z = r.below(300);
         std::vector<uint8> b(z + 1);
         int64 g = f[i]->read(b.data(), (int64)z), e = std::min<int64>((int64)z, (int64)m[i].size() - q);
         VH_CHECK(g == e && memcmp(b.data(), m[i].data() + q, (size_t)e) == 0, "read-several", h << "r" << i << "@" << q << " " << g << " instead of " << e);
         h += "r" + std::to_string(i) + "@" + std::to_string(q) + "+" + std::to_string(z) + " ";
      }
   }
   for(int i = 0; i < n; i++)
   {
      f[(size_t)i]->close();
      VH_CHECK(slurp(p[(size_t)i]) == m[(size_t)i], "disk", h << " file " << i);
   }
   distinct(hashStr(h));
   count("several");
}
// files of several gigabytes, nearly all of it a hole: positions and sizes beyond 31 and 32 bits
VH_WORKLOAD(huge, 800, 12000)
{
   Rng& r = c.r;
   std::string p = st().scratch + "/huge18.bin", h;
   struct Gone { const std::string& p; ~Gone() { unlink(p.c_str()); } } gone{p};
   static const int64 AT[] = {2147483648LL, 4294967296LL, 4294967296LL + 2147483648LL, 8589934592LL, 1LL << 36, 1000000000LL, 1LL << 40};
   auto place = [&]() { return AT[r.below(7)] + r.range(-40, 40); };
   int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
   int64 size = r.chance(0.2) ? 0 : place();
   if(ftruncate(fd, size) != 0)
   {
      ::close(fd);
      count("hugeUnsupported");
      throw Skip();
   }
   std::map<int64, uint8> m;   // the bytes that are not in the hole
   jm::File f{jm::String(p.c_str())};
   VH_CHECK(f.size() == size, "huge-size", "size " << f.size() << " instead of " << size);
   VH_CHECK(f.open(FileMode::kReadWrite) == Status::eOK, "huge-open", size);
   int64 pos = 0;
   h = "size " + std::to_string(size) + "; ";
   for(int k = (int)r.range(2, 12); k--;)
   {
      switch(r.below(4))
      {
         case 0: pos = place(); f.seek(pos); h += "seek " + std::to_string(pos) + "; "; break;
         case 1:
         {
            int64 q = place(), d = r.chance(0.7) ? q - pos : std::max(-pos, r.range(-100, 100));
            pos += d;
            f.move(d);
            h += "move " + std::to_string(d) + "; ";
            break;
         }
         case 2:
         {
            uint8 b[50];
            size_t n = (size_t)r.range(1, 50);
            for(size_t i = 0; i < n; i++)m[pos + (int64)i] = b[i] = (uint8)r.below(256);
            int64 g = f.write(b, (int64)n);
            VH_CHECK(g == (int64)n, "huge-write", h << " write " << g);
            pos += g;
            size = std::max(size, pos);
            h += "write " + std::to_string(n) + "; ";
            break;
         }
         default:
         {
            uint8 b[50];
            size_t n = (size_t)r.range(1, 50);
            int64 e = std::max<int64>(0, std::min<int64>((int64)n, size - pos)), g = f.read(b, (int64)n);
            VH_CHECK(g == e, "huge-read-count", h << " read " << n << " returned " << g << " instead of " << e);
            for(int64 i = 0; i < g; i++)VH_CHECK(b[i] == (m.count(pos + i) ? m[pos + i] : 0), "huge-read", h << " byte " << i);
            pos += g;
            h += "read " + std::to_string(n) + "; ";
         }
      }
      VH_CHECK(f.position() == pos, "huge-position", h << " position " << f.position() << " instead of " << pos);
   }
   f.close();
   VH_CHECK(f.size() == size, "huge-size", h << " size " << f.size() << " instead of " << size);
   struct stat sb;
   VH_CHECK(fstat(fd, &sb) == 0 && sb.st_size == size, "huge-disk-size", h << " size " << (int64)sb.st_size << " instead of " << size);
   for(auto& kv : m)
   {
      uint8 b = 0;
      VH_CHECK(::pread(fd, &b, 1, kv.first) == 1 && b == kv.second, "huge-disk", h << " byte at " << kv.first);
   }
   ::close(fd);
   distinct(hashStr(h));
   count("huge");
}
VH_REQUIRE("huge", "notOpen", "largeTransfers", "read", "write", "readwrite", "reads", "writes", "shortReads", "readFully", "seeks", "moves", "seekBeyondEnd", "writtenBeyondEnd", "seekBeforeStart", "openMissing", "whole", "several", "writeAfterRead", "readAfterWrite")
VH_DRIVER("P18", "After every step count, position and bytes equal the byte-vector model; after every close the file on disk read through POSIX equals the model; size and existence agree")
