// P16: checksums.
// VH-TECH: CRC-16 compared with an independent bit-by-bit evaluation over all byte values, start values and splits; CRC-32 of archive entries compared with zlib; ASan+UBSan on exactly sized buffers
// VH-CONFIG: libs=-lz
#include "deflate_gen.hpp"
#include <fstream>
using namespace vh;
using namespace jm;
static uint16_t ref(uint16_t crc, const uint8_t* p, size_t n)
{
   while(n--)
   {
      crc ^= *p++;
      for(int k = 0; k < 8; k++)crc = crc & 1 ? (uint16_t)(crc >> 1 ^ 0xA001) : (uint16_t)(crc >> 1);
   }
   return crc;
}
// every single byte with every start value: 256 cases of 65536
VH_WORKLOAD(everyByteAndState, 256, 256)
{
   uint8_t b = (uint8_t)c.index;
   for(unsigned s = 0; s < 65536; s++)
   {
      uint16 g = CRC::crc8((uint16)s, &b, 1), x = ref((uint16_t)s, &b, 1);
      if(g != x)fail("byte", Msg() << "start " << s << " byte " << (unsigned)b << ": " << g << " instead of " << x);
   }
   eval(65536);
   distinct(c.index);
   count("bytesTimesStates", 65536);
}
VH_WORKLOAD(splits, 60000, 400000)
{
   Rng& r = c.r;
   B d = genData(r, r.chance(0.05) ? genSize(r) : (size_t)r.range(0, 400));
   std::unique_ptr<uint8[]> h(new uint8[d.size()]);
   memcpy(h.get(), d.data(), d.size());
   uint16 start = r.chance(0.5) ? 0 : r.chance(0.3) ? 0xFFFF : (uint16)r.below(65536);
   uint16 x = ref(start, h.get(), d.size());
   uint16 g = CRC::crc8(start, h.get(), (uint32)d.size());
   VH_CHECK(g == x, "whole", d.size() << " bytes from " << start << ": " << g << " instead of " << x << "; " << hex(d));
   uint16 part = start, other = 0;
   size_t o = 0;
   std::string cuts;
   while(o < d.size())
   {
      size_t k = r.chance(0.2) ? 0 : (size_t)r.range(1, (int64_t)std::min<size_t>(d.size() - o, r.chance(0.5) ? 7 : 100000));
      part = CRC::crc8(part, h.get() + o, (uint32)k);
      other = CRC::crc8(other, h.get(), (uint32)r.below(d.size() + 1));   // another computation in between
      o += k;
      cuts += std::to_string(k) + " ";
      count("updates");
   }
   VH_CHECK(part == x, "split", d.size() << " bytes from " << start << " in pieces " << cuts.substr(0, 300) << ": " << part << " instead of " << x);
   VH_CHECK(memcmp(h.get(), d.data(), d.size()) == 0, "input-changed", "");
   if(d.empty())VH_CHECK(g == start, "empty", g << " from " << start);
   distinct(mix(hashStr(d), start));
   sample(std::to_string(d.size()) + " bytes from " + std::to_string(start) + " in pieces " + cuts.substr(0, 60));
   count("splitRuns");
}
VH_WORKLOAD(archiveChecksum, 1500, 30000)
{
   Rng& r = c.r;
   std::string p = st().scratch + "/c.zip";
   std::vector<B> all;
   {
      jm::File f(jm::String(p.c_str()));
      ZipOutputFile z(&f);
      z.open();
      int n = (int)r.range(1, 4);
      for(int k = 0; k < n; k++)
      {
         B d;
         if(c.index < 256 && k == 0)d = B(1, (char)c.index);
         else d = genData(r, (size_t)r.range(0, r.chance(0.1) ? 20000 : 300));
         z.putNextEntry(new ZipEntry(jm::String("e") + jm::String::valueOf((int64)k)));
         for(size_t o = 0; o < d.size();)
         {
            size_t q = (size_t)r.range(1, (int64_t)(d.size() - o));
            z.write((uint8*)d.data(), (int64)o, (int64)q);
            o += q;
         }
         z.closeEntry();
         all.push_back(d);
      }
      z.close();
   }
   std::ifstream f(p, std::ios::binary);
   std::ostringstream os;
   os << f.rdbuf();
   B b = os.str();
   uint32_t co;
   memcpy(&co, b.data() + b.size() - 6, 4);
   for(auto& d : all)
   {
      uint32_t got, lo, got2, x = (uint32_t)crc32(0, (const Bytef*)d.data(), (uInt)d.size());
      memcpy(&got, b.data() + co + 16, 4);
      memcpy(&lo, b.data() + co + 42, 4);
      memcpy(&got2, b.data() + lo + 14, 4);
      VH_CHECK(got == x && got2 == x, "crc32", d.size() << " bytes: directory " << got << ", local header " << got2 << " instead of " << x << "; " << hex(d));
      co += 46 + (unsigned char)b[co + 28];
      count("crc32");
   }
}
VH_REQUIRE("bytesTimesStates", "splitRuns", "updates", "crc32")
VH_DRIVER("P16", "CRC-16 (reflected 0x8005) of whole and split data identical to the bitwise definition for every byte value and start value; CRC-32 of archive entries identical to zlib's")
