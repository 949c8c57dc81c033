// P10: compression round trips, both ways against zlib and an independent encoder.
// VH-CONFIG: hang=300
// VH-CONFIG: alloc=6144
// VH-CONFIG: libs=-lz
// VH-TECH: generated data and streams, round trip through the library, zlib and a random deflate encoder as oracles, under ASan+UBSan+LSan
#include "deflate_gen.hpp"
#include <sys/mman.h>
using namespace vh;
using jm::Inflater;
using jm::Deflater;

// result of the library for a stream in an exactly sized buffer
static B inflateLib(Rng& r, const B& in, bool wrap, const std::string& what)
{
   uint8* copy = new uint8[in.size()];
   memcpy(copy, in.data(), in.size());
   std::unique_ptr<uint8[]> hold(copy);
   std::unique_ptr<Inflater> inf(!wrap && r.chance(0.5) ? new Inflater() : new Inflater(wrap));
   VH_CHECK(!inf->Finished() && inf->NeedsInput(), "inflater-state", what << ": finished before the start");
   inf->SetInput(copy, (int64)in.size());
   uint8* buf = nullptr;
   int64 len = -1;
   try
   {
      inf->Inflate(buf, len);
   }
   catch(jm::Exception& e)
   {
      fail("inflate-exception", what + ": valid stream rejected: " + excText(e) + " stream " + hexShort(in));
   }
   std::unique_ptr<uint8[]> own(buf);
   VH_CHECK(len >= 0 && (len == 0 || buf != nullptr), "inflate-length", what << ": length " << len);
   VH_CHECK(inf->Finished() && !inf->NeedsInput(), "inflater-state", what << ": not finished at the end");
   VH_CHECK(inf->GetTotalOut() == len, "inflater-total", what << ": total out " << inf->GetTotalOut() << " for " << len << " bytes");
   VH_CHECK(inf->GetTotalIn() + inf->GetRemaining() == (int64)in.size() && inf->GetRemaining() >= 0 && inf->GetRemaining() <= (wrap ? 1 : 0), "inflater-read",
            what << ": " << inf->GetTotalIn() << " of " << in.size() << " bytes read, " << inf->GetRemaining() << " remain");
   B out((const char*)buf, (size_t)len);
   if(r.chance(0.2))
   {
      // the same object again
      inf->Reset();
      inf->SetInput(copy, (int64)in.size());
      uint8* b2 = nullptr;
      int64 l2 = -1;
      inf->Inflate(b2, l2);
      std::unique_ptr<uint8[]> own2(b2);
      VH_CHECK(l2 == len && memcmp(b2, out.data(), out.size()) == 0, "inflate-reset", what << ": another result after Reset()");
      VH_CHECK(memcmp(buf, out.data(), out.size()) == 0, "inflate-reset-overwrites", what << ": the second run changed the buffer handed out by the first");
      count("reset");
   }
   return out;
}
static void same(const B& got, const B& want, const char* key, const std::string& what)
{
   size_t i = 0;
   while(i < got.size() && i < want.size() && got[i] == want[i])i++;
   VH_CHECK(got == want, key, what << ": " << got.size() << " bytes instead of " << want.size() << ", first difference at " << i);
}
VH_WORKLOAD(deflater, 1600, 30000)
{
   Rng& r = c.r;
   Deflater d;
   int n = (int)r.range(1, 3);
   int64 in = 0, out = 0;
   for(int k = 0; k < n; k++)
   {
      B data = genData(r, genSize(r));
      std::string what = "Deflater on " + hexShort(data);
      std::unique_ptr<uint8[]> hold(new uint8[data.size()]);
      memcpy(hold.get(), data.data(), data.size());
      d.setInput(hold.get(), (int64)data.size());
      uint8* buf = nullptr;
      int64 len = -1;
      d.deflate(buf, len);
      std::unique_ptr<uint8[]> own(buf);
      VH_CHECK(memcmp(hold.get(), data.data(), data.size()) == 0, "deflate-input-changed", what);
      VH_CHECK(buf != nullptr && len > 0, "deflate-empty", what << ": length " << len);
      in += (int64)data.size();
      out += len;
      VH_CHECK(d.totalInSize() == in && d.totalOutSize() == out, "deflate-totals", what << ": " << d.totalInSize() << "/" << d.totalOutSize() << " expected " << in << "/" << out);
      B comp((const char*)buf, (size_t)len);
      Ref x = refInflate(comp, 15);
      VH_CHECK(x.complete && !x.error, "deflate-invalid", what << ": zlib cannot read the result: " << x.msg << " " << hexShort(comp));
      VH_CHECK(x.used == comp.size(), "deflate-trailing", what << ": " << comp.size() - x.used << " bytes after the end of the stream");
      same(x.out, data, "deflate-wrong", what);
      same(inflateLib(r, comp, false, what), data, "roundtrip", what);
      distinct(mix(hashStr(data), 1));
      count(len >= (int64)data.size() ? "expandedByDeflate" : "shortenedByDeflate");
      sample(what);
      if(r.chance(0.3))
      {
         d.reset();
         in = out = 0;
         VH_CHECK(d.totalInSize() == 0 && d.totalOutSize() == 0, "deflate-reset", "totals after reset");
      }
   }
}
VH_WORKLOAD(zlibStreams, 2400, 50000)
{
   Rng& r = c.r;
   B data = genData(r, genSize(r));
   bool raw = r.chance(0.5);
   Enc e;
   B comp = zDeflate(r, data, raw, e);
   Ref x = refInflate(comp, raw ? -15 : 15);
   if(!x.complete || x.out != data)abort();   // the oracle itself must be right
   std::string what = std::string(raw ? "raw" : "zlib") + " stream by zlib, " + e.str() + ", data " + hexShort(data);
   same(inflateLib(r, comp, raw, what), data, "inflate-wrong", what);
   distinct(mix(hashStr(data), (uint64_t)(e.level * 100 + e.strategy * 10 + e.memLevel)));
   count("zlibLevel" + std::to_string(e.level));
   count("zlibStrategy" + std::to_string(e.strategy));
   count(raw ? "rawStreams" : "wrappedStreams");
}
VH_WORKLOAD(synthetic, 4000, 100000)
{
   Rng& r = c.r;
   bool raw = r.chance(0.5);
   B plain;
   std::string desc;
   B comp = randomStream(r, plain, raw, desc);
   Ref x = refInflate(comp, raw ? -15 : 15);
   if(!x.complete || x.out != plain)   // the encoder itself must be right
   {
      fprintf(stderr, "encoder is wrong: %s %s\n", desc.c_str(), x.msg.c_str());
      abort();
   }
   std::string what = std::string(raw ? "raw" : "zlib") + " synthetic stream: " + desc;
   same(inflateLib(r, comp, raw, what), plain, "inflate-wrong", what);
   distinct(hashStr(comp));
   if(desc.find("stored") != std::string::npos)count("storedBlocks");
   if(desc.find("fixed") != std::string::npos)count("fixedBlocks");
   if(desc.find("dynamic") != std::string::npos)count("dynamicBlocks");
   if(desc.find("crossing") != std::string::npos)count("crossingRuns");
   sample(what);
}
// Sizes past 24 and 32 bits: mostly zeros (untouched pages) with marks at the start, around the borders and at the end.
VH_WORKLOAD(huge, 2, 6)
{
   Rng& r = c.r;
   bool big = c.index % 2 == 1;
   size_t n = big ? ((size_t)1 << 32) + (size_t)r.range(1, 70000) : ((size_t)1 << 24) + (size_t)r.range(1, 1 << 20);
   uint8* m = (uint8*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if(m == MAP_FAILED) { count("noMemory"); return; }
   auto mark = [&](size_t at) { for(size_t k = at; k < n && k < at + 5000; k++)m[k] = (uint8)r.below(256); };
   mark(0);
   mark(n - 700);
   if(big)
   {
      mark(((size_t)1 << 30) - 300);
      mark(((size_t)1 << 31) - 300);
      mark(((size_t)1 << 32) - 300);
   }
   std::string what = "Deflater on " + std::to_string(n) + " bytes";
   Deflater d;
   d.setInput(m, (int64)n);
   uint8* buf = nullptr;
   int64 len = -1;
   d.deflate(buf, len);
   std::unique_ptr<uint8[]> own(buf);
   VH_CHECK(len > 0 && d.totalInSize() == (int64)n && d.totalOutSize() == len, "deflate-totals", what << ": " << d.totalInSize() << "/" << d.totalOutSize() << ", length " << len);
   z_stream z;
   memset(&z, 0, sizeof z);
   if(inflateInit(&z) != Z_OK)abort();
   z.next_in = buf;
   z.avail_in = (uInt)len;
   std::vector<uint8> o(1 << 20);
   size_t at = 0;
   int rc = Z_OK;
   while(rc == Z_OK)
   {
      z.next_out = o.data();
      z.avail_out = (uInt)o.size();
      rc = inflate(&z, Z_NO_FLUSH);
      size_t got = o.size() - z.avail_out;
      if(rc != Z_OK && rc != Z_STREAM_END)break;
      VH_CHECK(got <= n - at && memcmp(o.data(), m + at, got) == 0, "deflate-wrong", what << ": difference between " << at << " and " << at + got);
      at += got;
   }
   inflateEnd(&z);
   VH_CHECK(rc == Z_STREAM_END && at == n && z.avail_in == 0, "deflate-wrong", what << ": the stream ends after " << at << " bytes");
   if(!big)
   {
      Inflater inf;
      inf.SetInput(buf, len);
      uint8* b2 = nullptr;
      int64 l2 = -1;
      inf.Inflate(b2, l2);
      std::unique_ptr<uint8[]> own2(b2);
      VH_CHECK(l2 == (int64)n && memcmp(b2, m, n) == 0, "roundtrip", what << ": " << l2 << " bytes");
   }
   munmap(m, n);
   distinct(n);
   count(big ? "past32Bits" : "past24Bits");
}
VH_REQUIRE("past24Bits", "past32Bits", "reset", "expandedByDeflate", "shortenedByDeflate", "rawStreams", "wrappedStreams", "storedBlocks", "fixedBlocks", "dynamicBlocks", "crossingRuns",
           "zlibLevel0", "zlibLevel9", "zlibStrategy4")
VH_DRIVER("P10", "zlib reads what the Deflater wrote as the original bytes; the Inflater reproduces data compressed by the Deflater, by zlib (all levels, strategies, windows, flushes) and by a random deflate encoder")
