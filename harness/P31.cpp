// P31: binary serialisation.
// VH-TECH: every 16- and 24-bit value and random, structured and extreme 32/64-bit integers and floating-point bit patterns at every alignment, bytes against an independent encoder, neighbouring bytes and exact-size buffers under ASan+UBSan (alignment, bounds)
#include "vh.hpp"
#include <sys/mman.h>
using namespace vh;
using namespace jm;
// The encoding from its definition
static std::string enc(uint64_t v, int n, bool be)
{
   std::string s((size_t)n, '\0');
   for(int i = 0; i < n; i++)s[(size_t)(be ? n - 1 - i : i)] = (char)(uint8_t)(v >> 8 * i);
   return s;
}
struct Buf   // exact-size heap buffer: one byte more is an ASan report
{
   std::unique_ptr<uint8[]> own;
   std::string before;
   uint8* p;
   size_t n;
   Buf(Rng& r, size_t size): own(new uint8[size]), p(own.get()), n(size)
   {
      for(size_t i = 0; i < n; i++)p[i] = (uint8)r.u64();
      before.assign((const char*)p, n);
   }
};
static void wrote(Buf& b, size_t off, const std::string& want, int ret, const char* f, uint64_t v)
{
   VH_CHECK(ret == (int)want.size(), "size", f << " returned " << ret << " for " << want.size() << " bytes");
   std::string w = b.before;
   w.replace(off, want.size(), want);
   std::string got((const char*)b.p, b.n);
   VH_CHECK(got == w, "bytes", f << "(" << v << ") at " << off << " wrote " << hex(got) << " want " << hex(w) << " before " << hex(b.before));
   count("writes");
}
#define RD(F, want) \
   do { auto g__ = F(b.p, (uint32)off); VH_CHECK(g__ == (want), "read", #F << " at " << off << " of " << hex(std::string((const char*)b.p, b.n)) << " gives " << g__ << " want " << (want)); count("reads"); } while(0)
#define RDA(F, want) \
   do { auto g__ = F(ba, off); VH_CHECK(g__ == (want), "read-array", #F << " at " << off << " of " << hex(std::string((const char*)b.p, b.n)) << " gives " << g__ << " want " << (want)); count("array-reads"); } while(0)
static ByteArray array(const Buf& b)
{
   ByteArray a((int64)b.n, 0);
   for(size_t i = 0; i < b.n; i++)a[(int64)i] = b.p[i];
   return a;
}
static void value(Rng& r, uint64_t v)
{
   size_t off = r.below(9), tail = r.chance(0.5) ? 0 : r.below(5);
   {
      Buf b(r, off + 2 + tail);
      int k = (int)r.below(3);
      if(k == 0)wrote(b, off, enc(v, 2, true), serializeBEInt16(b.p, (uint32)off, (int16)v), "BEInt16", v);
      else if(k == 1)wrote(b, off, enc(v, 2, false), serializeLEInt16(b.p, (uint32)off, (int16)v), "LEInt16", v);
      else wrote(b, off, enc(v, 2, false), serializeLEUInt16(b.p, (uint32)off, (uint16)v), "LEUInt16", v);
      ByteArray ba = array(b);
      uint16 w = (uint16)v;
      uint16 x = (uint16)(w << 8 | w >> 8), le = k ? w : x, be = k ? x : w;
      RD(deserializeBEUInt16, be);
      RD(deserializeBEInt16, (int16)be);
      RDA(deserializeBEInt16, (int16)be);
      RD(deserializeLEUInt16, le);
      RD(deserializeLEInt16, (int16)le);
      RDA(deserializeLEInt16, (int16)le);
      uint16 g = deserializeLEUInt16(ba, (uint32)off);
      VH_CHECK(g == le, "read-array", "LEUInt16 gives " << g << " want " << le);
   }
   {
      Buf b(r, off + 3 + tail);
      if(r.chance(0.5))wrote(b, off, enc(v, 3, true), serializeBEInt24(b.p, (uint32)off, (int32)v), "BEInt24", v);
      else wrote(b, off, enc(v, 3, false), serializeLEInt24(b.p, (uint32)off, (int32)v), "LEInt24", v);
   }
   {
      Buf b(r, off + 4 + tail);
      bool be = r.chance(0.5);
      if(be)wrote(b, off, enc(v, 4, true), serializeBEInt32(b.p, (uint32)off, (int32)v), "BEInt32", v);
      else wrote(b, off, enc(v, 4, false), serializeLEInt32(b.p, (uint32)off, (int32)v), "LEInt32", v);
      ByteArray ba = array(b);
      uint32 w = (uint32)v, x = __builtin_bswap32(w), B = be ? w : x, L = be ? x : w;
      RD(deserializeBEUInt32, B);
      RDA(deserializeBEUInt32, B);
      RDA(deserializeBEInt32, (int32)B);
      RD(deserializeLEUInt32, L);
      RD(deserializeLEInt32, (int32)L);
      RDA(deserializeLEUInt32, L);
      RDA(deserializeLEInt32, (int32)L);
      float want, got = deserializeLEFloat(b.p, (uint32)off);
      memcpy(&want, &L, 4);
      VH_CHECK(memcmp(&want, &got, 4) == 0, "read-float", hex(std::string((const char*)b.p, b.n)) << " at " << off);
   }
   {
      Buf b(r, off + 8 + tail);
      bool be = r.chance(0.5);
      if(be)wrote(b, off, enc(v, 8, true), serializeBEInt64(b.p, (uint32)off, (int64)v), "BEInt64", v);
      else wrote(b, off, enc(v, 8, false), serializeLEInt64(b.p, (uint32)off, (int64)v), "LEInt64", v);
      ByteArray ba = array(b);
      uint64_t x = __builtin_bswap64(v), B = be ? v : x, L = be ? x : v;
      RD(deserializeBEInt64, (int64)B);
      RDA(deserializeBEInt64, (int64)B);
      RD(deserializeLEInt64, (int64)L);
      RDA(deserializeLEInt64, (int64)L);
      double want, got = deserializeLEDouble(b.p, (uint32)off), ga = deserializeLEDouble(ba, (int64)off);
      memcpy(&want, &L, 8);
      VH_CHECK(memcmp(&want, &got, 8) == 0 && memcmp(&want, &ga, 8) == 0, "read-double", hex(std::string((const char*)b.p, b.n)) << " at " << off);
   }
   {
      Buf b(r, off + 8 + tail);
      double d;
      memcpy(&d, &v, 8);
      wrote(b, off, enc(v, 8, false), serializeLEDouble(b.p, (uint32)off, d), "LEDouble", v);
      double g = deserializeLEDouble(b.p, (uint32)off);
      VH_CHECK(memcmp(&g, &d, 8) == 0, "double", v);
   }
   {
      Buf b(r, off + 4 + tail);
      float f;
      uint32 w = (uint32)v;
      memcpy(&f, &w, 4);
      wrote(b, off, enc(w, 4, false), serializeLEFloat(b.p, (uint32)off, f), "LEFloat", w);
      float g = deserializeLEFloat(b.p, (uint32)off);
      VH_CHECK(memcmp(&g, &f, 4) == 0, "float", w);
      count("floats");
   }
   distinct(v);
}
VH_WORKLOAD(small, 256, 256)   // every 16-bit value
{
   for(uint64_t i = 0; i < 256; i++)value(c.r, (c.index << 8 | i) | (c.r.u64() << 16));
   count("small");
}
VH_WORKLOAD(values, 60000, 2000000)
{
   Rng& r = c.r;
   uint64_t v;
   switch(r.below(6))
   {
      case 0: v = r.u64(); break;
      case 1: v = (uint64_t)1 << r.below(64); if(r.chance(0.5))v -= 1; if(r.chance(0.3))v = ~v; break;
      case 2: { v = 0; for(int i = 0; i < 8; i++) { static const uint8_t B[] = {0, 1, 0x7f, 0x80, 0xff}; v = v << 8 | B[r.below(5)]; } break; }
      case 3: { double d = r.pick(std::vector<double>{0.0, -0.0, 1.0, -1.5, 1e308, -1e308, 5e-324, HUGE_VAL, -HUGE_VAL, NAN, M_PI}); memcpy(&v, &d, 8); break; }
      case 4: { float f = (float)r.pick(std::vector<double>{0.0, -0.0, 1.0, -1.5, 3e38, 1e-45, HUGE_VAL, NAN, M_PI}); uint32 w; memcpy(&w, &f, 4); v = w | (uint64_t)w << 32; break; }
      default: v = (uint64_t)(int64_t)r.range(-70000, 70000); break;
   }
   value(r, v);
}
// Several values one after another, read back in order: no value disturbs another.
VH_WORKLOAD(records, 10000, 200000)
{
   Rng& r = c.r;
   struct It { int kind; uint64_t v; uint32 off; };
   std::vector<It> items;
   uint32 off = 0;
   std::vector<uint8> b(400, 0xee);
   int n = (int)r.range(1, 40);
   for(int i = 0; i < n; i++)
   {
      It it{(int)r.below(10), r.u64(), off};
      double d;
      float f;
      memcpy(&d, &it.v, 8);
      memcpy(&f, &it.v, 4);
      switch(it.kind)
      {
         case 0: off += (uint32)serializeBEInt16(b.data(), off, (int16)it.v); break;
         case 1: off += (uint32)serializeBEInt32(b.data(), off, (int32)it.v); break;
         case 2: off += (uint32)serializeBEInt64(b.data(), off, (int64)it.v); break;
         case 3: off += (uint32)serializeLEInt16(b.data(), off, (int16)it.v); break;
         case 4: off += (uint32)serializeLEInt32(b.data(), off, (int32)it.v); break;
         case 5: off += (uint32)serializeLEInt64(b.data(), off, (int64)it.v); break;
         case 6: off += (uint32)serializeLEDouble(b.data(), off, d); break;
         case 7: off += (uint32)serializeLEFloat(b.data(), off, f); break;
         case 8: off += (uint32)serializeLEUInt16(b.data(), off, (uint16)it.v); break;
         case 9: off += (uint32)serializeBEInt24(b.data(), off, (int32)it.v); break;
      }
      items.push_back(it);
   }
   for(auto& it : items)
   {
      bool ok = true;
      double d;
      float f;
      switch(it.kind)
      {
         case 0: ok = deserializeBEInt16(b.data(), it.off) == (int16)it.v; break;
         case 1: ok = (int32)deserializeBEUInt32(b.data(), (int64)it.off) == (int32)it.v; break;
         case 2: ok = deserializeBEInt64(b.data(), it.off) == (int64)it.v; break;
         case 3: ok = deserializeLEInt16(b.data(), it.off) == (int16)it.v; break;
         case 4: ok = deserializeLEInt32(b.data(), it.off) == (int32)it.v; break;
         case 5: ok = deserializeLEInt64(b.data(), it.off) == (int64)it.v; break;
         case 6: d = deserializeLEDouble(b.data(), it.off); ok = memcmp(&d, &it.v, 8) == 0; break;
         case 7: f = deserializeLEFloat(b.data(), it.off); ok = memcmp(&f, &it.v, 4) == 0; break;
         case 8: ok = deserializeLEUInt16(b.data(), it.off) == (uint16)it.v; break;
         case 9: ok = b[it.off] == (uint8)(it.v >> 16) && b[it.off + 1] == (uint8)(it.v >> 8) && b[it.off + 2] == (uint8)it.v; break;
      }
      VH_CHECK(ok, "record", "value " << it.v << " of kind " << it.kind << " at " << it.off << " not read back");
   }
   VH_CHECK(off == 400 || b[off] == 0xee, "record-end", off);
   count("records");
}
// values far from the begin of the buffer
VH_WORKLOAD(farAway, 400, 8000)
{
   Rng& r = c.r;
   static uint8* mem = nullptr;
   static const size_t SIZE = ((size_t)1 << 32) + 65536;
   if(!mem)
   {
      mem = (uint8*)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if(mem == MAP_FAILED)abort();
   }
   uint64_t v = r.u64();
   size_t off = r.chance(0.4) ? ((size_t)1 << 31) + (size_t)r.range(-12, 12) : r.chance(0.5) ? ((size_t)1 << 32) - (size_t)r.range(9, 40) : r.chance(0.5) ? 65536 + (size_t)r.range(-9, 9) : (size_t)r.range(0, ((int64_t)1 << 32) - 9);
   uint32 o = (uint32)off;
   double d, dr;
   float f, fr;
   memcpy(&d, &v, 8);
   memcpy(&f, &v, 4);
   auto bytes = [&](const char* what, int n, bool be, int ret)
   {
      std::string got((const char*)mem + off, (size_t)n), want = enc(v, n, be);
      VH_CHECK(got == want && ret == n, "far-write", what << " at " << off << " wrote " << hex(got) << " want " << hex(want));
   };
#define FAR_W(F, T, n, be) bytes(#F, n, be, F(mem, o, (T)v))
#define FAR_R(F, T) VH_CHECK(F(mem, o) == (T)v, "far-read", #F << " at " << off)
   FAR_W(serializeBEInt16, int16, 2, true);
   FAR_R(deserializeBEInt16, int16);
   FAR_R(deserializeBEUInt16, uint16);
   FAR_W(serializeLEInt16, int16, 2, false);
   FAR_R(deserializeLEInt16, int16);
   FAR_R(deserializeLEUInt16, uint16);
   FAR_W(serializeLEUInt16, uint16, 2, false);
   FAR_W(serializeBEInt24, int32, 3, true);
   FAR_W(serializeLEInt24, int32, 3, false);
   FAR_W(serializeBEInt32, int32, 4, true);
   FAR_R(deserializeBEUInt32, uint32);
   FAR_W(serializeLEInt32, int32, 4, false);
   FAR_R(deserializeLEInt32, int32);
   FAR_R(deserializeLEUInt32, uint32);
   FAR_W(serializeBEInt64, int64, 8, true);
   FAR_R(deserializeBEInt64, int64);
   FAR_W(serializeLEInt64, int64, 8, false);
   FAR_R(deserializeLEInt64, int64);
   bytes("serializeLEDouble", 8, false, serializeLEDouble(mem, o, d));
   dr = deserializeLEDouble(mem, o);
   bytes("serializeLEFloat", 4, false, serializeLEFloat(mem, o, f));
   fr = deserializeLEFloat(mem, o);
   VH_CHECK(memcmp(&d, &dr, 8) == 0 && memcmp(&f, &fr, 4) == 0, "far-read", "floating point at " << off);
   memset(mem + off, 0, 8);
   madvise(mem + (off & ~(size_t)4095), 8192, MADV_DONTNEED);
   // the same in an array of some hundred thousand bytes
   static ByteArray* arr = nullptr;
   if(!arr)arr = new ByteArray(200000, 0);
   int64 q = r.chance(0.5) ? 65536 + r.range(-9, 9) : r.chance(0.5) ? 131072 + r.range(-9, 9) : r.range(0, 199992);
   auto put = [&](int n, bool be) { std::string e = enc(v, n, be); for(int i = 0; i < n; i++)(*arr)[q + i] = (uint8)e[(size_t)i]; };
#define FAR_A(F, T) VH_CHECK(F(*arr, q) == (T)v, "far-array", #F << " at " << q)
   put(2, true);
   FAR_A(deserializeBEInt16, int16);
   put(2, false);
   FAR_A(deserializeLEInt16, int16);
   VH_CHECK(deserializeLEUInt16(*arr, (uint32)q) == (uint16)v, "far-array", "deserializeLEUInt16 at " << q);
   put(4, true);
   FAR_A(deserializeBEUInt32, uint32);
   FAR_A(deserializeBEInt32, int32);
   put(4, false);
   FAR_A(deserializeLEUInt32, uint32);
   FAR_A(deserializeLEInt32, int32);
   put(8, true);
   FAR_A(deserializeBEInt64, int64);
   put(8, false);
   FAR_A(deserializeLEInt64, int64);
   dr = deserializeLEDouble(*arr, q);
   VH_CHECK(memcmp(&d, &dr, 8) == 0, "far-array", "deserializeLEDouble at " << q);
   for(int i = 0; i < 8; i++)(*arr)[q + i] = 0;
   distinct(mix(off, (uint64_t)q));
   count("farAway");
}
VH_REQUIRE("farAway", "writes", "reads", "array-reads", "floats", "small", "records")
VH_DRIVER("P31", "bytes equal those of an independent encoder, the announced number of them and no other change; every reader gives the value back bit for bit")
