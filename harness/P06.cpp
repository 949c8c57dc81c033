// P06: Base64 and URL encoding.
// VH-TECH: RFC 4648 reference codec and round-trip oracle over generated byte arrays/texts; malformed input in exact buffers under ASan+UBSan
#include "vh.hpp"
using namespace vh;
using jm::String;
using jm::Base64;
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// VH-CONFIG: alloc=5000
#include <sys/mman.h>
static std::string enc(const std::string& b)
{
   std::string o;
   for(size_t i = 0; i < b.size(); i += 3)
   {
      uint32_t v = 0;
      size_t n = std::min<size_t>(3, b.size() - i);
      for(size_t k = 0; k < 3; k++)v = v << 8 | (k < n ? (unsigned char)b[i + k] : 0);
      for(size_t k = 0; k < 4; k++)o += k <= n ? A[v >> (18 - 6 * k) & 63] : '=';
   }
   return o;
}
static std::string libEnc(const std::string& b)
{
   uint8* in = (uint8*)malloc(b.size() + (b.empty() ? 1 : 0));
   memcpy(in, b.data(), b.size());
   int64 n = (int64)b.size();
   uint8* o = Base64::encode(in, n);
   std::string s((char*)o, (size_t)n);
   VH_CHECK(memcmp(in, b.data(), b.size()) == 0, "source", "input changed");
   delete[] o;
   free(in);
   return s;
}
static std::string libDec(const std::string& t)
{
   uint8* in = (uint8*)malloc(t.size() ? t.size() : 0);
   memcpy(in, t.data(), t.size());
   uint32 n = (uint32)t.size();
   uint8* o;
   try
   {
      o = Base64::decode(in, n);
   }
   catch(jm::Exception&)
   {
      free(in);
      throw;
   }
   free(in);
   VH_CHECK(n <= t.size(), "decoded-length", n << " bytes from " << t.size() << " letters");
   std::string s((char*)o, n);
   delete[] o;
   return s;
}
static void roundtrip(const std::string& b)
{
   std::string e = libEnc(b), w = enc(b);
   VH_CHECK(e == w, "encode", hex(b) << " -> " << e << " expected " << w);
   std::string d = libDec(w);
   VH_CHECK(d == b, "decode", w << " -> " << hex(d) << " expected " << hex(b));
   count("roundtrips");
   count("len%3=" + std::to_string(b.size() % 3));
}
VH_WORKLOAD(base64, 60000, 3000000)
{
   Rng& r = c.r;
   std::string b;
   int64_t n = r.chance(0.004) ? borderLength(r, thorough() ? 22 : 17) : r.chance(0.05) ? r.range(0, 3000) : r.range(0, 24);
   if(n > 10000)count("large");
   int mode = (int)r.below(3);
   for(int64_t k = 0; k < n; k++)b += mode == 0 ? (char)r.below(256) : mode == 1 ? (char)r.pick<int>({0, 255, 0x3F, 0xFC, 0xC0}) : (char)(r.below(256) | 0x80);
   roundtrip(b);
   distinct(hashStr(b));
   if(c.index < 2)sample(hex(b));
}
// each byte value at each place of a group; all two-byte arrays
VH_WORKLOAD(exhaustive, 256, 256)
{
   char x = (char)c.index;
   roundtrip(std::string(1, x));
   for(int y = 0; y < 256; y++)
   {
      roundtrip({x, (char)y});
      roundtrip({'Q', x, (char)y});
      roundtrip({x, (char)y, (char)(255 - y), (char)(x ^ y)});
   }
   distinct(c.index);
}
VH_WORKLOAD(malformed, 60000, 3000000)
{
   Rng& r = c.r;
   std::string t;
   int64_t n = r.range(0, 14);
   for(int64_t k = 0; k < n; k++)t += r.chance(0.75) ? A[r.below(64)] : r.chance(0.5) ? '=' : (char)r.below(256);
   try
   {
      std::string d = libDec(t);
      // whole leading groups of valid letters are not affected by what follows
      size_t g = 0;
      while(g + 4 <= t.size() && strspn(t.substr(g, 4).c_str(), A) == 4)g += 4;
      std::string w;
      for(size_t i = 0; i < g; i += 4)
      {
         uint32_t v = 0;
         for(size_t k = 0; k < 4; k++)v = v << 6 | (uint32_t)(strchr(A, t[i + k]) - A);
         w += (char)(v >> 16);
         w += (char)(v >> 8);
         w += (char)v;
      }
      VH_CHECK(d.compare(0, w.size(), w) == 0, "prefix", hex(t) << " decoded to " << hex(d));
   }
   catch(jm::Exception&)
   {
      eval();
   }
   count("malformed");
   distinct(hashStr(t));
}
// texts whose length does not fit into a signed number of 32 bits, or whose decoded length does not: the letters end after a
// few groups, what follows is no letter, so that only the computations with the length matter
VH_WORKLOAD(huge, 40, 400)
{
   Rng& r = c.r;
   static uint8* mem = nullptr;
   static const size_t SIZE = (size_t)1 << 32;
   if(!mem)
   {
      mem = (uint8*)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if(mem == MAP_FAILED)abort();
   }
   std::string b;
   for(int n = (int)r.range(1, 900); n--;)b += (char)r.u64();
   std::string t = enc(b);
   memcpy(mem, t.data(), t.size());
   static const uint64_t BASE[] = {715827882, 1431655765, (uint64_t)1 << 31, 2863311530, 3579139413, ((uint64_t)1 << 32) - 20, 65536, 1 << 20};
   uint64_t len = c.index % 2 ? BASE[c.index / 2 % 8] + (uint64_t)r.range(-6, 12) : (uint64_t)r.range(4096, ((int64_t)1 << 32) - 8);
   uint32 n = (uint32)len;
   uint8* o = Base64::decode(mem, n);
   std::string got((const char*)o, std::min<size_t>(n, 4096));
   delete[] o;
   VH_CHECK(n == b.size() && got == b, "huge", t << " in a text of " << len << " letters decoded to " << n << " bytes " << hex(got));
   memset(mem, 0, t.size());
   distinct(mix(len, hashBytes(b.data(), b.size())));
   count("huge");
}
VH_WORKLOAD(url, 60000, 3000000)
{
   Rng& r = c.r;
   U u;
   int64_t n = r.chance(0.002) ? borderLength(r, thorough() ? 17 : 14) : r.range(0, 24);
   int mode = (int)r.below(4);
   for(int64_t k = 0; k < n; k++)
   {
      switch(mode == 3 ? (int)r.below(3) : mode)
      {
         case 0: u += (char16_t)r.range(1, 127); break;
         case 1: u += (char16_t)"% +&=?/#:aA0%2B%25"[r.below(18)]; break;
         default:
         {
            uint32_t p = r.chance(0.5) ? (uint32_t)r.range(0x80, 0x7FF) : r.chance(0.8) ? (uint32_t)r.range(0x800, 0xFFFF) : (uint32_t)r.range(0x10000, 0x10FFFF);
            if(p >= 0x10000)
            {
               u += (char16_t)(0xD7C0 + (p >> 10));
               u += (char16_t)(0xDC00 | (p & 0x3FF));
            }
            else if(p < 0xD800 || p >= 0xE000)u += (char16_t)p;
         }
      }
   }
   if(u.size() && u[0] == 0xFEFF)u[0] = u'x';
   String s = mk(u);
   String e = URLEncode(s);
   for(char16_t ch : rd(e))VH_CHECK(ch > 32 || u.find(ch) != U::npos, "url-blank", show(e));
   for(char16_t ch : rd(e))VH_CHECK(ch < 0x80 && ch != ' ', "url-ascii", show(u) << " encoded to " << show(e));
   VH_CHECK(rd(URLDecode(e)) == u, "url-roundtrip", show(u) << " encoded to " << show(e) << " decoded to " << show(URLDecode(e)));
   // other encoders escape everything
   std::string full;
   std::string b = bytesOf(s.toCString());
   char x[4];
   for(unsigned char ch : b)
   {
      snprintf(x, 4, r.chance(0.5) ? "%%%02X" : "%%%02x", ch);
      full += x;
   }
   VH_CHECK(rd(URLDecode(String(full.c_str()))) == u, "url-foreign", full << " decoded to " << show(URLDecode(String(full.c_str()))));
   VH_CHECK(rd(s) == u, "url-source", "text changed");
   count("urls");
   for(char16_t ch : u)if(ch > 0x7F)
      {
         count("urlsNonAscii");
         break;
      }
   distinct(hashU(u));
   if(c.index < 2)sample(show(u));
}
VH_REQUIRE("large", "huge", "roundtrips", "len%3=0", "len%3=1", "len%3=2", "malformed", "urls", "urlsNonAscii")
VH_DRIVER("P06", "random and exhaustive short byte arrays, malformed letters, texts of reserved, control and non-ASCII characters; distinct = input")
