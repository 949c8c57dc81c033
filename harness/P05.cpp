// P05: decoding hostile bytes as text.
// VH-TECH: hostile and mutated byte sequences in exactly sized heap buffers under ASan+UBSan, length bounds, watchdog
#include "vh.hpp"
using namespace vh;
using jm::String;
using jm::Charset;
using jm::ByteArray;
static const char* const N[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "Windows-1252", "MacRoman", "ASCII", "RAW"};

static std::string hostile(Rng& r)
{
   std::string b;
   int64_t n = r.chance(0.004) ? borderLength(r, 17) : r.chance(0.05) ? r.range(4090, 4100) : r.range(0, r.chance(0.3) ? 4 : 40);
   static const unsigned char LEAD[] = {0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF};
   int mode = (int)r.below(5);
   while((int64_t)b.size() < n)
   {
      switch(mode == 4 ? (int)r.below(4) : mode)
      {
         case 0: b += (char)r.below(256); break;
         case 1: // sequences, often cut short
         {
            b += (char)LEAD[r.below(sizeof LEAD)];
            int64_t k = r.range(0, 3);
            while(k--)b += (char)(0x80 | r.below(64));
            break;
         }
         case 2: b += r.chance(0.5) ? "\xFF\xFE" : r.chance(0.5) ? "\xFE\xFF" : "\xEF\xBB\xBF"; break;
         default: b += r.chance(0.3) ? '\0' : (char)r.range(1, 127); break;
      }
   }
   if(r.chance(0.3))b += (char)LEAD[r.below(sizeof LEAD)];   // ends in the middle of a sequence
   return b;
}
// copy in a heap block without any slack
struct Exact
{
   char* p;
   size_t n;
   Exact(const std::string& b, size_t zeros): n(b.size() + zeros)
   {
      p = (char*)malloc(n ? n : 1);
      if(!n)
      {
         free(p);
         p = (char*)malloc(0);
      }
      memcpy(p, b.data(), b.size());
      memset(p + b.size(), 0, zeros);
   }
   ~Exact()
   {
      free(p);
   }
};
template<class F> static void guard(const std::string& b, const char* what, size_t maxLen, F f)
{
   try
   {
      String s = f();
      U u = rd(s);
      VH_CHECK(u.size() <= maxLen, std::string("length-") + what, hex(b) << " decoded to " << u.size() << " characters");
      count("decoded");
   }
   catch(jm::Exception&)
   {
      count("exceptions");
      eval();
   }
}
static void all(const std::string& b)
{
   for(int k = 0; k < 7; k++)
   {
      Charset* c = Charset::forName(N[k]);
      {
         Exact e(b, 0);
         guard(b, N[k], b.size() + 1, [&] { return String(e.p, (int64)e.n, c); });
      }
      {
         ByteArray a((const uint8*)b.data(), (int64)b.size());
         guard(b, N[k], b.size() + 1, [&] { return String(a, c); });
      }
      {
         // terminated the way the charset needs it
         size_t z = k == 1 || k == 2 ? 2 + (b.size() & 1) : 1;
         Exact e(b, z);
         guard(b, N[k], b.size() + 1, [&] { return String(e.p, c); });
      }
      count(std::string("charset:") + N[k]);
   }
   Exact t(b, 1);
   guard(b, "default-cstr", b.size(), [&] { return String(t.p); });
   Exact e(b, 0);
   guard(b, "default-sized", b.size(), [&] { return String(e.p, (int64)e.n); });
   guard(b, "default-bytes", b.size(), [&] { return String(ByteArray((const uint8*)b.data(), (int64)b.size())); });
   guard(b, "guess", 40, [&] { return Charset::guess(e.p, (int64)e.n); });
   guard(b, "null-bytes", 0, [&] { return String(ByteArray(), Charset::forName("UTF-16LE")); });
   guard(b, "null-bytes", 0, [&] { return String(ByteArray()); });
}
VH_WORKLOAD(hostileBytes, 12000, 800000)
{
   std::string b = hostile(c.r);
   all(b);
   distinct(hashStr(b));
   if(c.index < 3)sample(hex(b));
}
// all texts of up to two bytes and all three-byte texts over the critical bytes
VH_WORKLOAD(shortTexts, 257, 257)
{
   if(c.index == 256)
   {
      all("");
      static const unsigned char K[] = {0, 'A', 0x80, 0xBF, 0xC3, 0xE2, 0xEF, 0xBB, 0xF0, 0xF4, 0xF8, 0xFE, 0xFF};
      for(unsigned char x : K)for(unsigned char y : K)for(unsigned char z : K)
            {
               all(std::string{(char)x, (char)y, (char)z});
               count("short");
            }
      return;
   }
   all(std::string(1, (char)c.index));
   for(int k = 0; k < 256; k += 3)all(std::string{(char)c.index, (char)k});
   count("short", 86);
   distinct(c.index);
}
VH_WORKLOAD(urlTexts, 20000, 1000000)
{
   Rng& r = c.r;
   U u;
   int64_t n = r.chance(0.01) ? borderLength(r, 16) : r.range(0, 12);
   for(int64_t k = 0; k < n; k++)u += r.chance(0.4) ? u'%' : r.chance(0.7) ? (char16_t)"0123456789abcdefABCDEFgG+ xZ"[r.below(28)] : (char16_t)r.below(r.chance(0.5) ? 256 : 65536);
   if(r.chance(0.2))u += u'%';
   String s = mk(u);
   std::string t = show(u);
   guard(t, "url", u.size(), [&] { return URLDecode(s); });
   guard(t, "urlEncode", u.size() * 9, [&] { return URLEncode(s); });
   count("urls");
   distinct(hashU(u));
}
VH_REQUIRE("charset:UTF-8", "charset:UTF-16LE", "charset:UTF-16BE", "decoded", "exceptions", "short", "urls")
VH_DRIVER("P05", "random bytes, cut and stray multi-byte sequences, scattered marks, all one- and (a third of) two-byte texts, each through every decoding entry point and charset in buffers without slack; distinct = byte sequence")
