// P04: character sets against the published standards.
// VH-TECH: independent codec oracle (exhaustive code points and bytes, generated texts) under ASan+UBSan
#include "vh.hpp"
#include "codepages.hpp"
using namespace vh;
using jm::String;
using jm::Charset;
using jm::ByteArray;

typedef std::vector<uint32_t> CP; // code points
static std::string enc8(const CP& t)
{
   std::string o;
   for(uint32_t c : t)
   {
      if(c < 0x80)o += (char)c;
      else if(c < 0x800)
      {
         o += (char)(0xC0 | c >> 6);
         o += (char)(0x80 | (c & 63));
      }
      else if(c < 0x10000)
      {
         o += (char)(0xE0 | c >> 12);
         o += (char)(0x80 | (c >> 6 & 63));
         o += (char)(0x80 | (c & 63));
      }
      else
      {
         o += (char)(0xF0 | c >> 18);
         o += (char)(0x80 | (c >> 12 & 63));
         o += (char)(0x80 | (c >> 6 & 63));
         o += (char)(0x80 | (c & 63));
      }
   }
   return o;
}
static U units(const CP& t)
{
   U u;
   for(uint32_t c : t)
   {
      if(c < 0x10000)u += (char16_t)c;
      else
      {
         u += (char16_t)(0xD7C0 + (c >> 10));
         u += (char16_t)(0xDC00 | (c & 0x3FF));
      }
   }
   return u;
}
static std::string enc16(const U& u, bool be)
{
   std::string o;
   for(char16_t c : u)
   {
      if(be)
      {
         o += (char)(c >> 8);
         o += (char)(c & 255);
      }
      else
      {
         o += (char)(c & 255);
         o += (char)(c >> 8);
      }
   }
   return o;
}
static Charset* cs(const char* n)
{
   Charset* c = Charset::forName(n);
   VH_CHECK(c != nullptr, "forName", n << " not found");
   VH_CHECK(rd(c->name()) == U(n, n + strlen(n)), "name", n);
   return c;
}
static void enc(Charset* c, const char* n, const U& u, const std::string& want)
{
   String s = mk(u);
   std::string g = bytesOf(s.toCString(c));
   VH_CHECK(g == want, std::string("encode-") + n, show(u) << " encoded to " << hex(g) << " expected " << hex(want));
   VH_CHECK(rd(s) == u, "encode-source", "source text changed");
   ByteArray b = s.toCString(c);
   VH_CHECK(b.constData()[b.size()] == 0, "encode-terminator", n);
   count(std::string("encoded:") + n);
}
// every public way of decoding
static void dec(Charset* c, const char* n, const std::string& bytes, const U& want, const char* what)
{
   std::string key = std::string("decode-") + n + (*what ? std::string("-") + what : "");
   String a(bytes.data(), (int64)bytes.size(), c);
   VH_CHECK(rd(a) == want, key, hex(bytes) << " decoded to " << show(a) << " expected " << show(want));
   String b(ByteArray((const uint8*)bytes.data(), (int64)bytes.size()), c);
   VH_CHECK(rd(b) == want, key, "ByteArray: " << hex(bytes) << " decoded to " << show(b) << " expected " << show(want));
   std::string z = bytes + std::string(3, '\0');
   String d(z.c_str(), c);
   VH_CHECK(rd(d) == want, key, "C string: " << hex(bytes) << " decoded to " << show(d) << " expected " << show(want));
   if(c == Charset::getDefault())
   {
      VH_CHECK(rd(String(bytes.data(), (int64)bytes.size())) == want, key, "sized: " << hex(bytes));
      VH_CHECK(rd(String(bytes.c_str())) == want, key, "cstr: " << hex(bytes));
      VH_CHECK(rd(String(ByteArray((const uint8*)bytes.data(), (int64)bytes.size()))) == want, key, "bytearray: " << hex(bytes));
      VH_CHECK(bytesOf(String(bytes.c_str()).toCString()) == (bytes.compare(0, 3, "\xEF\xBB\xBF") == 0 ? bytes.substr(3) : bytes), key, "default round trip " << hex(bytes));
   }
   count(std::string("decoded:") + n);
}
static CP text(Rng& r)
{
   CP t;
   int64_t n = r.chance(0.1) ? 0 : r.range(1, r.chance(0.1) ? 300 : 20);
   int mode = (int)r.below(6);
   for(int64_t i = 0; i < n; i++)
   {
      uint32_t c = 0;
      int m = mode == 5 ? (int)r.below(5) : mode;
      if(m == 0)c = (uint32_t)r.range(1, 0x7F);
      else if(m == 1)c = (uint32_t)r.range(0x80, 0x7FF);
      else if(m == 2)c = (uint32_t)r.range(0x800, 0xFFFF);
      else if(m == 3)c = (uint32_t)r.range(0x10000, 0x10FFFF);
      else c = r.pick<uint32_t>({0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0xFFFE, 0x10000, 0x10FFFF, 0x100, 0x200, 0xFF00, 0xFEFF, 0xD7FF, 0xE000, 0xFFFD, 1, 0x1F600, 0xBB, 0xBF, 0xEF});
      if(c >= 0xD800 && c < 0xE000)c = 0xE000 + (c & 0xFFF);
      t.push_back(c);
   }
   // a leading mark is removed by definition
   if(t.size() && (t[0] == 0xFEFF || t[0] == 0xFFFE))t[0] = 'x';
   return t;
}
// Texts that another encoding claims by their mark, or that are malformed: whatever comes of them, it does not change later conversions.
static void disturb(Rng& r)
{
   static const char* const N[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "Windows-1252", "MacRoman", "RAW", "ASCII"};
   Charset* s = cs(N[r.below(7)]);
   std::string b = r.pick(std::vector<std::string>{"\xFF\xFE", "\xFE\xFF", "\xEF\xBB\xBF", "\xF0\x90", "", "\xC3", "\xED\xA0\x80"});
   for(int64_t k = r.range(0, 6); k > 0; k--)b += (char)r.range(1, 255);
   b += std::string(4, '\0');
   try
   {
      s->decode(b.c_str());
      String t(b.c_str(), s);
      U u;
      for(int64_t k = r.range(0, 6); k > 0; k--)u += (char16_t)r.below(65536);
      mk(u).toCString(s);
   }
   catch(jm::Exception&)
   {
   }
   count("disturbances");
}
VH_WORKLOAD(unicode, 30000, 2000000)
{
   if(c.r.chance(0.2))disturb(c.r);
   CP t = text(c.r);
   U u = units(t);
   std::string b8 = enc8(t), le = enc16(u, false), be = enc16(u, true);
   Charset* c8 = cs("UTF-8"), *cl = cs("UTF-16LE"), *cb = cs("UTF-16BE");
   enc(c8, "UTF-8", u, b8);
   enc(cl, "UTF-16LE", u, le);
   enc(cb, "UTF-16BE", u, be);
   dec(c8, "UTF-8", b8, u, "");
   dec(c8, "UTF-8", "\xEF\xBB\xBF" + b8, u, "bom");
   // bytes that another rule takes for the mark of another encoding
   bool clashLE = le.size() >= 2 && ((le[0] == '\xFE' && le[1] == '\xFF') || le.compare(0, 3, "\xEF\xBB\xBF") == 0);
   bool clashBE = be.size() >= 2 && ((be[0] == '\xFF' && be[1] == '\xFE') || be.compare(0, 3, "\xEF\xBB\xBF") == 0);
   if(!clashLE)dec(cl, "UTF-16LE", le, u, "");
   if(!clashBE)dec(cb, "UTF-16BE", be, u, "");
   dec(cl, "UTF-16LE", "\xFF\xFE" + le, u, "bom");
   dec(cb, "UTF-16BE", "\xFE\xFF" + be, u, "bom");
   distinct(hashU(u));
   if(c.index < 3)sample("text " + show(u) + " utf8 " + hex(b8));
}
// texts as arrays of characters that are copied and assigned again and again
VH_WORKLOAD(arrays, 3000, 60000)
{
   Rng& r = c.r;
   Charset* c8 = cs("UTF-8"), *cl = cs("UTF-16LE"), *cb = cs("UTF-16BE");
   jm::CharArray a[3];
   U m[3];
   for(int k = (int)r.range(3, 14); k--;)
   {
      const size_t i = r.below(3), j = r.below(3);
      switch(r.below(4))
      {
         case 0: case 1:
         {
            CP t = text(r);
            U u = units(t);
            std::string b = enc8(t);
            b += '\0';
            a[i] = c8->decode(b.c_str());
            m[i] = u;
            break;
         }
         case 2: a[i] = a[j]; m[i] = m[j]; break;
         case 3: { jm::CharArray t(a[i]); t = a[j]; a[i] = t; m[i] = m[j]; break; }
      }
      for(int q = 0; q < 3; q++)
      {
         if(!a[q].buffer) { VH_CHECK(m[q].empty() && a[q].length == 0, "array", "empty"); continue; }
         VH_CHECK(a[q].length == (int64)m[q].size(), "array-length", a[q].length << " want " << m[q].size());
         for(size_t z = 0; z < m[q].size(); z++)VH_CHECK(a[q].buffer[z].unicode() == m[q][z], "array-content", "at " << z);
         VH_CHECK(bytesOf(cl->encode(a[q])) == enc16(m[q], false), "array-encoded-LE", show(mk(m[q])));
         VH_CHECK(bytesOf(cb->encode(a[q])) == enc16(m[q], true), "array-encoded-BE", show(mk(m[q])));
         VH_CHECK(rd(String(c8->encode(a[q]))) == m[q] , "array-encoded-8", show(mk(m[q])));
      }
   }
   distinct(hashU(m[0]));
   count("arrays");
}
// every code point, in blocks
VH_WORKLOAD(everyCodePoint, 272, 272)
{
   Charset* c8 = cs("UTF-8"), *cl = cs("UTF-16LE"), *cb = cs("UTF-16BE");
   for(uint32_t blk = 0; blk < 4096; blk += 64)
   {
      CP t{'x'};
      for(uint32_t k = 0; k < 64; k++)
      {
         uint32_t p = (uint32_t)c.index * 4096 + blk + k;
         if(p == 0 || (p >= 0xD800 && p < 0xE000))continue;
         t.push_back(p);
         count("codepoints");
      }
      U u = units(t);
      std::string b = enc8(t);
      enc(c8, "UTF-8", u, b);
      dec(c8, "UTF-8", b, u, "");
      enc(cl, "UTF-16LE", u, enc16(u, false));
      enc(cb, "UTF-16BE", u, enc16(u, true));
      dec(cl, "UTF-16LE", enc16(u, false), u, "");
      dec(cb, "UTF-16BE", enc16(u, true), u, "");
   }
   distinct(c.index);
}
VH_WORKLOAD(singleByte, 3000, 100000)
{
   Rng& r = c.r;
   static const char* const N[] = {"Windows-1252", "MacRoman", "ASCII", "RAW"};
   int which = (int)(c.index % 4);
   std::string b;
   U u;
   if(c.index < 1024)
   {
      // each defined byte of each set
      uint32_t v = (uint32_t)(c.index / 4);
      b = std::string("a") + (char)v + "b";
   }
   else
   {
      int64_t n = r.range(0, 40);
      for(int64_t k = 0; k < n; k++)b += (char)r.below(256);
   }
   std::string keep;
   for(unsigned char ch : b)
   {
      uint32_t p = which == 0 ? CP1252[ch] : which == 1 ? MACROMAN[ch] : ch;
      if(p == 0xFFFFFFFF || p == 0 || (which == 2 && ch > 0x7F))continue;
      keep += (char)ch;
      u += (char16_t)p;
   }
   Charset* s = cs(N[which]);
   dec(s, N[which], keep, u, "");
   enc(s, N[which], u, keep);
   distinct(hashStr(keep) + (uint64_t)which);
}
VH_WORKLOAD(lookup, 16, 16)
{
   VH_CHECK(Charset::forName("no such charset") == nullptr, "forName-unknown", "");
   VH_CHECK(Charset::forName("") == nullptr, "forName-empty", "");
   VH_CHECK(Charset::getDefault() == cs("UTF-8"), "default", "");
   String alt[3] = {"alpha", "beta", "gamma"};
   int n = (int)(c.index % 4);
   Charset mine(String("mine"), alt, (uint8)n, new jm::UTF8Decoder());
   for(int k = 0; k < 3; k++)VH_CHECK(mine.hasName(alt[k]) == (k < n), "alternatives", "name " << k << " of " << n);
   VH_CHECK(mine.hasName("mine") && !mine.hasName("MINE2"), "hasName", "");
   count("lookups");
}
VH_WORKLOAD(guessing, 2000, 40000)
{
   Rng& r = c.r;
   CP t = text(r);
   U u = units(t);
   std::string b8 = enc8(t);
   auto g = [](const std::string & b)
   {
      return rd(Charset::guess(b.data(), (int64)b.size()));
   };
   auto is = [&](const std::string & b, const char* want, const char* key)
   {
      U w(want, want + strlen(want));
      VH_CHECK(g(b) == w, key, hex(b) << " guessed " << show(g(b)) << " expected " << want);
      count("guessed");
   };
   is("\xEF\xBB\xBF" + b8, "UTF-8", "guess-bom8");
   is("\xFF\xFE" + enc16(u, false), "UTF-16LE", "guess-bomLE");
   is("\xFE\xFF" + enc16(u, true), "UTF-16BE", "guess-bomBE");
   bool ascii = true;
   for(unsigned char ch : b8)if(ch > 0x7F)ascii = false;
   if(b8.size() >= 2)is(b8, ascii ? "ASCII" : "UTF-8", ascii ? "guess-ascii" : "guess-utf8");
   if(ascii && u.size() > 4)
   {
      is(enc16(u, false), "UTF-16LE", "guess-LE");
      is(enc16(u, true), "UTF-16BE", "guess-BE");
   }
}
// texts around the sizes at which counters and buffers of the decoders could end
VH_WORKLOAD(large, 120, 3000)
{
   Rng& r = c.r;
   int64_t n = c.index < 14 ? ((int64_t)1 << (c.index + 4)) + r.range(-1, 2) : borderLength(r, thorough() ? 20 : 17);
   int mode = (int)r.below(4);
   CP t{'a'};
   for(int64_t k = 1; k < n; k++)
   {
      uint32_t p = mode == 0 ? (uint32_t)r.range(1, 127) : mode == 1 ? (uint32_t)r.range(0x80, 0x7FF) : mode == 2 ? (uint32_t)r.range(0x800, 0xD7FF) : (uint32_t)r.range(1, 0x10FFFF);
      t.push_back(p >= 0xD800 && p < 0xE000 ? 'z' : p);
   }
   U u = units(t);
   Charset* c8 = cs("UTF-8"), *cl = cs("UTF-16LE"), *cb = cs("UTF-16BE");
   enc(c8, "UTF-8", u, enc8(t));
   enc(cl, "UTF-16LE", u, enc16(u, false));
   enc(cb, "UTF-16BE", u, enc16(u, true));
   dec(c8, "UTF-8", enc8(t), u, "");
   dec(cl, "UTF-16LE", enc16(u, false), u, "");
   dec(cb, "UTF-16BE", enc16(u, true), u, "");
   if(mode == 0)
   {
      for(const char* n1 : {"Windows-1252", "MacRoman", "ASCII", "RAW"})
      {
         enc(cs(n1), n1, u, enc8(t));
         dec(cs(n1), n1, enc8(t), u, "");
      }
      std::string le = enc16(u, false), be = enc16(u, true), a = enc8(t);
      VH_CHECK(rd(Charset::guess(le.data(), (int64_t)le.size())) == u"UTF-16LE", "guess-LE", le.size() << " bytes");
      VH_CHECK(rd(Charset::guess(be.data(), (int64_t)be.size())) == u"UTF-16BE", "guess-BE", be.size() << " bytes");
      VH_CHECK(rd(Charset::guess(a.data(), (int64_t)a.size())) == u"ASCII", "guess-ascii", a.size() << " bytes");
      a.back() = '\xE4';
      VH_CHECK(rd(Charset::guess(a.data(), (int64_t)a.size())) == u"UTF-8", "guess-utf8", a.size() << " bytes, the last one not ASCII");
   }
   count("large");
   distinct(hashU(u));
}
VH_REQUIRE("arrays", "large", "disturbances", "codepoints", "encoded:UTF-8", "encoded:UTF-16LE", "encoded:UTF-16BE", "decoded:MacRoman", "decoded:Windows-1252", "decoded:RAW", "guessed", "lookups")
VH_DRIVER("P04", "every code point in every Unicode encoding, every defined byte of the single-byte sets, generated mixed texts with and without byte order mark; distinct = text")
