// P11: decompressing corrupt data.
// VH-CONFIG: libs=-lz
// VH-TECH: truncated, mutated, spliced and synthetic invalid streams in exactly sized buffers under ASan+UBSan+LSan, accept/reject and output compared with zlib, watchdog
#include "deflate_gen.hpp"
using namespace vh;
using jm::Inflater;

static void one(const B& in, bool wrap, const std::string& what)
{
   std::unique_ptr<uint8[]> hold(new uint8[in.size()]);
   memcpy(hold.get(), in.data(), in.size());
   // The verdict: a zlib header with a smaller window is judged like one with 32 KB.
   B judged = in;
   if(!wrap && in.size() >= 2)
   {
      unsigned cmf = (unsigned char)in[0], flg = (unsigned char)in[1];
      if((cmf * 256 + flg) % 31 == 0 && (cmf & 15) == 8 && (cmf >> 4) < 7 && !(flg & 0x20))
      {
         cmf = 0x78;
         flg &= 0xE0;
         flg += 31 - (cmf * 256 + flg) % 31;
         judged[0] = (char)cmf;
         judged[1] = (char)flg;
      }
   }
   Ref x = refInflate(judged, wrap ? -15 : 15, 400u << 20);
   uint8* buf = nullptr;
   int64 len = -1;
   bool threw = false;
   std::string msg;
   {
      Inflater inf(wrap);
      inf.SetInput(hold.get(), (int64)in.size());
      try
      {
         inf.Inflate(buf, len);
      }
      catch(jm::Exception& e)
      {
         threw = true;
         msg = excText(e);
      }
      VH_CHECK(memcmp(hold.get(), in.data(), in.size()) == 0, "input-changed", what);
      VH_CHECK(inf.GetTotalOut() <= (int64)in.size() * 1040 + 10, "amplification", what << ": " << inf.GetTotalOut() << " bytes from " << in.size());
   }
   std::unique_ptr<uint8[]> own(threw ? nullptr : buf);
   if(threw)
   {
      count("rejected");
      VH_CHECK(!x.complete, "valid-rejected", what << ": zlib reads " << x.out.size() << " bytes, the library throws " << msg << "; " << hexShort(in));
      count(x.error ? "rejectedStructure" : "rejectedTruncated");
      if(x.error)count("zlib: " + x.msg);
      distinct(mix(hashStr(x.msg), in.size()));
      return;
   }
   VH_CHECK(len >= 0, "length", what << " length " << len);
   VH_CHECK(!x.error, "invalid-accepted", what << ": delivered as " << len << " bytes, zlib says " << x.msg << "; " << hexShort(in));
   VH_CHECK(x.complete, "truncated-accepted", what << ": delivered as " << len << " bytes though the stream ends early; " << hexShort(in));
   VH_CHECK(len == (int64)x.out.size() && memcmp(buf, x.out.data(), x.out.size()) == 0, "accepted-wrong", what << ": " << len << " bytes instead of " << x.out.size() << "; " << hexShort(in));
   count("accepted");
   distinct(hashStr(in));
}
static B valid(Rng& r, bool raw, size_t mx)
{
   if(r.chance(0.5))
   {
      B plain;
      std::string d;
      return randomStream(r, plain, raw, d);
   }
   Enc e;
   return zDeflate(r, genData(r, (size_t)r.range(0, (int64_t)mx)), raw, e);
}
static B mutate(Rng& r, B s, bool raw, std::string& how)
{
   int n = r.chance(0.6) ? 1 : (int)r.range(1, 6);
   while(n--)
   {
      size_t z = s.size();
      size_t near = r.chance(0.6) ? std::min<size_t>(z, 90) : z;   // block headers are at the front
      switch(r.below(8))
      {
         case 0: s.resize((size_t)r.range(0, (int64_t)z)); how += "truncated "; break;
         case 1: if(z)s.resize(z - 1 - r.below(std::min<size_t>(z, 5))); how += "cut at the end "; break;
         case 2:
         case 3: if(z)s[r.below(near)] ^= (char)(1 << r.below(8)); how += "bit "; break;
         case 4: if(z)s[r.below(near)] = (char)r.below(256); how += "byte "; break;
         case 5: if(z)s.erase(r.below(near), 1 + r.below(4)); how += "erased "; break;
         case 6: s.insert(s.begin() + (long)r.below(near + 1), (char)r.below(256)); how += "inserted "; break;
         default:
         {
            B o = valid(r, raw, 500);
            size_t a = r.below(z + 1), b = r.below(o.size() + 1);
            s = s.substr(0, a) + o.substr(b);
            how += "spliced ";
         }
      }
   }
   return s;
}
VH_WORKLOAD(mutated, 24000, 600000)
{
   Rng& r = c.r;
   bool raw = r.chance(0.5);
   B s = valid(r, raw, r.chance(0.1) ? 40000 : 1500);
   std::string how;
   s = mutate(r, s, raw, how);
   one(s, raw, std::string(raw ? "raw stream " : "zlib stream ") + how);
   sample(std::string(raw ? "raw stream " : "zlib stream ") + how + hex(s.substr(0, 40)));
}
// every prefix of short streams
VH_WORKLOAD(prefixes, 150, 4000)
{
   Rng& r = c.r;
   bool raw = r.chance(0.5);
   Enc e;
   B s = zDeflate(r, genData(r, (size_t)r.range(0, 250)), raw, e);
   for(size_t i = 0; i < s.size(); i++)one(s.substr(0, i), raw, "prefix of " + std::to_string(i) + " of " + std::to_string(s.size()) + " bytes");
   count("prefixRuns");
}
VH_WORKLOAD(noise, 20000, 400000)
{
   Rng& r = c.r;
   bool raw = r.chance(0.7);
   BitW w;
   if(!raw)
   {
      unsigned cmf = r.chance(0.8) ? 0x78 : (unsigned)r.below(256), flg = (unsigned)r.below(8) << 5;
      if(r.chance(0.8))flg &= ~0x20u;
      flg += 31 - (cmf * 256 + flg) % 31;
      if(r.chance(0.1))flg ^= 1;
      w.lsb(cmf, 8);
      w.lsb(flg, 8);
   }
   int mode = (int)r.below(6);
   static const char* M[] = {"random bits", "fixed block of random symbols", "dynamic block with random code lengths", "dynamic block with random literal and distance lengths", "stored block with a lying length", "block type 3"};
   int blocks = (int)r.range(0, 2);
   B plain;
   std::string pre;
   while(blocks--)pre += randomBlock(r, w, plain, false, 300);
   switch(mode)
   {
      case 0: { int n = (int)r.range(0, 400); while(n--)w.bit((int)r.below(2)); break; }
      case 1:
      {
         w.bit((int)r.below(2));
         w.lsb(1, 2);
         int n = (int)r.range(0, 500);
         while(n--)w.bit((int)r.below(2));
         break;
      }
      case 2:
      {
         w.bit(1);
         w.lsb(2, 2);
         w.lsb((unsigned)r.below(32), 5);
         w.lsb((unsigned)r.below(32), 5);
         unsigned hc = (unsigned)r.below(16);
         w.lsb(hc, 4);
         for(unsigned i = 0; i < hc + 4; i++)w.lsb((unsigned)r.below(r.chance(0.5) ? 8 : 4), 3);
         int n = (int)r.range(0, 900);
         while(n--)w.bit((int)r.below(2));
         break;
      }
      case 3:
      {
         // a valid code for code lengths, then lengths that are nearly valid: one length changed, or random
         w.bit(1);
         w.lsb(2, 2);
         int hlit = (int)r.range(257, r.chance(0.1) ? 288 : 286), hdist = (int)r.range(1, r.chance(0.1) ? 32 : 30);
         std::vector<int> sl, sd;
         for(int i = 0; i < hlit && i < 286; i++)if(i == 256 || r.chance(0.2))sl.push_back(i);
         for(int i = 0; i < hdist && i < 30; i++)if(r.chance(0.4))sd.push_back(i);
         std::vector<int> seq = randomLengths(r, sl, 288, 15), b = randomLengths(r, sd, 32, 15);
         seq.resize((size_t)hlit);
         seq.insert(seq.end(), b.begin(), b.begin() + hdist);
         int ch = (int)r.below(3);
         while(ch--)seq[r.below(seq.size())] = (int)r.below(16);
         if(r.chance(0.1))seq[256] = 0;
         if(r.chance(0.1))for(int i = 0; i < hdist; i++)seq[(size_t)(hlit + i)] = 0;
         std::vector<int> sc;
         for(int i = 0; i < 19; i++)sc.push_back(i);
         std::vector<int> cl = randomLengths(r, sc, 19, 7);
         std::vector<unsigned> cc = codesOf(cl);
         static const int ORD[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
         w.lsb((unsigned)(hlit - 257), 5);
         w.lsb((unsigned)(hdist - 1), 5);
         w.lsb(15, 4);
         for(int i = 0; i < 19; i++)w.lsb((unsigned)cl[(size_t)ORD[i]], 3);
         bool first16 = r.chance(0.03);
         size_t stop = r.chance(0.9) ? seq.size() : r.below(seq.size());
         for(size_t i = 0; i < stop; i++)
         {
            if(first16 && i == 0)
            {
               w.msb(cc[16], cl[16]);
               w.lsb(0, 2);
               i += 2;
               continue;
            }
            w.msb(cc[(size_t)seq[i]], cl[(size_t)seq[i]]);
         }
         if(stop < seq.size() || r.chance(0.05))
         {
            w.msb(cc[18], cl[18]);   // a run, possibly beyond the end
            w.lsb((unsigned)r.below(128), 7);
         }
         int n = (int)r.range(0, 600);
         while(n--)w.bit((int)r.below(2));
         break;
      }
      case 4:
      {
         w.bit(1);
         w.lsb(0, 2);
         w.align();
         unsigned n = (unsigned)r.below(40), m = n ^ 0xFFFF;
         if(r.chance(0.8))m ^= 1u << r.below(16);
         if(r.chance(0.2))n = (unsigned)r.below(65536), m = n ^ 0xFFFF;
         w.lsb(n, 16);
         w.lsb(m, 16);
         for(int k = (int)r.range(0, 44); k--;)w.out += (char)r.below(256);
         break;
      }
      default: w.bit((int)r.below(2)); w.lsb(3, 2); for(int k = (int)r.range(0, 100); k--;)w.bit((int)r.below(2));
   }
   w.align();
   for(int k = (int)r.range(0, 6); k--;)w.out += (char)r.below(256);
   one(w.out, raw, M[mode]);
   count(M[mode]);
}
// A complete stream with exactly one violation: whoever overlooks it reads the rest without trouble, up to the checksum.
VH_WORKLOAD(oneViolation, 6000, 100000)
{
   Rng& r = c.r;
   static const char* V[] = {"fine", "dictionary flag", "window size", "method", "header check", "too many literal codes", "too many distance codes", "length code 286 or 287", "distance code 30 or 31",
      "distance too far", "complement", "oversubscribed lengths", "incomplete lengths", "oversubscribed distances", "incomplete distances", "incomplete code lengths", "oversubscribed code lengths",
      "repeat at the begin", "repeat beyond the end", "checksum", "block type"};
   int v = (int)r.below(sizeof V / sizeof *V);
   bool raw = r.chance(0.4) && (v == 0 || (v >= 5 && v != 19));
   BitW w;
   B plain;
   if(!raw)
   {
      unsigned cmf = v == 2 ? 0x88 + 16 * (unsigned)r.below(8) : v == 3 ? 0x70 + (unsigned)((9 + r.below(15)) % 16) : 0x08 + 16 * (unsigned)r.below(8);
      unsigned flg = (unsigned)r.below(4) << 6 | (v == 1 ? 0x20u : 0u);
      flg += 31 - (cmf * 256 + flg) % 31;
      if(v == 4)
      {
         // 0x7800 % 31 == 30, so any other value of the five bits fails, except one that is 31 away
         unsigned old = flg;
         do flg = (old & 0xE0) | (unsigned)r.below(32);
         while((cmf * 256 + flg) % 31 == 0);
      }
      w.lsb(cmf, 8);
      w.lsb(flg, 8);
   }
   for(int n = (int)r.below(3); n--;)randomBlock(r, w, plain, false, 200);
   if(v == 10)
   {
      unsigned n = r.chance(0.3) ? 0 : (unsigned)r.below(300), m = (n ^ 0xFFFF) ^ (1u << r.below(16));
      w.bit(1); w.lsb(0, 2); w.align();
      w.lsb(n, 16); w.lsb(m, 16);
      for(unsigned i = 0; i < n; i++) { char ch = (char)r.below(256); plain += ch; w.out += ch; }
   }
   else if((v == 7 || v == 8 || v == 9) && r.chance(0.5))
   {
      // fixed codes
      w.bit(1); w.lsb(1, 2);
      auto lit = [&](int k) { if(k < 144)w.msb(0x30 + (unsigned)k, 8); else if(k < 256)w.msb(0x190 + (unsigned)(k - 144), 9); else if(k < 280)w.msb((unsigned)(k - 256), 7); else w.msb(0xC0 + (unsigned)(k - 280), 8); };
      for(int n = (int)r.range(1, 50); n--;) { int k = (int)r.below(256); lit(k); plain += (char)k; }
      if(v == 7)lit(286 + (int)r.below(2));
      else
      {
         lit(257);
         if(v == 8)w.msb(30 + (unsigned)r.below(2), 5);
         else
         {
            int far = (int)plain.size() + (r.chance(0.5) ? 1 : (int)r.range(1, 20000)), ds = 29;
            while(kDistBase[ds] > far)ds--;
            w.msb((unsigned)ds, 5);
            w.lsb((unsigned)(far - kDistBase[ds]), kDistExtra[ds]);
            plain.append(3, 0);
         }
      }
      lit(256);
   }
   else
   {
      // a dynamic block of literals, perhaps with one copy
      w.bit(1); w.lsb(v == 20 ? 3 : 2, 2);
      std::vector<int> sl{256}, sd;
      int lits = (int)r.range(2, 60);
      for(int i = 0; i < 256; i++)if(r.below(256) < (uint64_t)lits * 2)sl.push_back(i);
      if(sl.size() < 4)sl.push_back(300 - 43), sl.push_back(258), sl.push_back(259);
      else sl.push_back(257);
      std::sort(sl.begin(), sl.end());
      sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
      for(int i = 0; i < 30; i++)if(v == 8 || r.chance(0.3))sd.push_back(i);
      if(v == 9) { sd.clear(); for(int i = 0; i < 30; i++)sd.push_back(i); }
      if(sd.size() < 3) { sd = {0, 1, 2, 5}; }
      if(v == 5 || v == 7)sl.push_back(285 + 1 + (int)r.below(2));
      if(v == 6 || v == 8)sd.push_back(30 + (int)r.below(2));
      std::vector<int> ll = randomLengths(r, sl, 288, 14), dl = randomLengths(r, sd, 32, 14);
      auto spoil = [&](std::vector<int>& l, const std::vector<int>& syms, bool over)
      {
         for(int t = 0; t < 1000; t++)
         {
            size_t k = (size_t)syms[r.below(syms.size())];
            if(over ? l[k] > 1 : l[k] < 15) { l[k] += over ? -1 : 1; return; }
         }
      };
      if(v == 11 || v == 12)spoil(ll, sl, v == 11);
      if(v == 13 || v == 14)spoil(dl, sd, v == 13);
      int hlit = v == 5 ? 287 + (int)r.below(2) : 286, hdist = v == 6 ? 31 + (int)r.below(2) : 30;
      if(v == 5 && ll[287])hlit = 288;
      if(v == 6 && dl[31])hdist = 32;
      if(v == 7)hlit = 288;
      if(v == 8)hdist = 32;
      if(r.chance(0.5) && v != 5 && v != 7)while(hlit > 257 && !ll[(size_t)hlit - 1])hlit--;
      if(r.chance(0.5) && v != 6 && v != 8)while(hdist > 1 && !dl[(size_t)hdist - 1])hdist--;
      std::vector<int> seq(ll.begin(), ll.begin() + hlit);
      seq.insert(seq.end(), dl.begin(), dl.begin() + hdist);
      std::vector<int> sc;
      for(int i = 0; i < 19; i++)sc.push_back(i);
      std::vector<int> cl = randomLengths(r, sc, 19, 6);
      if(v == 15 || v == 16)spoil(cl, sc, v == 16);
      std::vector<unsigned> cc = codesOf(cl);
      static const int ORD[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
      w.lsb((unsigned)(hlit - 257), 5);
      w.lsb((unsigned)(hdist - 1), 5);
      w.lsb(15, 4);
      for(int i = 0; i < 19; i++)w.lsb((unsigned)cl[(size_t)ORD[i]], 3);
      size_t stop = seq.size();
      if(v == 17) { w.msb(cc[16], cl[16]); w.lsb(0, 2); }       // three times nothing, in place of the first three lengths
      if(v == 18)
      {
         // the zeros at the end as a run that is longer than what is left
         while(stop > 0 && seq[stop - 1] == 0)stop--;
         size_t left = seq.size() - stop;
         unsigned n = (unsigned)std::max<size_t>(11, left + 1 + r.below(20));
         for(size_t i = 0; i < stop; i++)w.msb(cc[(size_t)seq[i]], cl[(size_t)seq[i]]);
         w.msb(cc[18], cl[18]);
         w.lsb(n - 11, 7);
      }
      else for(size_t i = v == 17 ? 3 : 0; i < stop; i++)w.msb(cc[(size_t)seq[i]], cl[(size_t)seq[i]]);
      if(v == 17)ll[0] = ll[1] = ll[2] = 0;
      std::vector<unsigned> lc = codesOf(ll), dc = codesOf(dl);
      for(int n = (int)r.range(1, 80); n--;)
      {
         int k = sl[r.below(sl.size())];
         if(k > 255 || !ll[(size_t)k])continue;
         w.msb(lc[(size_t)k], ll[(size_t)k]);
         plain += (char)k;
      }
      if(ll[257] && plain.size() && (v == 8 || v == 9))
      {
         w.msb(lc[257], ll[257]);
         if(v == 8) { int k = sd.back(); w.msb(dc[(size_t)k], dl[(size_t)k]); }
         else
         {
            int far = (int)std::min<size_t>(plain.size() + (r.chance(0.5) ? 1 : (size_t)r.range(1, 20000)), 32768), ds = 29;
            while(kDistBase[ds] > far)ds--;
            w.msb(dc[(size_t)ds], dl[(size_t)ds]);
            w.lsb((unsigned)(far - kDistBase[ds]), kDistExtra[ds]);
            plain.append(3, 0);
         }
      }
      if(v == 7) { int k = sl.back(); w.msb(lc[(size_t)k], ll[(size_t)k]); w.msb(dc[(size_t)sd[0]], dl[(size_t)sd[0]]); }
      w.msb(lc[256], ll[256]);
   }
   w.align();
   if(!raw)
   {
      uint32_t a = (uint32_t)adler32(adler32(0, nullptr, 0), (const Bytef*)plain.data(), (uInt)plain.size());
      if(v == 19)a ^= 1u << r.below(32);
      for(int k = 24; k >= 0; k -= 8)w.out += (char)(a >> k);
   }
   one(w.out, raw, std::string("one violation: ") + V[v]);
   count(std::string("one: ") + V[v]);
}
VH_WORKLOAD(checksum, 1500, 30000)
{
   Rng& r = c.r;
   B plain;
   std::string d;
   B s = randomStream(r, plain, false, d);
   for(int k = 0; k < 4; k++)
   {
      B t = s;
      t[t.size() - 1 - (size_t)k] ^= (char)(1 << r.below(8));
      one(t, false, "damaged checksum");
   }
   one(s + "trailing", false, "data after the stream");
   count("checksums");
}
VH_REQUIRE("one: dictionary flag", "one: too many literal codes", "one: too many distance codes", "one: window size", "one: distance too far", "one: block type", "accepted", "rejectedStructure", "rejectedTruncated", "prefixRuns", "checksums", "zlib: invalid block type", "zlib: invalid stored block lengths",
           "zlib: invalid distance code", "zlib: invalid distance too far back", "zlib: invalid literal/length code", "zlib: invalid code lengths set",
           "zlib: invalid literal/lengths set", "zlib: invalid distances set", "zlib: invalid bit length repeat", "zlib: too many length or distance symbols",
           "zlib: invalid code -- missing end-of-block", "zlib: incorrect data check", "zlib: incorrect header check")
VH_DRIVER("P11", "For every stream: no sanitizer report, termination, output at most 1040 times the input; delivered exactly if zlib reads a complete valid stream, with identical bytes; no leak of buffers or trees")
