// Shared by P10/P11/P12/P13: data generators, a zlib reference reader and an independent random deflate encoder.
#pragma once
#include "vh.hpp"
#include <zlib.h>
#include <algorithm>
namespace vh
{
   typedef std::string B;
   inline B genData(Rng& r, size_t n)
   {
      B d;
      d.reserve(n);
      int mode = (int)r.below(8);
      int alpha = (int)r.range(1, 40);
      while(d.size() < n)
      {
         switch(mode == 7 ? (int)r.below(7) : mode)
         {
            case 0: d += (char)r.below(256); break;                                       // incompressible
            case 1: d += (char)('a' + r.below((uint64_t)alpha)); break;
            case 2: d.append((size_t)r.range(1, 700), (char)r.below(256)); break;          // runs
            case 3: { static const char* W[] = {"the ", "quick ", "lorem ", "ipsum ", "\r\n", "Core ", "0x00 "}; d += W[r.below(7)]; break; }
            case 4:                                                                        // copies from far back
               if(d.size() > 40)
               {
                  size_t mx = std::min<size_t>(d.size(), 33000);
                  size_t dist = r.chance(0.3) ? mx : (size_t)r.range(1, (int64_t)mx);
                  if(r.chance(0.2) && mx >= 32768)dist = 32768 - r.below(3);
                  size_t len = (size_t)r.range(3, 300), s = d.size() - dist;
                  for(size_t i = 0; i < len; i++)d += d[s + i];
               }
               else d += (char)r.below(256);
               break;
            case 5: { size_t k = (size_t)r.range(1, 40); while(k--)d += (char)r.below(256); d.append((size_t)r.range(0, 30), 0); break; }
            default: d += (char)(r.chance(0.97) ? 0 : r.below(256));
         }
      }
      d.resize(n);
      return d;
   }
   inline size_t genSize(Rng& r)
   {
      switch(r.below(10))
      {
         case 0: return (size_t)r.range(0, 8);
         case 1: case 2: case 3: return (size_t)r.range(0, 300);
         case 4: case 5: return (size_t)r.range(900, 1200);
         case 6: return (size_t)r.range(4000, 9000);
         case 7: return (size_t)(32768 + r.range(-20, 400));
         case 8: return (size_t)(65535 + r.range(-3, 300));
         default: return (size_t)r.range(0, r.chance(0.2) ? 400000 : 70000);
      }
   }
   // Reference decompression. complete: the stream's own end was reached. used: bytes consumed.
   struct Ref
   {
      bool complete = false, error = false;
      B out;
      size_t used = 0;
      std::string msg;
   };
   inline Ref refInflate(const B& in, int windowBits, size_t limit = 64u << 20)
   {
      Ref x;
      z_stream z{};
      if(inflateInit2(&z, windowBits) != Z_OK)abort();
      z.next_in = (Bytef*)in.data();
      z.avail_in = (uInt)in.size();
      std::vector<unsigned char> buf(65536);
      int rc;
      do
      {
         z.next_out = buf.data();
         z.avail_out = (uInt)buf.size();
         rc = inflate(&z, Z_NO_FLUSH);
         x.out.append((char*)buf.data(), buf.size() - z.avail_out);
      }
      while(rc == Z_OK && x.out.size() < limit && !(z.avail_in == 0 && z.avail_out > 0));
      x.complete = rc == Z_STREAM_END;
      x.error = rc == Z_DATA_ERROR || rc == Z_NEED_DICT;
      if(z.msg)x.msg = z.msg;
      x.used = in.size() - z.avail_in;
      inflateEnd(&z);
      return x;
   }
   struct Enc
   {
      int level, strategy, memLevel, bits;
      std::string str() const
      {
         return "level " + std::to_string(level) + " strategy " + std::to_string(strategy) + " memLevel " + std::to_string(memLevel) + " windowBits " + std::to_string(bits);
      }
   };
   inline B zDeflate(Rng& r, const B& data, bool raw, Enc& e)
   {
      e.level = (int)r.range(0, 9);
      e.strategy = (int)r.below(5);
      e.memLevel = (int)r.range(1, 9);
      e.bits = (int)r.range(9, 15);
      z_stream z{};
      if(deflateInit2(&z, e.level, Z_DEFLATED, raw ? -e.bits : e.bits, e.memLevel, e.strategy) != Z_OK)abort();
      B out;
      std::vector<unsigned char> buf(1 << 16);
      size_t pos = 0;
      bool flushes = r.chance(0.3);
      int rc;
      do
      {
         size_t n = data.size() - pos;
         int fl = Z_FINISH;
         if(flushes && n > 1 && r.chance(0.8))
         {
            n = (size_t)r.range(0, (int64_t)n);
            static const int F[] = {Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_BLOCK, Z_PARTIAL_FLUSH};
            fl = F[r.below(5)];
            if(r.chance(0.3))
            {
               z.next_out = buf.data();
               z.avail_out = (uInt)buf.size();
               z.avail_in = 0;
               if(deflateParams(&z, (int)r.range(0, 9), (int)r.below(5)) == Z_STREAM_ERROR)abort();
               out.append((char*)buf.data(), buf.size() - z.avail_out);
            }
         }
         z.next_in = (Bytef*)data.data() + pos;
         z.avail_in = (uInt)n;
         do
         {
            z.next_out = buf.data();
            z.avail_out = (uInt)buf.size();
            rc = deflate(&z, fl);
            out.append((char*)buf.data(), buf.size() - z.avail_out);
         }
         while(z.avail_out == 0);
         pos += n;
         if(fl != Z_FINISH && z.avail_in)abort();
      }
      while(rc != Z_STREAM_END);
      deflateEnd(&z);
      return out;
   }

   // ---- independent encoder: random but valid deflate streams with every kind of block ----
   struct BitW
   {
      B out;
      int n = 0;
      unsigned cur = 0;
      void bit(int b)
      {
         cur |= (unsigned)(b & 1) << n;
         if(++n == 8)
         {
            out += (char)cur;
            cur = 0;
            n = 0;
         }
      }
      void lsb(unsigned v, int k)
      {
         for(int i = 0; i < k; i++)bit((int)(v >> i & 1));
      }
      void msb(unsigned v, int k)
      {
         for(int i = k - 1; i >= 0; i--)bit((int)(v >> i & 1));
      }
      void align()
      {
         while(n)bit(0);
      }
   };
   // random complete prefix code over the given symbols with at most maxLen bits
   inline std::vector<int> randomLengths(Rng& r, const std::vector<int>& syms, int total, int maxLen)
   {
      std::vector<int> len((size_t)total, 0);
      if(syms.empty())return len;
      if(syms.size() == 1)
      {
         len[(size_t)syms[0]] = 1;
         return len;
      }
      // split random leaves until there are enough
      std::vector<int> leaves(2, 1);
      int bias = (int)r.below(3);
      while(leaves.size() < syms.size())
      {
         size_t k;
         int tries = 0;
         do
         {
            k = bias == 0 ? leaves.size() - 1 : (size_t)r.below(leaves.size());
            if(bias == 2 && tries == 0)k = (size_t)(std::min_element(leaves.begin(), leaves.end()) - leaves.begin());
            if(++tries > 3)k = (size_t)(std::min_element(leaves.begin(), leaves.end()) - leaves.begin());
         }
         while(leaves[k] >= maxLen);
         leaves[k]++;
         leaves.push_back(leaves[k]);
      }
      for(size_t i = 0; i < syms.size(); i++)len[(size_t)syms[i]] = leaves[i];
      for(size_t i = syms.size(); i > 1; i--)std::swap(len[(size_t)syms[i - 1]], len[(size_t)syms[r.below(i)]]);
      return len;
   }
   inline std::vector<unsigned> codesOf(const std::vector<int>& len)
   {
      std::vector<unsigned> cnt(17, 0), next(17, 0), c(len.size(), 0);
      for(int l : len)cnt[(size_t)l]++;
      cnt[0] = 0;
      unsigned code = 0;
      for(size_t b = 1; b <= 16; b++)
      {
         code = (code + cnt[b - 1]) << 1;
         next[b] = code;
      }
      for(size_t i = 0; i < len.size(); i++)if(len[i])c[i] = next[(size_t)len[i]]++;
      return c;
   }
   static const int kLenBase[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
   static const int kLenExtra[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
   static const int kDistBase[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
   static const int kDistExtra[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
   struct Tok
   {
      int lit;                      // -1: match
      int ls, le, ds, de, len, dist;
   };
   // appends the block's plain data to plain; returns a description
   inline std::string randomBlock(Rng& r, BitW& w, B& plain, bool last, size_t budget)
   {
      int type = (int)r.below(3);
      w.bit(last);
      w.lsb((unsigned)type, 2);
      if(type == 0)
      {
         size_t n = r.chance(0.2) ? 0 : std::min<size_t>(65535, (size_t)r.range(0, (int64_t)budget));
         if(r.chance(0.03))n = 65535;
         w.align();
         w.lsb((unsigned)n, 16);
         w.lsb((unsigned)n ^ 0xFFFF, 16);
         for(size_t i = 0; i < n; i++)
         {
            char c = (char)r.below(256);
            plain += c;
            w.out += c;
         }
         return "stored " + std::to_string(n);
      }
      // tokens
      std::vector<Tok> t;
      size_t made = 0;
      bool noMatch = r.chance(0.2), oneDist = r.chance(0.2);
      int fixedDs = (int)r.below(30);
      int litRange = (int)r.range(1, 256), litBase = (int)r.below(257 - (uint64_t)litRange);
      size_t start = plain.size();
      int k = (int)r.range(0, (int64_t)std::min<size_t>(budget, 400));
      for(int i = 0; i < k; i++)
      {
         size_t avail = plain.size();
         if(noMatch || avail == 0 || r.chance(0.4))
         {
            int l = litBase + (int)r.below((uint64_t)litRange);
            t.push_back({l, 0, 0, 0, 0, 0, 0});
            plain += (char)l;
            made++;
            continue;
         }
         Tok m{};
         m.lit = -1;
         m.ls = r.chance(0.1) ? 28 : (int)r.below(29);
         m.le = kLenExtra[m.ls] ? (int)(r.chance(0.2) ? (1u << kLenExtra[m.ls]) - 1 : r.below(1ull << kLenExtra[m.ls])) : 0;
         m.len = kLenBase[m.ls] + m.le;
         m.ds = oneDist ? fixedDs : (int)r.below(30);
         while(!oneDist && kDistBase[m.ds] > (int)avail)m.ds--;
         m.de = kDistExtra[m.ds] ? (int)(r.chance(0.2) ? (1u << kDistExtra[m.ds]) - 1 : r.below(1ull << kDistExtra[m.ds])) : 0;
         m.dist = kDistBase[m.ds] + m.de;
         if(m.dist > (int)avail)
         {
            m.de = 0;
            m.dist = kDistBase[m.ds];
            if(m.dist > (int)avail)continue;
            if(kDistExtra[m.ds])
            {
               m.de = (int)std::min<size_t>(avail - (size_t)m.dist, (1u << kDistExtra[m.ds]) - 1);
               m.dist += m.de;
            }
         }
         t.push_back(m);
         size_t s = plain.size() - (size_t)m.dist;
         for(int j = 0; j < m.len; j++)plain += plain[s + (size_t)j];
         made += (size_t)m.len;
      }
      (void)start;
      std::vector<int> ll(288, 0), dl(32, 0);
      std::string desc;
      if(type == 1)
      {
         for(int i = 0; i < 288; i++)ll[(size_t)i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
         for(int i = 0; i < 32; i++)dl[(size_t)i] = 5;
         desc = "fixed " + std::to_string(t.size());
      }
      else
      {
         std::vector<char> useL(286, 0), useD(30, 0);
         useL[256] = 1;
         for(auto& x : t)
         {
            if(x.lit >= 0)useL[(size_t)x.lit] = 1;
            else
            {
               useL[(size_t)(257 + x.ls)] = 1;
               useD[(size_t)x.ds] = 1;
            }
         }
         if(r.chance(0.3))   // unused symbols in the code
         {
            for(int i = 0; i < 286; i++)if(r.chance(0.2))useL[(size_t)i] = 1;
            if(r.chance(0.5))for(int i = 0; i < 30; i++)if(r.chance(0.3))useD[(size_t)i] = 1;
         }
         std::vector<int> sl, sd;
         for(int i = 0; i < 286; i++)if(useL[(size_t)i])sl.push_back(i);
         for(int i = 0; i < 30; i++)if(useD[(size_t)i])sd.push_back(i);
         std::vector<int> a = randomLengths(r, sl, 286, 15), b = randomLengths(r, sd, 30, 15);
         std::copy(a.begin(), a.end(), ll.begin());
         std::copy(b.begin(), b.end(), dl.begin());
         int hlit = 286, hdist = 30;
         if(r.chance(0.8))while(hlit > 257 && ll[(size_t)hlit - 1] == 0)hlit--;
         if(r.chance(0.8))while(hdist > 1 && dl[(size_t)hdist - 1] == 0)hdist--;
         // run-length coding of the joined sequence, runs cross the border
         std::vector<int> seq(ll.begin(), ll.begin() + hlit);
         seq.insert(seq.end(), dl.begin(), dl.begin() + hdist);
         std::vector<std::pair<int, int>> rle;   // symbol, extra value
         for(size_t i = 0; i < seq.size();)
         {
            size_t run = 1;
            while(i + run < seq.size() && seq[i + run] == seq[i])run++;
            if(r.chance(0.1))run = 1;
            if(seq[i] == 0 && run >= 11)
            {
               size_t q = std::min<size_t>(run, 138);
               rle.push_back({18, (int)q - 11});
               i += q;
            }
            else if(seq[i] == 0 && run >= 3)
            {
               size_t q = std::min<size_t>(run, 10);
               rle.push_back({17, (int)q - 3});
               i += q;
            }
            else if(i > 0 && seq[i - 1] == seq[i] && run >= 3)
            {
               size_t q = std::min<size_t>(run, 6);
               rle.push_back({16, (int)q - 3});
               i += q;
               if(i > (size_t)hlit && i - q < (size_t)hlit)desc = "crossing ";
            }
            else
            {
               rle.push_back({seq[i], 0});
               i++;
            }
         }
         std::vector<char> useC(19, 0);
         for(auto& x : rle)useC[(size_t)x.first] = 1;
         std::vector<int> sc;
         for(int i = 0; i < 19; i++)if(useC[(size_t)i])sc.push_back(i);
         if(sc.size() == 1)sc.push_back(sc[0] == 0 ? 1 : 0);   // has to be complete
         std::vector<int> cl = randomLengths(r, sc, 19, 7);
         std::vector<unsigned> cc = codesOf(cl);
         static const int ORD[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
         int hclen = 19;
         while(hclen > 4 && cl[(size_t)ORD[hclen - 1]] == 0)hclen--;
         w.lsb((unsigned)(hlit - 257), 5);
         w.lsb((unsigned)(hdist - 1), 5);
         w.lsb((unsigned)(hclen - 4), 4);
         for(int i = 0; i < hclen; i++)w.lsb((unsigned)cl[(size_t)ORD[i]], 3);
         for(auto& x : rle)
         {
            w.msb(cc[(size_t)x.first], cl[(size_t)x.first]);
            if(x.first == 16)w.lsb((unsigned)x.second, 2);
            if(x.first == 17)w.lsb((unsigned)x.second, 3);
            if(x.first == 18)w.lsb((unsigned)x.second, 7);
         }
         desc += "dynamic " + std::to_string(t.size()) + " (" + std::to_string(sl.size()) + "/" + std::to_string(sd.size()) + " symbols)";
      }
      std::vector<unsigned> lc = codesOf(ll), dc = codesOf(dl);
      for(auto& x : t)
      {
         if(x.lit >= 0)w.msb(lc[(size_t)x.lit], ll[(size_t)x.lit]);
         else
         {
            w.msb(lc[(size_t)(257 + x.ls)], ll[(size_t)(257 + x.ls)]);
            w.lsb((unsigned)x.le, kLenExtra[x.ls]);
            w.msb(dc[(size_t)x.ds], dl[(size_t)x.ds]);
            w.lsb((unsigned)x.de, kDistExtra[x.ds]);
         }
      }
      w.msb(lc[256], ll[256]);
      return desc;
   }
   inline B randomStream(Rng& r, B& plain, bool raw, std::string& desc)
   {
      BitW w;
      if(!raw)
      {
         int cinfo = 7;
         unsigned cmf = (unsigned)(cinfo << 4 | 8), flg = (unsigned)r.below(4) << 6;
         flg += 31 - (cmf * 256 + flg) % 31;
         w.lsb(cmf, 8);
         w.lsb(flg, 8);
      }
      int n = (int)r.range(1, 6);
      if(r.chance(0.3))
      {
         // a long prefix so that far distances exist
         size_t k = (size_t)r.range(1000, 40000);
         while(k)
         {
            size_t q = std::min<size_t>(k, 65535);
            w.bit(0);
            w.lsb(0, 2);
            w.align();
            w.lsb((unsigned)q, 16);
            w.lsb((unsigned)q ^ 0xFFFF, 16);
            B d = genData(r, q);
            w.out += d;
            plain += d;
            k -= q;
         }
         desc += "prefix; ";
      }
      for(int i = 0; i < n; i++)desc += randomBlock(r, w, plain, i == n - 1, (size_t)r.range(0, 2000)) + "; ";
      w.align();
      if(!raw)
      {
         uLong a = adler32(adler32(0, nullptr, 0), (const Bytef*)plain.data(), (uInt)plain.size());
         for(int i = 3; i >= 0; i--)w.out += (char)(a >> (8 * i));
      }
      return w.out;
   }
   inline std::string hexShort(const B& b)
   {
      return std::to_string(b.size()) + " bytes " + hex(b.substr(0, 120));
   }
}
