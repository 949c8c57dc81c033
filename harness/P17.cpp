// P17: byte arrays and memory streams.
// VH-TECH: operation histories compared step by step with a std::string model (all live arrays and the stream's buffer compared after every step), exactly sized buffers and guard bytes under ASan+UBSan with pattern-filled allocations
#include "vh.hpp"
using namespace vh;
using namespace jm;
typedef std::string B;
static B randBytes(Rng& r, size_t n)
{
   B b;
   while(n--)b += (char)(r.chance(0.3) ? 0 : r.below(256));
   return b;
}
static size_t size(Rng& r) { return r.chance(0.3) ? r.below(4) : r.chance(0.05) ? r.below(5000) : r.below(60); }
VH_WORKLOAD(byteArrays, 120000, 3000000)
{
   Rng& r = c.r;
   struct Slot { std::unique_ptr<ByteArray> a; B m; bool null; };
   std::vector<Slot> s;
   std::string h;
   auto make = [&]() -> Slot
   {
      Slot x;
      x.null = false;
      switch(r.below(7))
      {
         case 0: x.a.reset(new ByteArray()); x.null = true; h += "ByteArray(); "; break;
         case 1:
         {
            x.m = randBytes(r, size(r));
            std::unique_ptr<uint8[]> p(new uint8[x.m.size()]);
            memcpy(p.get(), x.m.data(), x.m.size());
            x.a.reset(new ByteArray((const uint8*)p.get(), (int64)x.m.size()));
            break;
         }
         case 2:
         {
            x.m = randBytes(r, size(r));
            std::unique_ptr<int8[]> p(new int8[x.m.size()]);
            memcpy(p.get(), x.m.data(), x.m.size());
            x.a.reset(new ByteArray((const int8*)p.get(), (int64)x.m.size()));
            break;
         }
         case 3:
         {
            x.m = randBytes(r, size(r));
            for(char& ch : x.m)if(!ch)ch = 'q';
            std::unique_ptr<int8[]> p(new int8[x.m.size() + 1]);
            memcpy(p.get(), x.m.c_str(), x.m.size() + 1);
            if(r.chance(0.5))x.a.reset(new ByteArray((const int8*)p.get()));
            else x.a.reset(new ByteArray((const uint8*)p.get()));
            break;
         }
         case 4: { size_t n = size(r); uint8 ch = (uint8)r.below(256); x.m = B(n, (char)ch); x.a.reset(new ByteArray((int64)n, ch)); break; }
         case 5: x.m = B("\x01\x00\xff", 3); x.a.reset(new ByteArray({1, 0, 255})); break;
         default:
            if(s.size())
            {
               Slot& o = s[r.below(s.size())];
               x.m = o.m;
               x.null = o.null;
               x.a.reset(new ByteArray(*o.a));
               count("copies");
            }
            else { x.a.reset(new ByteArray((const uint8*)nullptr, 0)); x.null = true; }
      }
      h += "new[" + std::to_string(x.m.size()) + "]; ";
      return x;
   };
   auto same = [&](Slot & x, const char* when, size_t i)
   {
      VH_CHECK(x.a->size() == (int64)x.m.size(), "size", h << when << " array " << i << " size " << x.a->size() << " instead of " << x.m.size());
      VH_CHECK(x.a->isEmpty() == x.m.empty(), "isEmpty", h);
      VH_CHECK(x.a->isNull() == x.null, "isNull", h << " array " << i);
      const char* p = x.a->constData();
      if(x.m.size())VH_CHECK(memcmp(p, x.m.data(), x.m.size()) == 0, "bytes", h << when << " array " << i << ": " << hex(p, x.m.size()) << " instead of " << hex(x.m));
      if(!x.null)VH_CHECK(p[x.m.size()] == 0, "terminator", h << when << " array " << i << " not zero terminated");
      VH_CHECK((void*)x.a->data() == (void*)p, "data", h);
   };
   int steps = (int)r.range(3, 30);
   s.push_back(make());
   for(int k = 0; k < steps; k++)
   {
      size_t i = r.below(s.size()), j = r.below(s.size());
      Slot& x = s[i];
      Slot& y = s[j];
      switch(r.below(12))
      {
         case 0: if(s.size() < 4)s.push_back(make()); break;
         case 1:
         {
            *x.a = *y.a;
            x.m = B(y.m);
            x.null = y.null;
            h += std::to_string(i) + "=" + std::to_string(j) + "; ";
            count("assignments");
            if(i == j)count("selfAssign");
            break;
         }
         case 2:
         case 3:
         {
            size_t n = r.chance(0.4) ? x.m.size() + r.below(20) : size(r);
            if(n < x.m.size())count("shrunk");
            x.a->resize((int64)n);
            if(!x.null || n > 0)x.null = x.null && x.a->isNull();
            if(n > 0)x.null = false;
            x.m.resize(n, 0);
            x.null = x.a->isNull() && x.m.empty() ? true : false;
            h += std::to_string(i) + ".resize(" + std::to_string(n) + "); ";
            count("resized");
            break;
         }
         case 4: if(x.m.size()) { size_t p = r.below(x.m.size()); uint8 v = (uint8)r.below(256); if(r.chance(0.5))x.a->set((int64)p, v); else (*x.a)[(int64)p] = v; x.m[p] = (char)v; h += "set " + std::to_string(p) + "; "; } break;
         case 5: { uint8 v = (uint8)r.below(256); x.a->fill(v); std::fill(x.m.begin(), x.m.end(), (char)v); h += "fill; "; break; }
         case 6:
         case 7:
         {
            int64 t = (int64)r.below(x.m.size() + 3), o = (int64)r.below(y.m.size() + 3), n = r.chance(0.2) ? r.range(-3, 200) : (int64)r.below(std::max(x.m.size(), y.m.size()) + 2);
            if(r.chance(0.02))n = INT64_MAX;
            x.a->replace(t, o, *y.a, n);
            B src = y.m;
            for(int64 q = 0; q < n && t + q < (int64)x.m.size() && o + q < (int64)src.size(); q++)x.m[(size_t)(t + q)] = src[(size_t)(o + q)];
            h += std::to_string(i) + ".replace(" + std::to_string(t) + "," + std::to_string(o) + "," + std::to_string(j) + "," + std::to_string(n) + "); ";
            count("replaced");
            if(i == j)count("selfReplace");
            break;
         }
         case 8: { uint8 a = x.m.size() ? (uint8)x.m[r.below(x.m.size())] : 0, b = (uint8)r.below(256); x.a->replace(a, b); for(char& ch : x.m)if((uint8)ch == a)ch = (char)b; h += "replace value; "; break; }
         case 9: if(x.m.size() < 300) { x.a->sort(); std::sort(x.m.begin(), x.m.end(), [](char p, char q) { return (uint8)p < (uint8)q; }); h += std::to_string(i) + ".sort; "; count("sorted"); } break;
         case 10:
         {
            if(r.chance(0.2))y.a->resize((int64)(y.m = x.m, x.m.size())), y.null = y.a->isNull();
            if(y.m == x.m && i != j)for(size_t q = 0; q < x.m.size(); q++)y.a->set((int64)q, (uint8)x.m[q]);
            bool g = *x.a == *y.a;
            VH_CHECK(g == (x.m == y.m), "equal", h << ": " << hex(x.m) << " == " << hex(y.m) << " is " << g);
            count(g ? "equal" : "unequal");
            break;
         }
         default: if(x.m.size()) { size_t p = r.below(x.m.size()); const ByteArray& ca = *x.a; VH_CHECK(x.a->get((int64)p) == (uint8)x.m[p] && ca[(int64)p] == (uint8)x.m[p], "get", h << p); } if(s.size() > 1 && r.chance(0.3)) { s.erase(s.begin() + (long)i); h += "delete; "; }
      }
      for(size_t q = 0; q < s.size(); q++)same(s[q], "after", q);
   }
   distinct(hashStr(h));
   sample(h);
   count("histories");
}
VH_WORKLOAD(streams, 120000, 3000000)
{
   Rng& r = c.r;
   size_t n = size(r);
   B model = randBytes(r, n);
   uint8* raw = new uint8[n];
   memcpy(raw, model.data(), n);
   bool own = r.chance(0.4);
   std::unique_ptr<uint8[]> keep(own ? nullptr : raw);
   std::unique_ptr<MemoryStream> ms(new MemoryStream(raw, (int64)n, own));
   int64 pos = 0, wl = 0, N = (int64)n;
   if(r.chance(0.7))ms->open(r.chance(0.5) ? FileMode::kRead : FileMode::kReadWrite);
   std::string h = "stream of " + std::to_string(n) + "; ";
   auto len = [&]() -> int64
   {
      switch(r.below(7))
      {
         case 0: return 0;
         case 1: return N - pos;
         case 2: return N - pos + 1;
         case 3: return r.range(-3, 0);
         case 4: return r.range(0, 2 * N + 4);
         default: return r.range(0, N / 3 + 2);
      }
   };
   for(int k = (int)r.range(3, 40); k--;)
   {
      switch(r.below(10))
      {
         case 0:
         case 1:
         {
            int64 l = len(), e = std::max<int64>(0, std::min(l, N - pos));
            if(r.chance(0.03))
            {
               l = INT64_MAX - (int64)r.below(3);   // only the rest is transferred
               e = N - pos;
            }
            std::unique_ptr<uint8[]> b(new uint8[(size_t)e]);
            h += "read(" + std::to_string(l) + ")@" + std::to_string(pos) + "; ";
            int64 g = ms->read(b.get(), l);
            VH_CHECK(g == e, "read-count", h << " returned " << g << " instead of " << e);
            VH_CHECK(memcmp(b.get(), model.data() + pos, (size_t)e) == 0, "read-bytes", h << hex(b.get(), (size_t)e) << " instead of " << hex(model.data() + pos, (size_t)e));
            pos += e;
            if(l > e)count("readBeyond");
            count("reads");
            break;
         }
         case 2:
         case 3:
         {
            int64 l = len(), e = std::max<int64>(0, std::min(l, N - pos));
            B d = randBytes(r, (size_t)std::max<int64>(l, 0));
            std::unique_ptr<uint8[]> b(new uint8[d.size()]);
            memcpy(b.get(), d.data(), d.size());
            h += "write(" + std::to_string(l) + ")@" + std::to_string(pos) + "; ";
            int64 g = r.chance(0.5) ? ms->write((const uint8*)b.get(), l) : ms->Stream::write((const int8*)b.get(), l);
            VH_CHECK(g == e, "write-count", h << " returned " << g << " instead of " << e);
            if(e)model.replace((size_t)pos, (size_t)e, d.substr(0, (size_t)e));
            pos += e;
            if(e)wl = std::max(wl, pos);
            if(l > e)count("writeBeyond");
            count("writes");
            break;
         }
         case 4:
         {
            size_t bs = r.below((size_t)N + 4);
            ByteArray b((int64)bs, 0x5A);
            bool full = r.chance(0.5);
            int64 l = full ? (int64)bs : len(), e = std::max<int64>(0, std::min(std::min(l, (int64)bs), N - pos));
            h += "readFully(" + std::to_string(bs) + "," + std::to_string(l) + ")@" + std::to_string(pos) + "; ";
            int64 g = full ? ms->Stream::readFully(b) : ms->readFully(b, l);
            VH_CHECK(g == e && b.size() == (int64)bs, "readFully-count", h << " returned " << g << " instead of " << e);
            for(size_t q = 0; q < bs; q++)VH_CHECK(b.get((int64)q) == ((int64)q < e ? (uint8)model[(size_t)(pos + (int64)q)] : 0x5A), "readFully-bytes", h << " byte " << q);
            pos += e;
            count("readFully");
            break;
         }
         case 5:
         {
            int64 p = r.chance(0.7) ? r.range(0, N) : r.chance(0.5) ? r.range(-5, N + 5) : (int64)r.u64();
            h += "seek(" + std::to_string(p) + "); ";
            ms->seek(p);
            if(p >= 0 && p <= N)pos = p;
            else count("seekOutside");
            break;
         }
         case 6:
         {
            int64 p = r.chance(0.7) ? r.range(-pos, N - pos) : r.chance(0.5) ? r.range(-N - 5, N + 5) : (int64)r.u64();
            h += "move(" + std::to_string(p) + "); ";
            ms->move(p);
            __int128 t = (__int128)pos + p;
            if(t >= 0 && t <= N)pos = (int64)t;
            else count("moveOutside");
            break;
         }
         case 7:
         {
            jm::String t = mk(U((size_t)r.below(5), u'\u00e4'));
            int64 l = t.size() * 2, e = std::min(l, N - pos);
            B u;
            for(int64 q = 0; q < t.size(); q++)u += "\xc3\xa4";
            h += "write text of " + std::to_string(l) + "; ";
            int64 g = ms->Stream::write(t);
            VH_CHECK(g == e, "write-text-count", h << g << " instead of " << e);
            model.replace((size_t)pos, (size_t)e, u.substr(0, (size_t)e));
            pos += e;
            if(e)wl = std::max(wl, pos);
            break;
         }
         case 8:
            if(r.chance(0.5))
            {
               ms->open(FileMode::kRead);
               pos = 0;
               wl = 0;
               h += "open; ";
            }
            else
            {
               ms->close();
               pos = 0;
               h += "close; ";
            }
            break;
         default: ;
      }
      VH_CHECK(ms->position() == pos, "position", h << " position " << ms->position() << " instead of " << pos);
      VH_CHECK(ms->size() == N, "stream-size", h << ms->size());
      VH_CHECK(ms->buffer() == raw, "buffer", h);
      VH_CHECK(ms->mWritelength == wl, "written-length", h << ms->mWritelength << " instead of " << wl);
      VH_CHECK(memcmp(raw, model.data(), n) == 0, "buffer-bytes", h << hex(raw, n) << " instead of " << hex(model));
      VH_CHECK(ms->isOpen(), "isOpen", h);
   }
   distinct(hashStr(h));
   sample(h);
   count("streamHistories");
   ms.reset();
   if(!own)VH_CHECK(memcmp(raw, model.data(), n) == 0, "not-owned", h);
   count(own ? "owned" : "borrowed");
}
// Large arrays, arrays that differ in one bit only, and texts of some length written to a stream.
VH_WORKLOAD(large, 400, 6000)
{
   Rng& r = c.r;
   static const int64 Z[] = {255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 100000};
   size_t n = (size_t)(r.chance(0.5) ? r.pick(Z) : r.range(200, 70000));
   B m = randBytes(r, n);
   ByteArray a((const uint8*)m.data(), (int64)n), b(a), d, e;
   d = a;
   e.resize((int64)n);
   VH_CHECK(e.size() == (int64)n, "size", n);
   for(size_t k = 0; k < n; k++)VH_CHECK(e.get((int64)k) == 0, "resize-zero", "byte " << k << " of " << n);
   e.replace(0, 0, a, (int64)n);
   VH_CHECK(a == b && a == d && a == e && !(a == ByteArray((int64)n - 1, 0)), "equal", n << " equal bytes");
   for(int q = 0; q < 40; q++)
   {
      size_t p = q == 0 ? 0 : q == 1 ? n - 1 : (size_t)r.below(n);
      uint8 old = b.get((int64)p);
      b.set((int64)p, (uint8)(old ^ (1 << r.below(8))));
      VH_CHECK(!(a == b) && !(b == a), "equal", "arrays of " << n << " that differ in byte " << p);
      b.set((int64)p, old);
      VH_CHECK(a == b, "equal", "byte " << p << " of " << n << " set back");
   }
   size_t k = (size_t)r.below(n), w = (size_t)r.range(1, 70000);
   d.resize((int64)k);
   d.resize((int64)w);
   VH_CHECK(d.size() == (int64)w && memcmp(d.constData(), m.data(), std::min(std::min(k, w), n)) == 0, "bytes", n << " resized to " << k << " and " << w);
   for(size_t i = std::min(k, w); i < w; i++)VH_CHECK(d.get((int64)i) == 0, "resize-zero", n << " resized to " << k << " and " << w << ": byte " << i);
   if(c.index % 8 == 0)
   {
      size_t z = std::min<size_t>(n, 3000);
      B x = m.substr(0, z);
      ByteArray y((const uint8*)x.data(), (int64)z);
      if(r.chance(0.3)) { y.sort(); size_t p = (size_t)r.below(z); std::sort(x.begin(), x.end(), [](char i, char j) { return (uint8)i < (uint8)j; }); x[p] = (char)r.below(256); y.set((int64)p, (uint8)x[p]); }
      y.sort();
      std::sort(x.begin(), x.end(), [](char i, char j) { return (uint8)i < (uint8)j; });
      VH_CHECK(memcmp(y.constData(), x.data(), z) == 0, "sorted", z << " bytes");
   }
   {
      // the same operations as on small arrays, also on very large ones
      size_t z = r.chance(0.2) ? (size_t)r.range(100000, 1500000) : n;
      if(z > 131072)count("hugeArrays");
      B x = randBytes(r, z);
      ByteArray y((const uint8*)x.data(), (int64)z);
      uint8 v = (uint8)r.below(256), o = (uint8)r.below(256);
      switch(r.below(4))
      {
         case 0: y.fill(v); std::fill(x.begin(), x.end(), (char)v); break;
         case 1: y.replace(o, v); std::replace(x.begin(), x.end(), (char)o, (char)v); break;
         case 2:   // overlapping itself
         {
            size_t to = r.below(z), from = r.below(z), len = (size_t)r.range(0, (int64)z);
            y.replace((int64)to, (int64)from, y, (int64)len);
            len = std::min(len, std::min(z - to, z - from));
            memmove(&x[to], &x[from], len);
            break;
         }
         default:
         {
            size_t to = r.below(z), from = r.below(n), len = (size_t)r.range(0, (int64)std::max(z, n) + 5);
            y.replace((int64)to, (int64)from, a, (int64)len);
            len = std::min(len, std::min(z - to, n - from));
            memcpy(&x[to], &m[from], len);
         }
      }
      VH_CHECK(y.size() == (int64)z && memcmp(y.constData(), x.data(), z) == 0, "large-bytes", z << " bytes");
      ByteArray g(y);
      g.resize((int64)z * 2);
      VH_CHECK(g.size() == (int64)z * 2 && memcmp(g.constData(), x.data(), z) == 0 && y.size() == (int64)z, "large-growth", z << " bytes");
      size_t zeros = 0;
      for(size_t i = z; i < z * 2; i++)zeros += g.get((int64)i) == 0;
      VH_CHECK(zeros == z, "large-zero", zeros << " of " << z << " added bytes are zero");
   }
   U t;
   B u8;
   for(size_t i = (size_t)r.range(1, 6000); i--;)
   {
      static const char16_t T[] = {u'a', u'Z', 0xe4, 0x7ff, 0x800, 0x20ac, u'\n'};
      char16_t q = r.pick(T);
      t += q;
      if(q < 0x80)u8 += (char)q;
      else if(q < 0x800) { u8 += (char)(0xC0 | (q >> 6)); u8 += (char)(0x80 | (q & 63)); }
      else { u8 += (char)(0xE0 | (q >> 12)); u8 += (char)(0x80 | ((q >> 6) & 63)); u8 += (char)(0x80 | (q & 63)); }
   }
   int64 room = r.chance(0.5) ? (int64)u8.size() + 5 : r.range(0, (int64)u8.size());
   std::unique_ptr<uint8[]> raw(new uint8[(size_t)room]);
   memset(raw.get(), 0x5A, (size_t)room);
   MemoryStream ms(raw.get(), room, false);
   int64 want = std::min<int64>(room, (int64)u8.size()), got = ms.Stream::write(mk(t));
   VH_CHECK(got == want && ms.position() == want && ms.mWritelength == want, "write-text-count", got << " instead of " << want << " for " << t.size() << " characters");
   VH_CHECK(memcmp(raw.get(), u8.data(), (size_t)want) == 0, "write-text-bytes", t.size() << " characters");
   for(int64 i = want; i < room; i++)VH_CHECK(raw[(size_t)i] == 0x5A, "write-text-bytes", "byte " << i << " behind the text");
   distinct(mix(n, hashBytes(u8.data(), u8.size())));
   count("largeArrays");
}
VH_REQUIRE("hugeArrays", "largeArrays", "histories", "copies", "assignments", "selfAssign", "resized", "shrunk", "replaced", "selfReplace", "sorted", "equal", "unequal", "streamHistories", "reads", "readBeyond", "writes", "writeBeyond", "readFully", "seekOutside", "moveOutside", "owned", "borrowed")
VH_DRIVER("P17", "After every step every array equals its model byte by byte including size, terminator and independence of copies; a stream transfers exactly min(requested, remaining) bytes, keeps position, size, buffer; no sanitizer report")
