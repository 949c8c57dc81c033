// P38: everything acquired is released.
// VH-TECH: random uses of every class of the library, normal and failing, repeated identically while live heap bytes (sanitizer allocator), open descriptors and threads of the process are counted
// VH-CONFIG: hang=60
#include "vh.hpp"
#include "undo_world.hpp"
#include <fstream>
#include <dirent.h>
#include <sys/wait.h>
#include <array>
#include <atomic>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
using namespace vh;
using namespace jm;
struct Quiet
{
   std::ostringstream o, e;
   std::streambuf* a, *b;
   Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); }
   ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
static std::atomic<int64_t> gBlocks{0};
static void onMalloc(const volatile void*, size_t) { gBlocks.fetch_add(1, std::memory_order_relaxed); }
static void onFree(const volatile void* p) { if(p)gBlocks.fetch_sub(1, std::memory_order_relaxed); }
static int entries(const char* d)
{
   DIR* p = opendir(d);
   if(!p)return -1;
   int n = 0;
   while(readdir(p))n++;
   closedir(p);
   return n;
}
static U word(Rng& r, size_t mx)
{
   U u;
   for(size_t n = r.below(mx + 1); n--;)u += r.chance(0.8) ? (char16_t)r.range(32, 126) : (char16_t)r.range(0xa0, 0x2fff);
   return u;
}
static size_t len(Rng& r) { return r.chance(0.1) ? 400 : r.chance(0.5) ? 40 : 6; }
static jm::String text(Rng& r) { return mk(word(r, len(r))); }
static std::string bytes(Rng& r, size_t mx) { std::string s(r.below(mx + 1), '\0'); int k = (int)r.range(1, 255); for(auto& c : s)c = (char)r.below((uint64_t)k + 1); return s; }
static std::string scratch(const char* n) { return st().scratch + "/" + n; }
static void spit(const std::string& p, const std::string& s) { std::ofstream(p, std::ios::binary | std::ios::trunc).write(s.data(), (std::streamsize)s.size()); }
static jm::String path(const char* n) { return jm::String(scratch(n).c_str()); }
template<class F> static void expectThrow(F f) { try { f(); } catch(jm::Exception&) { count("exceptions"); } catch(jm::Exception* e) { e->release(); count("exceptions"); } }

// ---- one function per part of the library; each uses only its own objects and lets go of all of them ----
static void strings(Rng& r)
{
   std::vector<jm::String> v;
   for(int n = (int)r.range(1, 12); n--;)
   {
      jm::String a = text(r), b = text(r), e;
      ByteArray raw = a.toCString();
      switch(r.below(30))
      {
         case 0: e = jm::String(raw); break;
         case 1: e = jm::String(raw.constData()); break;
         case 2: e = jm::String(raw.constData(), raw.size()); break;
         case 3: e = jm::String(raw.constData(), Charset::forName("Windows-1252")); break;
         case 4: e = jm::String(raw, Charset::forName("MacRoman")); break;
         case 5: e = jm::String(raw.constData(), raw.size(), Charset::forName("UTF-16LE")); break;
         case 6: e = jm::String((const char*)nullptr); break;
         case 7: { uint16* w = a.toWString(); e = jm::String(w, a.size()); delete[] w; break; }
         case 8: e = a + b; e.insert(r.range(0, e.size()), b); break;
         case 9: e = a.replace(Char('a'), Char('b')); e = e.replace(jm::String("b"), b); break;
         case 10: e = a.trim().toUpperCase().toLowerCase().reverse(); break;
         case 11: { StringList l = a.split(Char('a')); e = l.join(Char(',')); break; }
         case 12: e = jm::String("%1 %2 %3").arg(a).arg((int64)5).arg(1.5, 2, 3); break;
         case 13: expectThrow([&]() { a.substring(5, 2); }); expectThrow([&]() { a.charAt(a.size() + 3); }); break;
         case 14: expectThrow([&]() { text(r).toInt(); }); break;
         case 15: e = URLEncode(a); e = URLDecode(e + "%"); break;
         case 16: e = jm::String::valueOf(r.real(-1e9, 1e9), 3, true); e << (int64)3 << 4.5 << 'c' << a; break;
         case 17: e = a; e.clear(); e.append(b); break;
         case 18: e = a; e.zero(); e.append(Char('x')); break;
         case 19: e = a; e = e; e += e; break;
         case 20: e = a; if(e.size()) { e.deleteCharAt(0); if(e.size() > 2)e.deleteCharRangeAt(1, 1); } break;
         case 21: { StringTokenizer t(a, jm::String(" ,a"), r.chance(0.5)); while(t.hasNext())e.append(t.next()); break; }
         case 22: { std::stringstream s; s << a; s >> e; break; }
         case 23: e = Integer::toRomanString(r.range(-5, 4000)); e << Integer::toHexString(r.range(0, 1 << 30)) << Integer::toLatinAlphabetString(r.range(1, 9999)); break;
         case 24: expectThrow([&]() { Integer::fromHex(text(r)); }); break;
         case 25: e = a; expectThrow([&]() { e.setCharAt(99999, Char('x')); }); break;
         case 26: { int64 n = raw.size(); uint8* z = Base64::encode((const uint8*)raw.constData(), n); uint32 m = (uint32)n; uint8* y = Base64::decode(z, m); delete[] y; delete[] z; m = (uint32)raw.size(); y = Base64::decode((const uint8*)raw.constData(), m); delete[] y; break; }
         case 27: e.equalsIgnoreCase(a); a.compareTo(b); a.compareFancyTo(b); a.hashCode(); break;
         case 28: Charset::guess(raw.constData(), raw.size()); break;
         case 29: { Exception x(a); Exception y(x); e = y.errorMessage() + y.GetStrackTrace(); break; }
      }
      v.push_back(e);
      if(r.chance(0.3))v.erase(v.begin() + (long)r.below(v.size()));
      if(r.chance(0.3) && v.size())v[r.below(v.size())] = v[r.below(v.size())];
   }
}
static void arrays(Rng& r)
{
   std::string s = bytes(r, 600);
   ByteArray a((const uint8*)s.data(), (int64)s.size()), b(r.range(0, 50), 7), d(a), e{1, 2, 3}, f;
   for(int n = (int)r.range(1, 8); n--;)switch(r.below(8))
      {
         case 0: a.resize(r.range(0, 900)); break;
         case 1: b = a; break;
         case 2: a = e; break;
         case 3: f = ByteArray(); f = b; break;
         case 4: a = a; break;
         case 5: expectThrow([&]() { a.get(a.size()); }); expectThrow([&]() { a.replace(3, 900, b, 5); }); break;
         case 6: a.sort(); a.fill(3); break;
         case 7: { CharArray x(r.range(0, 20)), y(x), z; z = x; x = y; z = z; break; }
      }
   jm::Array<jm::String> p(r.range(0, 9)), q(p);
   for(int64 i = 0; i < p.size(); i++)p[i] = text(r);
   q = p;
   p.sort();
   p = p;
   jm::Array<Object*> t(5), u(t);
   u = t;
   Stack<jm::String> st;
   for(int n = (int)r.range(0, 8); n--;)st.push(text(r));
   if(st.size() > 2 && r.chance(0.5)) { st.pop(); st.reverse(); }
   if(r.chance(0.3))st.clear();
   StringList l(text(r));
   for(int n = (int)r.range(0, 40); n--;)l.append(text(r));
   StringList m(l), o(r.range(0, 40));
   o = l;
   l.sort();
   l.remove(l.get(0));
   m.clear();
   m = m;
   m << "x";
   o.reserve(r.range(0, 200));
   expectThrow([&]() { o.get(o.size()); });
   jm::Date dt;
   DateFormatter df("yyyy-MM-dd'T'HH:mm:ss.S D E");
   df.format(dt);
   DateFormatter::format(text(r), dt);
   dt.toString();
}
static void tables(Rng& r)
{
   {
      Hashtable h;
      std::vector<jm::String> keys;
      int x[3];
      for(int n = (int)r.range(0, r.chance(0.1) ? 500 : 30); n--;)
      {
         if(keys.empty() || r.chance(0.7))keys.push_back(text(r));
         const jm::String& k = keys[r.below(keys.size())];
         switch(r.below(8))
         {
            case 0: case 1: case 2: case 3: h.put(k, &x[r.below(3)]); break;
            case 4: case 5: h.remove(k); break;
            case 6: { Iterator* i = r.chance(0.5) ? h.keys() : h.values(); if(i->hasNext())i->next(); delete i; break; }
            case 7: if(r.chance(0.2))h.clear(); break;
         }
      }
   }
   Preferences p;
   for(int n = (int)r.range(0, 20); n--;)switch(r.below(5))
      {
         case 0: p.setValue(text(r), text(r)); break;
         case 1: p.setValue("int", (int64)r.u64()); break;
         case 2: p.setValue("double", r.unit()); break;
         case 3: p.setValue("bool", true); p.value("x", "y"); p.valueBool("bool", false); expectThrow([&]() { p.valueInt("bool", 0); }); break;
         case 4:
         {
            jm::File f(path("p.properties"));
            p.save(f);
            Preferences q;
            q.setValue("old", "x");
            q.load(f);
            if(r.chance(0.3)) { spit(scratch("p.properties"), bytes(r, 300)); expectThrow([&]() { q.load(f); }); }
            if(r.chance(0.2)) { jm::File none(path("none")); expectThrow([&]() { q.load(none); }); jm::File bad(path("nodir/x")); expectThrow([&]() { q.save(bad); }); }
            if(r.chance(0.2))p.clear();
            break;
         }
      }
}
struct Thing: public Object { jm::String s; };
static void lists(Rng& r)
{
   Object owner;
   std::vector<Thing*> t;
   for(int n = (int)r.range(1, 20); n--;)t.push_back(new Thing);
   {
      LinkedList l(&owner);
      std::vector<Thing*> in;
      for(int n = (int)r.range(0, 40); n--;)
      {
         Thing* x = t[r.below(t.size())];
         bool has = std::find(in.begin(), in.end(), x) != in.end();
         switch(r.below(6))
         {
            case 0: case 1: if(!has) { l.add(x, nullptr); in.push_back(x); } break;
            case 2: if(!has && in.size()) { l.addBefore(in[r.below(in.size())], x, nullptr); in.push_back(x); } break;
            case 3: l.remove(x, nullptr); if(has)in.erase(std::find(in.begin(), in.end(), x)); break;
            case 4: if(has)l.swapData(x, in[r.below(in.size())], nullptr); break;
            case 5: { LinkedListIterator i = l.iterator(), j(i); while(j.hasNext())j.next(); i = j; if(r.chance(0.1)) { l.clear(nullptr); in.clear(); } break; }
         }
      }
   }
   for(auto x : t)x->release();
   for(int n = (int)r.range(0, 30); n--;) { Thing* x = new Thing; x->retain(); x->autorelease(); if(r.chance(0.5))x->autorelease(); else x->release(); }
   System::autoreleasePool()->drain();
}
static void compression(Rng& r)
{
   Deflater d;
   std::string in = bytes(r, r.chance(0.1) ? 70000 : 500);
   uint8* out = nullptr;
   int64 n = 0;
   d.setInput((uint8*)in.data(), (int64)in.size());
   d.deflate(out, n);
   if(r.chance(0.3)) { uint8* o2 = nullptr; int64 n2 = 0; d.reset(); d.setInput((uint8*)in.data(), (int64)in.size() / 2); d.deflate(o2, n2); delete[] o2; }
   std::string z((char*)out, (size_t)n);
   delete[] out;
   for(int k = (int)r.range(1, 3); k--;)
   {
      std::string x = z;
      if(r.chance(0.6) && x.size())switch(r.below(3))
         {
            case 0: x.resize(r.below(x.size())); break;
            case 1: for(int m = 4; m--;)x[r.below(x.size())] ^= (char)r.range(1, 255); break;
            case 2: x = bytes(r, 200); break;
         }
      Inflater i(r.chance(0.3));
      if(x.empty())continue;
      i.SetInput((uint8*)x.data(), (int64)x.size());
      uint8* b = nullptr;
      int64 m = 0;
      expectThrow([&]() { i.Inflate(b, m); count("inflated"); });
      delete[] b;
      if(r.chance(0.3)) { i.Reset(); i.SetInput((uint8*)z.data(), (int64)z.size()); b = nullptr; expectThrow([&]() { i.Inflate(b, m); }); delete[] b; }
   }
}
static void archives(Rng& r)
{
   std::string p = scratch("a.zip");
   std::vector<ZipEntry*> all;
   {
      jm::File f(jm::String(p.c_str()));
      ZipOutputFile z(&f);
      z.open();
      std::vector<ZipEntry*> mine;
      for(int n = (int)r.range(0, 6); n--;)
      {
         ZipEntry* e = new ZipEntry(mk(word(r, 12)) + jm::String::valueOf((int64)n));
         z.putNextEntry(e);
         mine.push_back(e);
         if(r.chance(0.3)) { std::string s = bytes(r, 3000); spit(scratch("src"), s); jm::File in(path("src")); z.writeAndClose(&in); }
         else { std::string s = bytes(r, 3000); z.write((uint8*)s.data(), 0, (int64)s.size()); z.closeEntry(); }
      }
      z.close();
      all = mine;
   }
   for(auto e : all)e->release();
   std::ifstream in(p, std::ios::binary);
   std::string s((std::istreambuf_iterator<char>(in)), {});
   in.close();
   for(int k = (int)r.range(1, 3); k--;)
   {
      std::string x = s;
      if(r.chance(0.5))switch(r.below(3))
         {
            case 0: x.resize(r.below(x.size())); break;
            case 1: for(int m = 3; m--;)x[r.below(x.size())] ^= (char)r.range(1, 255); break;
            case 2: for(int m = 3; m--;)x[x.size() - 1 - r.below(std::min<size_t>(x.size(), 90))] ^= (char)r.range(1, 255); break;
         }
      std::unique_ptr<Stream> f;
      if(r.chance(0.5)) { spit(scratch("b.zip"), x); f.reset(new jm::File(path("b.zip"))); }
      else { uint8* m = new uint8[x.size()]; memcpy(m, x.data(), x.size()); f.reset(new MemoryStream(m, (int64)x.size(), true)); }
      ZipFile z(f.get());
      expectThrow([&]()
      {
         z.open();
         count("archivesOpened");
         LinkedListIterator it = z.entryIterator();
         while(it.hasNext())
         {
            ZipEntry* e = static_cast<ZipEntry*>(it.next());
            if(r.chance(0.2))continue;
            expectThrow([&]()
            {
               std::unique_ptr<Stream> t(z.stream(e));
               if(!t)return;
               t->open(FileMode::kRead);
               uint8 b[64];
               t->read(b, 64);
               if(r.chance(0.5))t->close();
               count("entriesRead");
            });
         }
         z.comment();
      });
      z.close();
   }
}
struct Sax: public SAXParser
{
   SAXAttributes last;
   int stop;
   Sax(int s): stop(s) {}
   void startElement(const jm::String&, const jm::String&, const jm::String&, const SAXAttributes& a) override
   {
      last = a;
      SAXAttributes copy(a);
      copy = copy;
      if(stop-- == 0)throw jm::Exception("stop");
   }
};
static void xml(Rng& r)
{
   jm::String doc;
   {
      std::vector<uint8> buf(200000);
      MemoryStream m(buf.data(), (int64)buf.size());
      m.open(FileMode::kWrite);
      XMLWriter w(&m);
      w.startDocument();
      int depth = 0;
      w.startElement("root");
      for(int n = (int)r.range(0, 20); n--;)switch(r.below(6))
         {
            case 0: w.startElement("e" + jm::String::valueOf((int64)n)); depth++; if(r.chance(0.6))w.writeAttribute("a", text(r)); if(r.chance(0.3))w.writeAttribute("b", 1.5); break;
            case 1: if(depth) { w.endElement(); depth--; } break;
            case 2: case 3: w.writeCData(text(r), true); break;
            case 4: w.startIndent(); w.endIndent(); break;
            case 5: { std::string s = bytes(r, 100); w.WriteBase64((uint8*)s.data(), (int64)s.size()); break; }
         }
      if(r.chance(0.7)) { while(depth-- >= 0)w.endElement(); w.endDocument(); }   // else: abandoned with open elements
      else count("abandonedWriters");
      int64 k = std::min<int64>(m.position(), (int64)buf.size());
      m.close();
      doc = jm::String((char*)buf.data(), k);
   }
   for(int k = (int)r.range(1, 3); k--;)
   {
      jm::String x = doc;
      if(r.chance(0.6) && x.size())switch(r.below(3))
         {
            case 0: x = x.substring(0, r.range(0, x.size())); break;
            case 1: x.deleteCharAt(r.range(0, x.size() - 1)); break;
            case 2: x.insert(r.range(0, x.size()), mk(word(r, 8)) + "<&"); break;
         }
      Sax s(r.chance(0.3) ? (int)r.below(6) : -1);
      if(r.chance(0.5))expectThrow([&]() { s.parse(x); count("parsed"); });
      else
      {
         ByteArray b = x.toCString();
         spit(scratch("x.xml"), std::string(b.constData(), (size_t)b.size()));
         jm::File f(path("x.xml"));
         expectThrow([&]() { s.parse(f); count("parsed"); });
         if(r.chance(0.2)) { jm::File none(path("none.xml")); expectThrow([&]() { s.parse(none); }); }
      }
   }
}
static void files(Rng& r)
{
   spit(scratch("f.bin"), bytes(r, 500));
   for(int n = (int)r.range(1, 6); n--;)switch(r.below(14))
      {
         case 0: { jm::File f(path("f.bin")); f.open(FileMode::kRead); uint8 b[10]; f.read(b, 10); f.close(); break; }
         case 1: { jm::File f(path("g.bin")); f.open(FileMode::kWrite); f.write((const uint8*)"abc", 3); f.close(); break; }
         case 2: { jm::File f(path("f.bin")); for(int k = 3; k--;) { f.open(r.chance(0.5) ? FileMode::kRead : FileMode::kReadWrite); if(r.chance(0.5))f.seek(3); f.close(); if(r.chance(0.3))f.close(); } break; }
         case 3: { jm::File f(path("missing")); f.open(FileMode::kRead); f.open(FileMode::kRead); f.close(); break; }
         case 4: { jm::File d(path("")); std::unique_ptr<jm::Array<jm::File>> l(d.listFiles()); for(int64 i = 0; l && i < l->size(); i++)l->get(i).size(); break; }
         case 5: { jm::File d(path("nodir")); std::unique_ptr<jm::Array<jm::File>> l(d.listFiles()); break; }
         case 6: { jm::File f(path("f.bin")), g(f), h; h = f; g = h; g = g; h = jm::File(f, "x"); h.parent(); h.name(); h.extension(); break; }
         case 7: { jm::File f(path("f.bin")); f.open(FileMode::kRead); jm::File g(path("f.bin")); g.open(FileMode::kRead); f.close(); g.close(); break; }
         case 8: { jm::File f(path("f.bin")); ByteArray b(20, 0); f.open(FileMode::kRead); f.readFully(b, 20); f.readFully(b, 9999999); f.close(); break; }
         case 9: { jm::File f(path("h.bin")); f.createNewFile(); jm::File g(path("h.bin")); g.renameTo(path("i.bin")); jm::File(path("i.bin")).remove(); break; }
         case 10: { jm::File f(path("dd")); f.makeDirectory(); f.isDirectory(); f.exists(); f.remove(); break; }
         case 11: { jm::File f(path("f.bin")); f.addTag("x"); StringList l = f.getTags(); f.removeTag("x"); f.lastModified(); f.isHidden(); break; }
         case 12: { Resource a("none1"), b(a), d("none2"); d = a; a = a; b = d; d.exists(); expectThrow([&]() { d.open(FileMode::kRead); }); break; }
         case 13: { uint8* m = new uint8[30]; MemoryStream s(m, 30, true); s.open(FileMode::kRead); uint8 b[40]; s.read(b, 40); ByteArray q(5, 0); s.readFully(q, 5); if(r.chance(0.5))s.close(); break; }
      }
   I18nBundle b("de");
   std::string mo = bytes(r, 100);
   if(r.chance(0.5) && mo.size() > 28) { mo[0] = (char)0xde; mo[1] = 0x12; mo[2] = 4; mo[3] = (char)0x95; memset(&mo[4], 0, 24); mo[8] = (char)r.below(4); mo[12] = 28; mo[16] = (char)r.below(60); }
   MemoryStream m((uint8*)mo.data(), (int64)mo.size());
   expectThrow([&]() { b.appendMo(&m); });
   b.translate(text(r));
   spit(scratch("x.mo"), mo);
   jm::File mf(path("x.mo"));
   expectThrow([&]() { b.appendMo(&mf); });
}
static void undo(Rng& r)
{
   World w(r, false);
   for(int n = (int)r.range(1, 25); n--;)
   {
      w.rawEdit();
      if(r.chance(0.5))w.close();
      if(r.chance(0.3)) { w.close(); if(w.undoS.size())w.step(true); }
      if(r.chance(0.2)) { w.close(); if(w.redoS.size())w.step(false); }
   }
}
struct Doc2: public Document
{
   bool saveDocument() override { return true; }
   bool loadDocument() override { return true; }
   Status initNewDocument(Preferences*) override { return Status::eOK; }
};
static void documents(Rng& r)
{
   for(int n = (int)r.range(1, 5); n--;)
   {
      Doc2* d = new Doc2;
      int64 x = 0;
      jm::String s;
      Thing* t = new Thing;
      Object* p = nullptr;
      uint8* buf = new uint8[9]();
      for(int k = (int)r.range(0, 8); k--;)
      {
         UndoManager* u = d->undoManager();
         switch(r.below(9))
         {
            case 0: if(u) { u->registerChange(t, &x); x++; } break;
            case 1: if(u) { u->registerChange(t, &s); s = text(r); } break;
            case 2: if(u) u->hasOpenTransaction(); break;
            case 3: if(u) { u->registerChange(t, &buf, 9); buf[3]++; } break;
            case 4: d->closeUndoStep(); break;
            case 5: if(u) { u->openTransaction(); u->registerChange(t, &x); x = 3; if(r.chance(0.5))u->commit(); else u->rollback(); } break;
            case 6: if(u && !u->hasOpenUndoStep()) { if(r.chance(0.5))u->undo(); else u->redo(); } break;
            case 7: d->setUndoManager(r.chance(0.5)); break;
            case 8: { jm::File f(path("f.bin")); d->setFile(f); break; }
         }
      }
      if(d->undoManager())d->undoManager()->clearStacks();
      d->release();
      t->release();
      delete[] buf;
      (void)p;
   }
   for(int n = (int)r.range(0, 3); n--;)
   {
      Property p(text(r), text(r), text(r), text(r), text(r), true, PropertyChangeMode::kItself, true), q;
      q = p;
      q.setStringValue(text(r));
      p.setValue(q);
      p.setIcon(text(r));
   }
}
struct El: public Object
{
   int v;
   El(int x): v(x) {}
   bool equals(const Object* o) const override { return v == ((const El*)o)->v; }
   void printDiffInfo(DiffOperation, Object*) const override {}
};
static void diffs(Rng& r)
{
   std::vector<std::unique_ptr<El>> v;
   DiffDistance d;
   for(int k = (int)r.range(1, 3); k--;)
   {
      for(int n = (int)r.range(0, 15); n--;) { v.emplace_back(new El((int)r.below(4))); d.addU(v.back().get()); }
      for(int n = (int)r.range(0, 15); n--;) { v.emplace_back(new El((int)r.below(4))); d.addV(v.back().get()); }
      DiffBacktrace* b = d.solve();
      if(b) { if(r.chance(0.5))b->print(); delete b; }
      d.clear();
   }
}
static void numbers(Rng& r)
{
   Matrix a(r.range(1, 5), r.range(1, 5)), b(3, 3), d(b);
   for(int i = 0; i < 3; i++)for(int j = 0; j < 3; j++)b.set(i, j, r.real(-3, 3));
   d = a;
   d = d;
   a = b * b + b;
   expectThrow([&]() { a = b * Matrix(2, 2); });
   a = b;
   a.inverse();
   double x;
   a.det(x);
   a.transpose();
   Matrix sub(2, 2);
   a.insert(sub, 1, 1);
   jm::Vector v(r.range(0, 5)), w(v), u;
   u = v;
   u = u;
   w = v + v;
   w = 2.0 * v;
   expectThrow([&]() { v + jm::Vector(9); });
   Matrix sym(2, 2);
   sym.set(0, 0, 2); sym.set(1, 1, 3);
   expectThrow([&]() { jm::Vector e = sym.eigen(); });
   uint32 deg = (uint32_t)r.range(1, 3), cc = deg + 1 + (uint32_t)r.below(4);
   std::vector<Vertex3> cp(cc);
   std::vector<double> kn, wt(cc, 1.0);
   for(uint32 i = 0; i < cc + deg + 1; i++)kn.push_back(i <= deg ? 0 : i >= cc ? cc - deg : i - deg);
   Nurbs nb(deg, cp.data(), cc, kn.data(), (uint32)kn.size(), wt.data(), cc), empty;
   nb.point(0.5);
}
struct Th: public Thread
{
   int how;
   Th(int h): how(h) {}
   void run() override
   {
      Thing* t = new Thing;
      t->s = "in a thread";
      t->autorelease();
      if(how == 1)sleep(1);
      if(how == 2)sleep();
   }
};
static void threads(Rng& r)
{
   std::vector<Th*> v;
   for(int n = (int)r.range(1, 4); n--;)v.push_back(new Th((int)r.below(3)));
   for(auto t : v)if(r.chance(0.9)) { t->start(); count("threadsStarted"); }
   for(auto t : v)
   {
      if(r.chance(0.3))usleep((useconds_t)r.below(300));
      if(t->isAlive() && r.chance(0.3)) { t->interrupt(); if(r.chance(0.3))t->interrupt(); if(r.chance(0.3))t->start(); }
      t->interrupt();
      t->release();
   }
   Mutex m;
   m.lock();
   m.unlock();
   System::autoreleasePool()->drain();
}
static void services(Rng& r)
{
   jm::File lib(jm::String("/lib/x86_64-linux-gnu/libm.so.6")), none(path("f.bin"));
   spit(scratch("f.bin"), "no library");
   if(lib.exists())
   {
      void* h = System::loadDynamicLibrary(&lib);
      if(h) { System::findSymbol(h, "cos"); System::findSymbol(h, text(r)); System::unloadDynamicLibrary(h); count("libraries"); }
   }
   System::loadDynamicLibrary(&none);
   System::userFullName();
   System::macAddress1();
   System::log(text(r), LogLevel::kError);
   System::lastErrorMessage();
   System::language();
   ResourceDir("x");
   TempDir();
   UserDir();
   ExecPath();
   currentDir();
   try { throw jm::Exception(text(r)); }
   catch(jm::Exception& e) { e.printStackTrace(); count("exceptions"); }
}
struct Part { const char* name; void (*f)(Rng&); };
static const Part kParts[] = {{"strings", strings}, {"arrays", arrays}, {"tables", tables}, {"lists", lists}, {"compression", compression}, {"archives", archives}, {"xml", xml},
   {"files", files}, {"undo", undo}, {"documents", documents}, {"diffs", diffs}, {"numbers", numbers}, {"threads", threads}, {"services", services}};
static const int kN = (int)(sizeof kParts / sizeof *kParts);
struct Held { int64_t blocks; size_t bytes; int fds, tasks; };
static Held held()
{
   Held h;
   h.fds = entries("/proc/self/fd");
   h.tasks = entries("/proc/self/task");
   h.blocks = gBlocks.load();
   h.bytes = __sanitizer_get_current_allocated_bytes();
   return h;
}
// The same use again and again: what is held may settle at first (caches, lazily made singletons), but must not grow each time.
VH_WORKLOAD(repeat, 14000, 120000)
{
   static bool hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) != 0;
   const Part& p = kParts[c.index % kN];
   Held h[6];
   int rounds = 0;
   uint64_t steps = 0;
   for(int k = 0; k < 6; k++)
   {
      {
         Quiet q;
         Rng r = c.r;
         p.f(r);
         if(k == 0)steps = r.s;
         VH_CHECK(r.s == steps, "not-repeatable", p.name);
      }
      h[k] = held();
      rounds = k;
      if(k && h[k].blocks <= h[k - 1].blocks && h[k].bytes <= h[k - 1].bytes && h[k].fds <= h[k - 1].fds && h[k].tasks <= h[k - 1].tasks)break;
      beat();
   }
   distinct(mix(hashStr(p.name), c.r.s));
   count(std::string("runs.") + p.name);
   count("steps", (uint64_t)rounds);
   eval(4);
   if(!hooked)fail("no-hooks", "allocation hooks cannot be installed");
   if(rounds == 5)
   {
      bool b = true, y = true, f = true, t = true;
      for(int k = 2; k < 6; k++) { b &= h[k].blocks > h[k - 1].blocks; y &= h[k].bytes > h[k - 1].bytes; f &= h[k].fds > h[k - 1].fds; t &= h[k].tasks > h[k - 1].tasks; }
      if(f)fail(std::string("descriptors-") + p.name, Msg() << "each run leaves open descriptors: " << h[1].fds << " .. " << h[5].fds);
      if(b)fail(std::string("heap-") + p.name, Msg() << "each run leaves heap blocks: " << h[5].blocks - h[1].blocks << " after 4 runs, " << h[5].bytes - h[1].bytes << " bytes");
      if(y)fail(std::string("heap-") + p.name, Msg() << "each run leaves heap memory: " << h[5].bytes - h[1].bytes << " bytes after 4 runs");
      if(t)fail(std::string("threads-") + p.name, Msg() << "each run leaves threads: " << h[1].tasks << " .. " << h[5].tasks);
   }
}
// Threads that ended by themselves: neither letting go of them nor starting them again may keep their stacks
static int64_t reserved()
{
   std::ifstream f("/proc/self/statm");
   int64_t n = 0;
   f >> n;
   return n * sysconf(_SC_PAGESIZE);
}
struct Short: public Thread
{
   std::atomic<int> ran{0};
   void run() override { ran++; }
};
VH_WORKLOAD(ended, 32, 300)
{
   Rng& r = c.r;
   int n = (int)r.range(4, 12), again = (int)r.range(1, 3);
   bool stop = r.chance(0.3);
   int64_t size[6];
   int k = 0;
   for(; k < 6; k++)
   {
      int before = entries("/proc/self/task");
      std::vector<Short*> v;
      for(int i = 0; i < n; i++)v.push_back(new Short);
      for(int a = 0; a < again; a++)
      {
         for(auto t : v)t->start();
         for(auto t : v)while(t->ran.load() <= a)usleep(50);
         while(entries("/proc/self/task") > before)usleep(100);   // gone entirely
      }
      for(auto t : v) { if(stop)t->interrupt(); VH_CHECK(t->ran.load() == again, "runs", t->ran.load() << " runs, started " << again << " times"); t->release(); }
      size[k] = reserved();
      if(k && size[k] <= size[k - 1])break;
      beat();
   }
   count("endedThreads", (uint64_t)(n * again));
   VH_CHECK(k < 6 || size[5] - size[1] < 4 * (int64_t)n * 65536, "thread-stacks", "the process grows by " << (size[5] - size[1]) / 4 << " bytes with every " << n << " threads that ended");
}
VH_REQUIRE("runs.strings", "runs.arrays", "runs.tables", "runs.lists", "runs.compression", "runs.archives", "runs.xml", "runs.files", "runs.undo", "runs.documents", "runs.diffs", "runs.numbers", "runs.threads", "runs.services", "exceptions", "inflated", "archivesOpened", "entriesRead", "abandonedWriters", "parsed", "threadsStarted", "libraries", "endedThreads")
VH_DRIVER("P38", "identical uses of each part of the library leave no more heap, descriptors or threads behind each time")
