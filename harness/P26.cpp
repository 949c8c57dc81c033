// P26: objects and values across threads.
// VH-CONFIG: variants=tsan asan
// VH-CONFIG: libs=-Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock
// VH-TECH: multi-threaded retain/release/flag/autorelease/drain histories under ThreadSanitizer (and ASan for lifetimes) with injected delays at every mutex operation; counts, flags and destructor events against what the calls of all threads imply; read-only services run concurrently and compared with their single-threaded results
#include "vh.hpp"
#include "sched.hpp"
using namespace vh;
using namespace jm;
static std::atomic<int> gDead{0}, gTwice{0};
struct Obj: public Object
{
   std::atomic<int> alive{1};
   int value = 7;
   ~Obj() override
   {
      if(alive.exchange(0, std::memory_order_relaxed) != 1)gTwice.fetch_add(1, std::memory_order_relaxed);
      gDead.fetch_add(1, std::memory_order_relaxed);
   }
};
static void drainAll()
{
   for(int i = 0; i < 4; i++)System::autoreleasePool()->drain();
}
// SharedValues objects held by the main thread for the whole time: exact counts at the end.
VH_WORKLOAD(counts, 3000, 40000)
{
   Rng& r = c.r;
   int n = (int)r.range(2, 6), k = (int)r.range(1, 4), steps = (int)r.range(20, 200);
   std::vector<Obj*> o;
   gDead = 0; gTwice = 0;
   for(int i = 0; i < k; i++)o.push_back(new Obj());
   std::vector<std::vector<int>> net((size_t)n, std::vector<int>((size_t)k, 0));
   std::vector<uint64_t> seeds;
   for(int i = 0; i < n; i++)seeds.push_back(r.u64());
   bool flags = r.chance(0.6);
   std::vector<std::vector<int>> lastFlag((size_t)k, std::vector<int>((size_t)n, -1));
   std::vector<int> bad((size_t)n, 0);
   uint64_t h = crew(r, n, (int)r.pick(std::vector<int>{0, 5, 20, 60}), [&](int t)
   {
      Rng q(seeds[(size_t)t]);
      std::vector<int> own((size_t)k, 0);
      for(int s = 0; s < steps; s++)
      {
         size_t i = q.below((uint64_t)k);
         switch(q.below(6))
         {
            case 0: case 1: step(0); o[i]->retain(); own[i]++; break;
            case 2: if(own[i]) { step(1); o[i]->release(); own[i]--; } break;
            case 3: if(own[i]) { step(2); o[i]->autorelease(); own[i]--; } break;
            case 4: if(flags && i % (size_t)n == (size_t)t) { bool b = q.chance(0.5); step(3); o[i]->setHighBit(b); lastFlag[i][(size_t)t] = b; } break;
            case 5:
            {
               step(4);
               int32 v = o[i]->referenceCount();
               if(v < 1 + own[i])bad[(size_t)t]++;   // the main thread and this one own it
               if(flags && i % (size_t)n == (size_t)t && lastFlag[i][(size_t)t] >= 0 && o[i]->highBit() != (lastFlag[i][(size_t)t] != 0))bad[(size_t)t] += 1000;
               break;
            }
         }
      }
      for(int i = 0; i < k; i++)net[(size_t)t][(size_t)i] = own[(size_t)i];
   });
   distinct(h);
   countDelays();
   for(int t = 0; t < n; t++)VH_CHECK(bad[(size_t)t] == 0, bad[(size_t)t] >= 1000 ? "flag-during" : "count-during", "thread " << t << " saw wrong values: " << bad[(size_t)t]);
   drainAll();
   VH_CHECK(gDead == 0, "destroyed-early", gDead << " objects destroyed while owned");
   for(int i = 0; i < k; i++)
   {
      int want = 1;
      for(int t = 0; t < n; t++)want += net[(size_t)t][(size_t)i];
      VH_CHECK(o[(size_t)i]->referenceCount() == want, "count", n << " threads: count " << o[(size_t)i]->referenceCount() << " expected " << want);
      int f = i < n ? lastFlag[(size_t)i][(size_t)i] : lastFlag[(size_t)i][(size_t)(i % n)];
      VH_CHECK(o[(size_t)i]->highBit() == (f == 1), "flag", "flag " << o[(size_t)i]->highBit() << " expected " << f);
      for(int j = 0; j < want; j++)o[(size_t)i]->release();
   }
   VH_CHECK(gDead == k && gTwice == 0, "destroyed", gDead << " of " << k << " destroyed, twice " << gTwice);
   count("counts");
}
// Objects made, shared and let go by all threads while some drain.
VH_WORKLOAD(lifetimes, 3000, 40000)
{
   Rng& r = c.r;
   int n = (int)r.range(2, 6), steps = (int)r.range(20, 150);
   gDead = 0; gTwice = 0;
   std::atomic<int> made{0}, handed{0}, drains{0}, wrong{0};
   std::vector<std::vector<std::atomic<Obj*>>> box((size_t)n);
   for(auto& b : box)
   {
      b = std::vector<std::atomic<Obj*>>(4);
      for(auto& x : b)x.store(nullptr);
   }
   std::vector<uint64_t> seeds;
   for(int i = 0; i < n; i++)seeds.push_back(r.u64());
   int drainers = (int)r.range(1, 2);
   uint64_t h = crew(r, n, (int)r.pick(std::vector<int>{0, 5, 20, 60}), [&](int t)
   {
      Rng q(seeds[(size_t)t]);
      std::vector<Obj*> own;
      for(int s = 0; s < steps; s++)
      {
         switch(q.below(7))
         {
            case 0: case 1: step(0); own.push_back(new Obj()); made.fetch_add(1, std::memory_order_relaxed); break;
            case 2:   // hand one reference to another thread
               if(own.size())
               {
                  Obj* o = own[q.below(own.size())];
                  step(1);
                  o->retain();
                  Obj* old = box[q.below((uint64_t)n)][q.below(4)].exchange(o, std::memory_order_acq_rel);
                  if(old)old->release();
                  handed.fetch_add(1, std::memory_order_relaxed);
               }
               break;
            case 3:
            {
               Obj* o = box[(size_t)t][q.below(4)].exchange(nullptr, std::memory_order_acq_rel);
               if(o) { step(2); own.push_back(o); if(o->value != 7)wrong.fetch_add(1, std::memory_order_relaxed); }
               break;
            }
            case 4: case 5:
               if(own.size())
               {
                  size_t i = q.below(own.size());
                  Obj* o = own[i];
                  own.erase(own.begin() + (long)i);
                  if(o->alive.load(std::memory_order_relaxed) != 1)wrong.fetch_add(1, std::memory_order_relaxed);
                  if(q.chance(0.5)) { step(3); o->release(); }
                  else { step(4); o->autorelease(); }
               }
               break;
            case 6:
               if(t < drainers)
               {
                  step(5);
                  System::autoreleasePool()->drain();
                  drains.fetch_add(1, std::memory_order_relaxed);
               }
               break;
         }
      }
      for(Obj* o : own)if(q.chance(0.5))o->release();
         else o->autorelease();
   });
   distinct(h);
   countDelays();
   for(auto& b : box)for(auto& x : b)if(Obj* o = x.load())o->release();
   drainAll();
   VH_CHECK(wrong == 0, "destroyed-early", wrong << " owned objects were dead");
   VH_CHECK(gTwice == 0, "destroyed-twice", gTwice);
   VH_CHECK(gDead == made, "not-destroyed", gDead << " of " << made << " destroyed");
   count("lifetimes");
   count("handed", (uint64_t)handed);
   count("drains", (uint64_t)drains);
   count("made", (uint64_t)made);
}
// Read-only services on values of their own, and shared values that are only read.
struct Sax: public SAXParser
{
   std::ostringstream o;
   void characters(const jm::String& s) override { o << show(s); }
   void startElement(const jm::String&, const jm::String&, const jm::String& q, const SAXAttributes& a) override { o << "<" << show(q) << a.count(); }
   void endElement(const jm::String&, const jm::String&, const jm::String& q) override { o << ">" << show(q); }
};
struct SharedValues
{
   jm::String text{"shared text, with \xc3\xa4 & more"};
   DateFormatter fmt{"yyyy-MM-dd HH:mm:ss.SSS EEE"};
   I18nBundle bundle{"de"};
   Matrix m{3, 3};
   Hashtable table;
   StringList list;
   Obj owner;
   LinkedList chain{&owner};
   std::vector<Obj*> items;
   Preferences prefs;
   ~SharedValues()
   {
      chain.clear(nullptr);
      for(Obj* o : items)o->release();
   }
   SharedValues()
   {
      for(int i = 0; i < 20; i++)
      {
         jm::String k("key");
         k << (int64)i;
         items.push_back(new Obj);
         table.put(k, items.back());
         list.append(k);
         chain.add(items.back(), nullptr);
         prefs.setValue(k, k);
      }
      for(int64 i = 0; i < 3; i++)for(int64 j = 0; j < 3; j++)m.set(i, j, (double)(i * j + 1) + (i == j ? 3 : 0));
   }
};
static const int SERVICES = 24;
static std::string service(int kind, Rng& q, const SharedValues& sh, int t)
{
   std::ostringstream o;
   jm::String s("Gr\xc3\xbc\xc3\x9f" "e ");
   s << (int64)q.below(100000) << sh.text;
   switch(kind)
   {
      case 0:
         for(const char* n : {"UTF-8", "UTF-16BE", "UTF-16LE", "Windows-1252", "MacRoman", "ASCII"})
         {
            Charset* cs = Charset::forName(n);
            if(!cs)continue;
            ByteArray b = s.toCString(cs);
            o << hex(bytesOf(b)) << show(jm::String(b, cs));
         }
         o << show(Charset::guess("<?xml version='1.0' encoding='UTF-8'?>", 38));
         break;
      case 1: o << show(s.toUpperCase()) << show(s.replace('e', 'x')) << s.indexOf("s") << show(sh.text.substring(2)) << sh.text.equals(s) << sh.text.compareTo(s); break;
      case 2: o << show(jm::String::valueOf(q.unit() * 1000)) << show(jm::String::valueOf((int64)(q.u64() >> 3))) << jm::String("12.75").toDouble() << jm::String("-77").toInt(); break;
      case 3: { Date d((int64)(q.u64() % 4000000000000ull)); o << d.utcYear() << "/" << d.utcMonth() << "/" << d.year() << "/" << d.hours() << show(sh.fmt.format(d)) << show(d.toString()); break; }
      case 4: o << show(sh.bundle.translate("Open")) << show(sh.bundle.translate(s)) << show(Tr("Open")); break;
      case 5:
      {
         ByteArray b = s.toCString();
         o << CRC::crc8(0, (const uint8*)b.constData(), (uint32)b.size());
         std::vector<uint8> in((size_t)q.range(1, 3000));
         for(auto& x : in)x = (uint8)q.below(4);
         Deflater d;
         d.setInput(in.data(), (int64)in.size());
         uint8* z = nullptr;
         int64 n = 0;
         d.deflate(z, n);
         Inflater f(false);
         f.SetInput(z, n);
         uint8* u = nullptr;
         int64 m = 0;
         f.Inflate(u, m);
         std::unique_ptr<uint8[]> hz(z), hu(u);
         o << n << "/" << m << (m == (int64)in.size() && memcmp(u, in.data(), in.size()) == 0);
         break;
      }
      case 6:
      {
         StringTokenizer tok(jm::String("a,b;c ") + s, ",; ", true);
         while(tok.hasNext())o << show(tok.next());
         break;
      }
      case 7:
      {
         Matrix m(3, 3);
         for(int64 i = 0; i < 3; i++)for(int64 j = 0; j < 3; j++)m.set(i, j, q.unit() + (i == j ? 3 : 0));
         double d = 0;
         m.det(d);
         Matrix p = m * sh.m;
         p.inverse();
         o << d << p.trace() << sh.m.norm(MatrixNorm::kNorm1);
         break;
      }
      case 8:
      {
         Sax x;
         jm::String xml("<?xml version='1.0'?><a b='1' c='&lt;'>");
         xml << (int64)q.below(1000) << "<d/>t&amp;</a>";
         x.parse(xml);
         o << x.o.str();
         break;
      }
      case 9:
      {
         std::string path = st().scratch + "/p26-" + std::to_string(t) + ".txt";
         jm::File f(jm::String(path.c_str()));
         f.open(FileMode::kWrite);
         ByteArray b = s.toCString();
         f.write((const uint8*)b.constData(), b.size());
         f.close();
         f.open(FileMode::kRead);
         ByteArray in(b.size(), 0);
         int64 n = f.readFully(in, b.size());
         f.close();
         o << n << bytesOf(in) << f.exists() << f.size();
         break;
      }
      case 10:
      {
         Preferences p;
         for(int i = 0; i < 20; i++)p.setValue(jm::String("k") + jm::String::valueOf((int64)q.below(10)), s);
         for(int i = 0; i < 10; i++)o << show(p.value(jm::String("k") + jm::String::valueOf((int64)i), "none"));
         break;
      }
      case 11:
      {
         // texts and vectors printed to streams of their own
         std::ostringstream p;
         p << s << sh.text << "|" << Vertex3(q.unit(), 2, 3) << Vertex2(1, q.unit());
         jm::String t;
         t << Vertex3(1, q.unit(), 3) << (int64)q.below(1000) << q.unit();
         o << p.str() << show(t);
         std::istringstream in("first line\nsecond line\n");
         jm::String l;
         while(in >> l)o << show(l);
         break;
      }
      case 12:
      {
         uint8 buf[4096];
         MemoryStream m(buf, sizeof buf);
         XMLWriter x(&m);
         x.startDocument();
         if(q.chance(0.5))x.startIndent();
         x.startElement("root");
         x.writeAttribute("n", (int64)q.below(1000));
         x.writeAttribute("d", q.unit());
         x.startElement("e");
         x.writeAttribute("t", s);
         x.writeCData(sh.text);
         x.endElement();
         x.endElement();
         x.endDocument();
         o << hex(std::string((const char*)buf, (size_t)m.mWritelength));
         break;
      }
      case 13:
      {
         std::string path = st().scratch + "/p26-" + std::to_string(t) + ".zip";
         ByteArray b = s.toCString();
         {
            jm::File f(jm::String(path.c_str()));
            ZipOutputFile z(&f);
            z.open();
            z.putNextEntry(new ZipEntry("a.txt"));
            z.write((uint8*)b.data(), 0, b.size());
            z.closeEntry();
            z.close();
         }
         jm::File f(jm::String(path.c_str()));
         ZipFile z(&f);
         z.open();
         ZipEntry* e = z.entry("a.txt");
         if(e)
         {
            Stream* in = z.stream(e);
            ByteArray r(b.size(), 0);
            if(in)
            {
               in->open(FileMode::kRead);
               o << in->readFully(r, r.size()) << hex(bytesOf(r));
               in->close();
               in->release();
            }
         }
         o << z.entryCount() << (e != nullptr);
         z.close();
         break;
      }
      case 14:
      {
         // differences of two lists
         struct Num: public Object
         {
            int v;
            explicit Num(int n): v(n) {}
            bool equals(const Object* x) const override { return v == ((const Num*)x)->v; }
         };
         std::vector<std::unique_ptr<Num>> u;
         DiffDistance d;
         for(int i = 0; i < 12; i++) { u.emplace_back(new Num((int)q.below(4))); if(i % 2)d.addU(u.back().get()); else d.addV(u.back().get()); }
         std::unique_ptr<DiffBacktrace> bt(d.solve());
         o << d.distance();
         break;
      }
      case 15:
      {
         o << q.unit() << Vertex3(ocsToWcs(Vertex3(q.unit(), 2, 3), Vertex3(0, q.unit(), 1).normalized())) << wcsToOcs(Vertex3(1, q.unit(), 3), Vertex3(0, 0, -1));
         Vertex3 cp[4] = {Vertex3(0, 0, 0), Vertex3(1, q.unit(), 0), Vertex3(2, 0, 1), Vertex3(3, 1, q.unit())};
         double k[8] = {0, 0, 0, 0, 1, 1, 1, 1}, w[4] = {1, 1, 1, 1};
         Nurbs n(3, cp, 4, k, 8, w, 4);
         o << n.point(q.unit()) << n.start() << n.end();
         break;
      }
      case 16:
      {
         Color a = Color::fromRgb((uint8)q.below(256), (uint8)q.below(256), (uint8)q.below(256)), b = Color::fromGrey((uint8)q.below(256));
         float h, sat, v;
         a.hsvModel(h, sat, v);
         a.toCmyk();
         o << (int)a.cyan() << "," << (int)a.key() << "," << h << "," << sat << "," << v;
         Color m = blend(b, Color::fromRgb(1, 2, 3), 77);
         o << "," << (int)m.red() << "," << (int)m.blue();
         break;
      }
      case 17:
      {
         Hashtable h;
         Obj item;
         StringList l;
         for(int i = 0; i < 30; i++)
         {
            jm::String k("k");
            k << (int64)q.below(40);
            h.put(k, &item);
            l.append(k);
         }
         o << h.size() << h.containsKey("k7") << l.size() << show(l.get(3));
         std::unique_ptr<Iterator> it(h.keys());
         int n = 0;
         while(it->hasNext()) { it->next(); n++; }
         o << n;
         h.clear();
         Stack<int> st;
         Array<int> ar(16);
         for(int i = 0; i < 16; i++) { st.push(i); ar[i] = i; }
         o << st.pop() << ar[7];
         break;
      }
      case 18:
      {
         // a document of its own
         struct Paper: public Document
         {
            bool saveDocument() override { return true; }
            bool loadDocument() override { return true; }
            Status initNewDocument(Preferences*) override { return Status::eOK; }
         } d;
         struct Thing: public EditableObject
         {
            jm::String text;
            int64 n = 0;
            explicit Thing(Document* x): EditableObject(x) {}
            void change(const jm::String& a, int64 b) { openTransaction(); setMember(&text, a); setMember(&n, b, (int64)-9, (int64)1000000); closeTransaction(); }
         };
         d.setUndoManager(true);
         Thing* th = new Thing(&d);
         for(int i = 0; i < 5; i++) { th->change(s, (int64)q.below(100)); s << (int64)i; d.closeUndoStep(); }
         d.undoManager()->undo();
         d.undoManager()->undo();
         d.undoManager()->redo();
         o << show(th->text) << th->n << d.undoManager()->undoCount() << d.isDocumentChanged();
         d.undoManager()->clearStacks();
         th->release();
         break;
      }
      case 19:
      {
         jm::String e = URLEncode(s);
         o << show(e) << show(URLDecode(e));
         ByteArray b = s.toCString();
         int64 n = b.size();
         std::unique_ptr<uint8[]> x(Base64::encode((const uint8*)b.constData(), n));
         uint32 m = (uint32)n;
         std::unique_ptr<uint8[]> y(Base64::decode(x.get(), m));
         o << n << hex(std::string((char*)y.get(), m)) << Integer::fromHex("7f") << show(Integer::toHexString((int64)q.below(256)));
         break;
      }
      case 20:
      {
         uint8 b[16];
         double d = q.unit();
         serializeLEDouble(b, 0, d);
         serializeLEInt64(b, 8, (int64)q.below(1u << 30));
         o << deserializeLEDouble(b, 0) << deserializeLEInt64(b, 8) << hex(std::string((char*)b, 16));
         break;
      }
      case 21:
      {
         // an exception of its own
         try
         {
            if(q.chance(0.5))s.charAt(s.size() + 3);
            else sh.list.get(99);
         }
         catch(const jm::Exception& e) { jm::Exception copy(e); o << show(copy.errorMessage()); }
         break;
      }
      case 22:
      {
         // containers that everybody reads
         jm::String k("key");
         k << (int64)q.below(25);
         void* x = sh.table.get(k);
         o << (x != nullptr) << sh.table.containsKey(k) << sh.table.size() << show(sh.list.get((int64)q.below(20))) << sh.list.contains(k);
         LinkedListIterator it = sh.chain.iterator();
         int n = 0;
         while(it.hasNext())n += it.next() != nullptr;
         o << n << sh.chain.size() << (sh.chain.first() == sh.items[0]);
         Variant v(sh.text);
         o << show(v.toString());
         const jm::String& ct = sh.text;
         o << ct.constHashCode() << show(ct.trim()) << ct.startsWith("sha") << sh.table.containsKey(ct);
         break;
      }
      case 23:
      {
         o << show(jm::String(System::userId())) << isNaN(q.unit()) << isEqual(q.unit(), 0.5) << jm::round(q.unit() * 10) << show(System::bundleId());
         break;
      }
   }
   return o.str();
}
// What the library reports on standard output is not looked at here
struct Nowhere: public std::streambuf
{
   std::streambuf* old;
   Nowhere() { old = std::cout.rdbuf(this); }
   ~Nowhere() override { std::cout.rdbuf(old); }
   int overflow(int ch) override { return ch == EOF ? 0 : ch; }
   std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
VH_WORKLOAD(services, 1200, 15000)
{
   Rng& r = c.r;
   static SharedValues sh;
   int n = (int)r.range(2, 6), steps = 12;
   std::vector<uint64_t> seeds;
   std::vector<std::vector<int>> kinds((size_t)n);
   std::vector<std::vector<std::string>> got((size_t)n), want((size_t)n);
   int focus = r.chance(0.5) ? (int)r.below(SERVICES) : -1;   // often all threads use the same service
   for(int i = 0; i < n; i++)
   {
      seeds.push_back(r.u64());
      for(int s = 0; s < steps; s++)kinds[(size_t)i].push_back(focus >= 0 && r.chance(0.7) ? focus : (int)r.below(SERVICES));
      got[(size_t)i].resize((size_t)steps);
      Rng q(seeds[(size_t)i]);
      if(c.index % 2)for(int s = 0; s < steps; s++)want[(size_t)i].push_back(service(kinds[(size_t)i][(size_t)s], q, sh, i));
   }
   std::vector<std::string> ex((size_t)n);
   Nowhere silent;
   if(r.chance(0.5))jm::String::setConsoleCharset(nullptr);   // chosen again by whoever prints first
   uint64_t h = crew(r, n, (int)r.pick(std::vector<int>{0, 10, 40}), [&](int t)
   {
      Rng q(seeds[(size_t)t]);
      try
      {
         for(int s = 0; s < steps; s++)
         {
            step(kinds[(size_t)t][(size_t)s]);
            got[(size_t)t][(size_t)s] = service(kinds[(size_t)t][(size_t)s], q, sh, t);
         }
      }
      catch(jm::Exception& e) { ex[(size_t)t] = excText(e); }
      catch(std::exception& e) { ex[(size_t)t] = e.what(); }
   });
   distinct(h);
   countDelays();
   // in half of the cases the single-threaded run comes last, so that first uses happen concurrently
   for(int i = 0; i < n; i++)
   {
      VH_CHECK(ex[(size_t)i].empty(), "service-exception", ex[(size_t)i]);
      Rng q(seeds[(size_t)i]);
      if(want[(size_t)i].empty())for(int s = 0; s < steps; s++)want[(size_t)i].push_back(service(kinds[(size_t)i][(size_t)s], q, sh, i));
      for(int s = 0; s < steps; s++)
         VH_CHECK(got[(size_t)i][(size_t)s] == want[(size_t)i][(size_t)s], "service-" + std::to_string(kinds[(size_t)i][(size_t)s]),
                  "concurrent " << got[(size_t)i][(size_t)s].substr(0, 200) << " alone " << want[(size_t)i][(size_t)s].substr(0, 200));
      count("services", (uint64_t)steps);
   }
}
VH_REQUIRE("counts", "services", "lifetimes", "handed", "drains", "switches", "delays")
VH_DRIVER("P26", "no data race; counts, flags and destructions exactly as the calls of all threads imply; services give their single-threaded results")
