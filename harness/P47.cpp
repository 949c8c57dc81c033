// P47: what the system refuses is not taken for done.
// VH-TECH: random writing by every part of the library that writes files, while the system refuses at random places (file size limit set and lifted between calls, full device, missing, forbidden and wrong paths, no free descriptors); silent success is compared with the bytes really in the file; ASan+UBSan
#include "vh.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <csignal>
#include <fstream>
using namespace vh;
using namespace jm;
typedef std::string B;
struct Quiet
{
   std::ostringstream o, e;
   std::streambuf* a, *b;
   Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); }
   ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
static B slurp(const std::string& p)
{
   int fd = ::open(p.c_str(), O_RDONLY);
   if(fd < 0)return "<none>";
   B o;
   char b[8192];
   ssize_t n;
   while((n = ::read(fd, b, sizeof b)) > 0)o.append(b, (size_t)n);
   ::close(fd);
   return o;
}
static void spit(const std::string& p, const B& d)
{
   int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
   if(fd < 0 || ::write(fd, d.data(), d.size()) != (ssize_t)d.size())abort();
   ::close(fd);
}
// largest size of a file for this process; lifted again at the end
struct Limit
{
   static void set(rlim_t n)
   {
      static bool once = signal(SIGXFSZ, SIG_IGN) != SIG_ERR;
      (void)once;
      struct rlimit l;
      getrlimit(RLIMIT_FSIZE, &l);
      l.rlim_cur = std::min(n, l.rlim_max);
      setrlimit(RLIMIT_FSIZE, &l);
   }
   static void lift() { set(RLIM_INFINITY); }
   ~Limit() { lift(); }
};
struct NoDescriptors
{
   struct rlimit was;
   NoDescriptors() { getrlimit(RLIMIT_NOFILE, &was); struct rlimit l = was; l.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &l); }
   ~NoDescriptors() { setrlimit(RLIMIT_NOFILE, &was); }
};
static B randBytes(Rng& r, size_t n)
{
   B b(n, 0);
   for(auto& ch : b)ch = (char)r.below(256);
   return b;
}
static size_t len(Rng& r)
{
   switch(r.below(8))
   {
      case 0: return r.below(3);
      case 1: return 4090 + r.below(12);
      case 2: return 8180 + r.below(24);
      case 3: case 4: return r.below(30000);
      default: return r.below(300);
   }
}
static U word(Rng& r, size_t mx)
{
   static const char16_t A[] = u"abcXYZ019_ <>&\"'=\u00e4\u20ac\u65e5";
   U u;
   for(size_t n = r.below(mx + 1); n--;)u += A[r.below(sizeof A / 2 - 1)];
   return u;
}
// When the limit applies: from the start or from a later step, until the end or for some steps only.
struct Plan
{
   uint64_t limit;
   int from, to, k = 0;
   bool hit = false;
   Plan(Rng& r, uint64_t total, int steps)
   {
      limit = r.chance(0.15) ? total + r.below(10) : r.chance(0.2) ? 4096 * r.below(total / 4096 + 1) : r.below(total + 1);
      from = r.chance(0.6) ? 0 : (int)r.below((uint64_t)steps + 1);
      to = r.chance(0.5) ? 1 << 30 : from + (int)r.range(1, steps + 1);
   }
   void step()
   {
      if(k == from)Limit::set(limit);
      if(k == to)Limit::lift();
      k++;
   }
   std::string text() const { return "at most " + std::to_string(limit) + " bytes from step " + std::to_string(from) + (to < (1 << 30) ? " to " + std::to_string(to) : std::string(" on")); }
};
// ---- File ----
VH_WORKLOAD(files, 24000, 400000)
{
   Rng& r = c.r;
   std::string p = st().scratch + "/f.bin";
   unlink(p.c_str());
   bool over = r.chance(0.4);
   B m;
   if(over)spit(p, m = randBytes(r, len(r)));
   jm::File f{jm::String(p.c_str())};
   int steps = (int)r.range(1, 8);
   Plan plan(r, 40000, steps);
   std::string told, h;
   {
      Limit guard;
      try
      {
         bool rw = over && r.chance(0.5);
         plan.step();
         if(f.open(rw ? FileMode::kReadWrite : FileMode::kWrite) != Status::eOK)told = "status";
         if(!rw)m.clear();
         h = rw ? "readwrite" : "write";
         size_t pos = 0;
         while(told.empty() && steps--)
         {
            plan.step();
            if(r.chance(0.2))
            {
               pos = r.below(m.size() + 1);
               f.seek((int64)pos);
               h += " seek " + std::to_string(pos);
            }
            else if(rw && r.chance(0.2) && pos < m.size())
            {
               std::vector<uint8> b(r.range(1, 5000));
               int64 n = f.read(b.data(), (int64)b.size());
               B want = m.substr(pos, b.size());
               h += " read " + std::to_string(b.size());
               if(n != (int64)want.size() || memcmp(b.data(), want.data(), want.size()) != 0)
               {
                  if(n < (int64)want.size())told = "short read";
                  else { Limit::lift(); fail("read", h + ": other bytes"); }
               }
               pos += want.size();
            }
            else
            {
               B d = randBytes(r, len(r));
               h += " write " + std::to_string(d.size());
               int64 n = f.write((const uint8*)d.data(), (int64)d.size());
               if(n != (int64)d.size())told = "count";
               if(n < 0 || n > (int64)d.size()) { Limit::lift(); fail("count", h + ": " + std::to_string(n) + " bytes written"); }
               if(m.size() < pos + d.size())m.resize(pos + d.size());
               m.replace(pos, d.size(), d);
               pos += d.size();
            }
         }
         plan.step();
         f.close();
      }
      catch(jm::Exception&) { if(told.empty())told = "exception"; }
      try { f.close(); } catch(jm::Exception&) { if(told.empty())told = "second close"; }
   }
   VH_CHECK(!f.isOpen(), "open", h << ": still open after close");
   B got = slurp(p);
   if(told.empty())
   {
      VH_CHECK(got == m, "silent-file", h << " (" << plan.text() << "): no word, but " << got.size() << " bytes in the file instead of " << m.size());
      count("fileComplete");
   }
   else
   {
      count("fileTold");
      count("told." + told);
      VH_CHECK(plan.limit < 70000, "false-alarm", h << ": " << told);
   }
   if(plan.from > 100 || (uint64_t)m.size() <= plan.limit)VH_CHECK(told.empty(), "false-alarm", h << " (" << plan.text() << "): " << told << " although nothing was refused");
   // the same object afterwards, without limits
   B d = randBytes(r, len(r));
   f.open(FileMode::kWrite);
   VH_CHECK(f.write((const uint8*)d.data(), (int64)d.size()) == (int64)d.size(), "afterwards", h);
   f.close();
   VH_CHECK(slurp(p) == d, "afterwards", h << ": later content");
   distinct(mix(hashStr(h), plan.limit));
   eval(2);
}
// ---- archives ----
struct Ent { U name; B data; bool file; int parts; };
static void writeArchive(const std::string& p, const std::string& src, const std::vector<Ent>& ents, Plan* plan)
{
   auto step = [&]() { if(plan)plan->step(); };
   jm::File f{jm::String(p.c_str())};
   ZipOutputFile z(&f);
   step();
   z.open();
   for(auto& e : ents)
   {
      step();
      ZipEntry* ze = new ZipEntry(mk(e.name));
      z.putNextEntry(ze);
      step();
      if(e.file)
      {
         Limit::lift();
         spit(src, e.data);
         if(plan && plan->k > plan->from && plan->k <= plan->to)Limit::set(plan->limit);
         jm::File in{jm::String(src.c_str())};
         z.writeAndClose(&in);
      }
      else
      {
         size_t o = 0;
         for(int k = e.parts; k--;)
         {
            size_t n = k ? (e.data.size() - o) / 2 : e.data.size() - o;
            if(n)z.write((uint8*)e.data.data(), (int64)o, (int64)n);
            o += n;
            step();
         }
         z.closeEntry();
      }
   }
   step();
   z.close();
}
VH_WORKLOAD(archives, 5000, 80000)
{
   Rng& r = c.r;
   std::string p = st().scratch + "/a.zip", q = st().scratch + "/ref.zip", s = st().scratch + "/src.bin";
   unlink(p.c_str());
   unlink((p + ".jmzipdata.tmp").c_str());
   std::vector<Ent> ents;
   int steps = 2;
   std::string h;
   for(int n = (int)r.range(0, 4); n--;)
   {
      Ent e{word(r, 20) + u"x", randBytes(r, len(r)), r.chance(0.3), (int)r.range(1, 3)};
      e.name += (char16_t)(u'0' + n);
      steps += 2 + e.parts;
      h += (e.file ? " file " : " data ") + std::to_string(e.data.size());
      ents.push_back(e);
   }
   Quiet quiet;
   writeArchive(q, s, ents, nullptr);
   B ref = slurp(q);
   Plan plan(r, ref.size(), steps);
   bool told = false;
   {
      Limit guard;
      try { writeArchive(p, s, ents, &plan); }
      catch(jm::Exception&) { told = true; }
   }
   B got = slurp(p);
   if(!told)VH_CHECK(got == ref, "silent-archive", "archive of" << h << " (" << plan.text() << "): no word, but other bytes (" << got.size() << ", without refusal " << ref.size() << ")");
   if(plan.limit >= ref.size())VH_CHECK(!told, "false-alarm", "archive of" << h);
   count(told ? "archiveTold" : "archiveComplete");
   distinct(mix(hashStr(ref), plan.limit));
}
// ---- XML and preferences ----
static bool writeXml(const std::string& p, Rng r, Plan* plan)
{
   jm::File f{jm::String(p.c_str())};
   XMLWriter w(&f);
   if(plan)plan->step();
   if(!w.startDocument())return false;
   w.startElement("root");
   int depth = 0;
   for(int n = (int)r.range(0, 12); n--;)
   {
      if(plan)plan->step();
      switch(r.below(5))
      {
         case 0: w.startElement("e"); depth++; w.writeAttribute("a", mk(word(r, 30))); break;
         case 1: if(depth) { w.endElement(); depth--; } break;
         case 2: { B s = randBytes(r, r.below(6000)); w.WriteBase64((uint8*)s.data(), (int64)s.size()); break; }
         default: w.writeCData(mk(word(r, r.chance(0.3) ? 6000 : 60)), true);
      }
   }
   while(depth-- >= 0)w.endElement();
   w.endDocument();
   if(plan)plan->step();
   f.close();
   return true;
}
VH_WORKLOAD(xml, 2000, 40000)
{
   Rng& r = c.r;
   std::string p = st().scratch + "/a.xml", q = st().scratch + "/ref.xml";
   unlink(p.c_str());
   Rng how = r;
   writeXml(q, how, nullptr);
   B ref = slurp(q);
   r.u64();
   Plan plan(r, ref.size(), 8);
   bool told = false;
   {
      Limit guard;
      try { told = !writeXml(p, how, &plan); }
      catch(jm::Exception&) { told = true; }
   }
   B got = slurp(p);
   if(!told)VH_CHECK(got == ref, "silent-xml", "document of " << ref.size() << " bytes (" << plan.text() << "): no word, but " << got.size() << " bytes in the file");
   if(plan.limit >= ref.size())VH_CHECK(!told, "false-alarm", "xml of " << ref.size());
   count(told ? "xmlTold" : "xmlComplete");
   distinct(mix(hashStr(ref), plan.limit));
}
VH_WORKLOAD(preferences, 3000, 60000)
{
   Rng& r = c.r;
   std::string p = st().scratch + "/a.properties", q = st().scratch + "/ref.properties";
   unlink(p.c_str());
   if(r.chance(0.3))spit(p, "old=1\n");
   Preferences pr;
   for(int n = (int)r.range(0, r.chance(0.2) ? 300 : 12); n--;)
   {
      jm::String key = "k" + jm::String::valueOf((int64)n);
      pr.setValue(key, mk(word(r, 60)));
   }
   jm::File fq{jm::String(q.c_str())}, fp{jm::String(p.c_str())};
   Quiet quiet;
   pr.save(fq);
   B ref = slurp(q);
   Plan plan(r, ref.size(), 1);
   bool told = false;
   {
      Limit guard;
      Limit::set(plan.limit);
      try { pr.save(fp); }
      catch(jm::Exception&) { told = true; }
   }
   B got = slurp(p);
   if(!told)VH_CHECK(got == ref, "silent-preferences", ref.size() << " bytes of preferences, at most " << plan.limit << " allowed: no exception, but " << got.size() << " bytes in the file");
   if(plan.limit >= ref.size())VH_CHECK(!told, "false-alarm", "preferences of " << ref.size());
   count(told ? "preferencesTold" : "preferencesComplete");
   distinct(mix(hashStr(ref), plan.limit));
}
// ---- places that cannot be written or read ----
VH_WORKLOAD(places, 4000, 60000)
{
   Rng& r = c.r;
   std::string d = st().scratch + "/pl";
   mkdir(d.c_str(), 0700);
   chmod(d.c_str(), 0700);
   std::string shut = d + "/shut", dir = d + "/dir", plain = d + "/plain", locked = d + "/locked";
   mkdir(shut.c_str(), 0700);
   mkdir(dir.c_str(), 0700);
   spit(plain, "x");
   chmod(locked.c_str(), 0600);
   spit(locked, "PK and the like");
   chmod(shut.c_str(), 0000);
   chmod(locked.c_str(), 0000);
   std::string p, where;
   bool root = geteuid() == 0, none = false, full = false;
   switch(c.index % 7)
   {
      case 0: p = d + "/missing/x"; where = "missing folder"; break;
      case 1: p = shut + "/x"; where = "forbidden folder"; if(root)return; break;
      case 2: p = dir; where = "folder"; break;
      case 3: p = locked; where = "forbidden file"; if(root)return; break;
      case 4: p = plain + "/x"; where = "below a file"; break;
      case 5: p = "/dev/full"; where = "full device"; full = true; break;
      default: p = d + "/free"; where = "no descriptors"; none = true; unlink(p.c_str()); if(r.chance(0.5))spit(p, "some=thing\n<a/>"); break;
   }
   int what = (int)r.below(8);
   static const char* W[] = {"File", "ZipOutputFile", "XMLWriter", "Preferences::save", "Preferences::load", "ZipFile", "SAXParser", "ZipOutputFile::writeAndClose"};
   if(full && (what == 1 || what >= 4))what = r.chance(0.5) ? 0 : 2;
   if(what == 0 && none && r.chance(0.5))p = plain;
   B data = randBytes(r, len(r) + 1);
   if(what == 4 && (where == "missing folder" || where == "below a file" || where == "forbidden folder" || (none && access(p.c_str(), F_OK) != 0)))what = 5;   // no file: nothing to load
   if(what == 6)what = 4;
   if(what == 4 && none && access(p.c_str(), F_OK) != 0)what = 0;
   if(what == 4 && where != "forbidden file" && where != "folder" && !none)what = 0;
   bool told = false;
   std::string how = "nothing";
   {
      Quiet q;
      jm::File f{jm::String(p.c_str())};
      jm::File out{jm::String((d + "/out.zip").c_str())};
      Preferences pr;
      pr.setValue("a", mk(u"b"));
      std::unique_ptr<NoDescriptors> nd;
      if(none)nd.reset(new NoDescriptors);
      try
      {
         switch(what)
         {
            case 0:
               if(f.open(FileMode::kWrite) != Status::eOK) { told = true; how = "status"; break; }
               if(f.write((const uint8*)data.data(), (int64)data.size()) != (int64)data.size()) { told = true; how = "count"; }
               f.close();
               break;
            case 1:
            {
               ZipOutputFile z(&f);
               z.open();
               for(int k = (int)r.below(3); k--;)
               {
                  z.putNextEntry(new ZipEntry("e"));
                  z.write((uint8*)data.data(), 0, (int64)data.size());
                  z.closeEntry();
               }
               z.close();
               break;
            }
            case 2:
            {
               XMLWriter w(&f);
               if(!w.startDocument()) { told = true; how = "false"; break; }
               w.startElement("root");
               w.writeCData(mk(word(r, 3000)), true);
               w.endElement();
               w.endDocument();
               f.close();
               break;
            }
            case 3: pr.save(f); break;
            case 4: pr.load(f); break;
            case 5:
            {
               ZipFile z(&f);
               z.open();
               z.close();
               break;
            }
            default:
            {
               nd.reset();
               ZipOutputFile z(&out);
               z.open();
               z.putNextEntry(new ZipEntry("e"));
               if(none)nd.reset(new NoDescriptors);
               bool there = false;
               try { z.writeAndClose(&f); }
               catch(jm::Exception&) { there = true; told = true; how = "exception"; }
               nd.reset();
               if(!there)z.close();
               else out.close();
               unlink((d + "/out.zip.jmzipdata.tmp").c_str());
            }
         }
      }
      catch(jm::Exception&) { told = true; how = "exception"; }
      nd.reset();
      try { f.close(); } catch(jm::Exception&) {}
   }
   bool made = what == 3 && where == "missing folder" && access(p.c_str(), F_OK) == 0;   // save makes the folder
   if(made) { count("folderMade"); unlink(p.c_str()); rmdir((d + "/missing").c_str()); }
   VH_CHECK(told || made, "silent-place", W[what] << " on a " << where << ": no word");
   if(how == "exception")count("placeException");
   count("places." + where);
   count(std::string("by.") + W[what]);
   distinct(mix(hashStr(where), (uint64_t)what));
   chmod(shut.c_str(), 0700);
   chmod(locked.c_str(), 0600);
}
VH_REQUIRE("fileComplete", "fileTold", "told.count", "told.exception", "archiveComplete", "archiveTold", "xmlComplete", "xmlTold", "preferencesComplete", "preferencesTold", "places.missing folder", "places.folder", "places.below a file", "places.full device", "places.no descriptors", "by.File", "by.ZipOutputFile", "by.XMLWriter", "by.Preferences::save", "by.Preferences::load", "by.ZipFile", "by.ZipOutputFile::writeAndClose")
VH_DRIVER("P47", "Whenever the system refuses to open, write, flush or close, the caller gets an exception, a status or a short count; without one, the file holds every byte")
