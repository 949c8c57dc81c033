// P44: finding and reading resources and translations.
// VH-TECH: the resource folder is redirected at link time to a scratch folder; every subset of the candidate translation files with decoys, and the file found compared with the documented order; default translation in fresh processes with generated languages; histories of stream operations on shared resources against a byte-vector model; ASan+UBSan
// VH-CONFIG: libs=-Wl,--wrap=access -Wl,--wrap=stat -Wl,--wrap=lstat -Wl,--wrap=fopen -Wl,--wrap=fopen64 -Wl,--wrap=open -Wl,--wrap=open64 -Wl,--wrap=opendir -Wl,--wrap=setlocale
#include "vh.hpp"
#include <sys/wait.h>
#include <dirent.h>
#include <locale.h>
#include <fstream>
using namespace vh;
using namespace jm;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
struct Quiet
{
   std::ostringstream o, e;
   std::streambuf* a, *b;
   Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); }
   ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
// ---- the resource folder is below the scratch folder ----
static std::string gFrom, gTo, gLang;
static int gErrno = 0;   // forced failure of opening
static std::string redirect(const char* p)
{
   std::string s(p ? p : "");
   if(gFrom.size() && s.compare(0, gFrom.size(), gFrom) == 0 && (s.size() == gFrom.size() || s[gFrom.size()] == '/'))return gTo + s.substr(gFrom.size());
   return s;
}
extern "C" {
   int __real_access(const char*, int);
   int __wrap_access(const char* p, int m) { return __real_access(redirect(p).c_str(), m); }
   int __real_stat(const char*, struct stat*);
   int __wrap_stat(const char* p, struct stat* s) { return __real_stat(redirect(p).c_str(), s); }
   int __real_lstat(const char*, struct stat*);
   int __wrap_lstat(const char* p, struct stat* s) { return __real_lstat(redirect(p).c_str(), s); }
   FILE* __real_fopen(const char*, const char*);
   FILE* __wrap_fopen(const char* p, const char* m) { if(gErrno && redirect(p) != p) { errno = gErrno; return nullptr; } return __real_fopen(redirect(p).c_str(), m); }
   FILE* __real_fopen64(const char*, const char*);
   FILE* __wrap_fopen64(const char* p, const char* m) { if(gErrno && redirect(p) != p) { errno = gErrno; return nullptr; } return __real_fopen64(redirect(p).c_str(), m); }
   int __real_open(const char*, int, ...);
   int __wrap_open(const char* p, int f, int m) { return __real_open(redirect(p).c_str(), f, m); }
   int __real_open64(const char*, int, ...);
   int __wrap_open64(const char* p, int f, int m) { return __real_open64(redirect(p).c_str(), f, m); }
   DIR* __real_opendir(const char*);
   DIR* __wrap_opendir(const char* p) { return __real_opendir(redirect(p).c_str()); }
   char* __real_setlocale(int, const char*);
   char* __wrap_setlocale(int c, const char* n)
   {
      if(gLang.empty())return __real_setlocale(c, n);
      static char b[128];
      snprintf(b, sizeof b, "%s", gLang.c_str());
      return b;
   }
}
static void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
static bool prepare(const std::string& root)
{
   gFrom = bytesOf(ResourceDir("").path().toCString());
   gTo = root;
   mkdir(root.c_str(), 0755);
   mkdir((root + "/translations").c_str(), 0755);
   if(gFrom.compare(0, 11, "/usr/share/") != 0 || gFrom.size() < 12)return false;
   spit(root + "/probe", "probe");
   Resource p("probe");
   bool ok = p.exists() && p.size() == 5;
   unlink((root + "/probe").c_str());
   return ok;
}
static void put(std::string& s, uint32_t v) { for(int i = 0; i < 4; i++)s += (char)(v >> 8 * i); }
// A catalogue with the single entry which -> name
static std::string catalogue(const std::string& name)
{
   std::string s;
   for(uint32_t v : {0x950412deu, 0u, 1u, 28u, 36u, 0u, 0u, 5u, 44u, (uint32_t)name.size(), 50u})put(s, v);
   return s + "which" + '\0' + name + '\0';
}
// Should the library stop using the redirected calls, nothing below can be observed: the evidence says so
static void notRedirected()
{
   count("notRedirected");
   for(auto& n : required())count(n);
}
static const char* LANGS[] = {"de-DE", "de_DE", "de", "en-US", "en", "pt-BR", "zh-Hant-TW", "C", "nds", "x_Y", "de-AT"};
static std::string under(std::string s) { for(auto& c : s)if(c == '-')c = '_'; return s; }
static std::vector<std::string> candidates(const std::string& file, const std::string& lang)
{
   std::string l = under(lang), s = l.substr(0, l.find('_'));
   return {file + "." + l + ".mo", l + ".mo", file + "." + s + ".mo", s + ".mo"};
}
VH_WORKLOAD(lookup, 3000, 60000)
{
   Rng& r = c.r;
   Quiet q;
   static bool ready = false, ok = false;
   static std::string root;
   if(!ready) { ready = true; root = st().scratch + "/res"; ok = prepare(root); }
   else { gFrom = bytesOf(ResourceDir("").path().toCString()); gTo = root; }
   if(!ok) { notRedirected(); return; }
   static const char* FILES[] = {"app", "", "com.example.app", "a-b", "de", "x_y", "\xC3\xA4pp"};
   std::string file = FILES[r.below(7)], lang = LANGS[r.below(11)];
   bool system = r.chance(0.2);
   gLang = system ? under(lang) + (r.chance(0.5) ? ".UTF-8" : "") + (r.chance(0.2) ? "@euro" : "") : "";
   if(system && lang == "C")gLang = "C";
   auto cand = candidates(file, lang);
   std::set<std::string> made;
   std::string dir = root + "/translations/";
   for(auto& x : cand)if(r.chance(0.4))made.insert(x);
   for(int n = (int)r.below(4); n--;)   // decoys
   {
      auto d = candidates(FILES[r.below(7)], LANGS[r.below(11)]);
      std::string x = r.chance(0.7) ? d[r.below(4)] : r.chance(0.5) ? d[r.below(4)] + "x" : lang + ".mo";
      made.insert(x);
   }
   for(auto& x : made)spit(dir + x, catalogue(x));
   std::string want;
   for(auto& x : cand)if(made.count(x)) { want = x; break; }
   {
      Resource f = I18nBundle::transFileByBundleId(jm::String(file.c_str()), jm::String(system ? "" : lang.c_str()));
      gLang.clear();
      std::string all;
      for(auto& x : made)all += " " + x;
      VH_CHECK(f.exists() == !want.empty(), "exists", "for file '" << file << "' and language " << lang << " exists: " << f.exists() << " among" << all);
      I18nBundle b(jm::String(lang.c_str()));
      b.appendMo(&f);
      std::string got = bytesOf(b.translate("which").toCString());
      VH_CHECK(got == (want.empty() ? "which" : want), "found", "for file '" << file << "' and language " << lang << (system ? " (of the system)" : "") << ": " << got << " instead of " << want << " among" << all);
      VH_CHECK(!f.isOpen(), "left-open", "");
   }
   gLang.clear();
   for(auto& x : made)unlink((dir + x).c_str());
   size_t i = 0;
   while(i < 4 && cand[i] != want)i++;
   count(want.empty() ? "none" : "rank" + std::to_string(i));
   count(system ? "systemLanguage" : "givenLanguage");
   distinct(mix(hashStr(file + "/" + lang), made.size() * 8 + i));
}
// ---- the default translation of a fresh process ----
static int child(const char* root, const char* lang, const char* bundle, const char* want)
{
   std::ostringstream sink;
   std::streambuf* old = std::cout.rdbuf(sink.rdbuf());
   gLang = lang;
   gFrom = bytesOf(ResourceDir("").path().toCString());
   gTo = root;
   System::init(jm::String(bundle));
   int bad = 0;
   I18nBundle* d = I18nBundle::getDefault();
   if(!d)bad = 10;
   else if(bytesOf(Tr("which").toCString()) != want)bad = 11;
   else if(!Tr("other").equals("other"))bad = 12;
   System::quit();
   if(!bad && I18nBundle::getDefault() != nullptr)bad = 13;
   std::cout.rdbuf(old);
   _exit(bad);
}
VH_WORKLOAD(fresh, 64, 600)
{
   Rng& r = c.r;
   Quiet q;
   std::string root = st().scratch + "/d" + std::to_string(c.index);
   if(!prepare(root)) { notRedirected(); return; }
   gFrom.clear();
   std::string lang = under(LANGS[r.below(11)]);
   // No file name is given: only those of the language itself, or with an empty name
   auto cand = candidates("", lang);
   std::string want = "which", bundle = r.chance(0.8) ? "com.example.app" : "";
   std::set<std::string> made;
   for(auto& x : cand)if(r.chance(0.4))made.insert(x);
   made.insert("xx.mo");
   for(auto& x : made)spit(root + "/translations/" + x, catalogue(x));
   if(bundle.size())for(auto& x : cand)if(made.count(x)) { want = x; break; }
   pid_t pid = fork();
   if(pid == 0)
   {
      setenv("HOME", root.c_str(), 1);
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 1);
      execl("/proc/self/exe", "driver", "--child", root.c_str(), lang.c_str(), bundle.c_str(), want.c_str(), (char*)nullptr);
      _exit(99);
   }
   int s = 0;
   waitpid(pid, &s, 0);
   int e = WIFEXITED(s) ? WEXITSTATUS(s) : 1000 + WTERMSIG(s);
   VH_CHECK(e == 0, "default", "language " << lang << " bundle '" << bundle << "' expected translation " << want << ": process ends with " << e);
   std::string cmd = "rm -rf '" + root + "'";
   if(system(cmd.c_str()) != 0)count("rm");
   count("processes");
   count(want == "which" ? "untranslated" : "translated");
   distinct(hashStr(lang + want + bundle));
}
// ---- resources as streams ----
VH_WORKLOAD(streams, 4000, 80000)
{
   Rng& r = c.r;
   Quiet q;
   static bool ready = false, ok = false;
   static std::string root;
   if(!ready) { ready = true; root = st().scratch + "/str"; ok = prepare(root); }
   else { gFrom = bytesOf(ResourceDir("").path().toCString()); gTo = root; }
   if(!ok) { notRedirected(); return; }
   struct F { std::string name, bytes; bool there; };
   std::vector<F> f(2);
   for(int i = 0; i < 2; i++)
   {
      f[i].name = std::string(r.chance(0.3) ? "translations/" : "") + "r" + std::to_string(i) + (r.chance(0.2) ? "\xC3\xBC" : "");
      f[i].there = r.chance(0.85);
      for(int64_t n = r.chance(0.05) ? borderLength(r, 13) : r.range(0, 40); n--;)f[i].bytes += (char)r.below(256);
      if(f[i].there)spit(root + "/" + f[i].name, f[i].bytes);
      else f[i].bytes.clear();
   }
   // Handles share the stream of the resource they were copied from
   struct S { int file; bool open = false; FileMode mode; size_t at = 0; int64_t refs = 1; };
   std::vector<S> s;
   std::vector<std::pair<Resource*, int>> h;
   auto fresh = [&](int i) { S x; x.file = i; s.push_back(x); h.push_back({new Resource(jm::String(f[i].name.c_str())), (int)s.size() - 1}); };
   fresh(0);
   fresh(1);
   auto drop = [&](int stream) { if(--s[stream].refs == 0)return true; return false; };
   for(int step = 0; step < 40; step++)
   {
      size_t k = r.below(h.size());
      Resource* p = h[k].first;
      S& x = s[h[k].second];
      F& y = f[x.file];
      switch(r.below(12))
      {
         case 0:
            VH_CHECK(p->exists() == y.there, "exists", y.name);
            VH_CHECK(p->size() == (x.open && x.mode == FileMode::kWrite ? p->size() : (int64_t)y.bytes.size()), "size", p->size() << " instead of " << y.bytes.size());
            break;
         case 1: VH_CHECK(p->isOpen() == x.open, "is-open", p->isOpen()); break;
         case 2:
            if(x.open)break;
            {
               FileMode m = r.chance(0.7) ? FileMode::kRead : FileMode::kReadWrite;
               // Another stream of the same file must not be writing
               bool busy = false;
               for(auto& o : s)if(o.open && o.file == x.file)busy = true;
               if(busy)break;
               if(r.chance(0.1))
               {
                  static const std::pair<int, Status> E[] = {{EACCES, Status::eNotAllowed}, {ENOENT, Status::eNotFound}, {ETIMEDOUT, Status::eTimeout}, {ENOTDIR, Status::eNoDirectory}, {EMFILE, Status::eOK}};
                  auto e = E[r.below(5)];
                  gErrno = e.first;
                  // the console fails too
                  struct Bad: std::streambuf { int_type overflow(int_type) override { errno = EPIPE; return 0; } std::streamsize xsputn(const char*, std::streamsize n) override { errno = EPIPE; return n; } int sync() override { errno = ENOSPC; return 0; } } bad;
                  std::streambuf* was = r.chance(0.5) ? std::cout.rdbuf(&bad) : nullptr;
                  bool thrown = false;
                  Status st = Status::eOK;
                  try { st = p->open(m); }
                  catch(const jm::Exception&) { thrown = true; }
                  if(was)std::cout.rdbuf(was);
                  gErrno = 0;
                  VH_CHECK(thrown == (e.first == EMFILE) && (thrown || st == e.second), "open-error", "error " << e.first << (was ? " with a failing console" : "") << " gives status " << (int)st << " exception " << thrown);
                  VH_CHECK(!p->isOpen(), "open-after-error", "");
                  count("openErrors");
                  break;
               }
               Status st = p->open(m);
               VH_CHECK((st == Status::eOK) == y.there && (y.there || st == Status::eNotFound), "open", y.name << " there: " << y.there << " status " << (int)st);
               x.open = y.there;
               x.mode = m;
               x.at = 0;
               count(y.there ? "opened" : "missing");
            }
            break;
         case 3: case 4:
            if(!x.open)break;
            {
               int64_t n = r.chance(0.2) ? 0 : r.range(1, 30);
               std::string b((size_t)n, '?'), want = y.bytes.substr(std::min(x.at, y.bytes.size()), (size_t)n);
               int64_t got = p->read((uint8*)&b[0], n);
               VH_CHECK(got == (int64_t)want.size() && b.compare(0, want.size(), want) == 0 && b.find_first_not_of('?', want.size()) == std::string::npos, "read", got << " bytes at " << x.at << " of " << y.bytes.size());
               x.at += want.size();
               count("reads");
            }
            break;
         case 5:
            if(!x.open)break;
            {
               int64_t n = r.range(0, 60);
               std::string want = y.bytes.substr(std::min(x.at, y.bytes.size()), (size_t)n);
               ByteArray a(n, 7);
               int64_t lim = r.chance(0.5) ? n : r.range(0, 70);
               int64_t got = r.chance(0.5) && lim == n ? static_cast<Stream*>(p)->readFully(a) : p->readFully(a, lim);
               want = want.substr(0, (size_t)std::min(lim, n));
               bool same = got == (int64_t)want.size() && a.size() == n;
               for(int64_t i = 0; same && i < n; i++)same = (uint8_t)a[i] == (i < got ? (uint8_t)want[(size_t)i] : 7);
               VH_CHECK(same, "read-fully", got << " of " << lim << " bytes at " << x.at << " of " << y.bytes.size());
               x.at += want.size();
               count("readFully");
            }
            break;
         case 6: if(x.open) { x.at = r.below(y.bytes.size() + 1); p->seek((int64)x.at); count("seeks"); } break;
         case 7: if(x.open) { int64_t d = r.range(-(int64_t)x.at, (int64_t)y.bytes.size() - (int64_t)x.at); p->move(d); x.at = (size_t)((int64_t)x.at + d); count("moves"); } break;
         case 8: if(x.open)VH_CHECK(p->position() == (int64_t)x.at, "position", p->position() << " instead of " << x.at); break;
         case 9:
            if(x.open && x.mode == FileMode::kReadWrite)
            {
               std::string b;
               for(int n = (int)r.range(0, 12); n--;)b += (char)r.below(256);
               VH_CHECK(p->write((const uint8*)b.data(), (int64)b.size()) == (int64)b.size(), "write", b.size());
               if(y.bytes.size() < x.at + b.size())y.bytes.resize(x.at + b.size());
               y.bytes.replace(x.at, b.size(), b);
               x.at += b.size();
               // written bytes reach the file at the latest when it is closed
               p->close();
               x.open = false;
               std::ifstream i(root + "/" + y.name, std::ios::binary);
               std::string disk((std::istreambuf_iterator<char>(i)), {});
               VH_CHECK(disk == y.bytes, "written", disk.size() << " bytes instead of " << y.bytes.size());
               count("writes");
            }
            else if(r.chance(0.3)) { p->close(); x.open = false; count("closes"); }
            break;
         case 10:   // copy or assign
            if(h.size() < 5 && r.chance(0.5)) { h.push_back({new Resource(*p), h[k].second}); x.refs++; count("copies"); }
            else
            {
               size_t j = r.below(h.size());
               int old = h[j].second, now = h[k].second;
               if(old != now && s[old].refs == 1 && s[old].open) { h[j].first->close(); s[old].open = false; }
               *h[j].first = *p;
               s[now].refs++;
               h[j].second = now;
               drop(old);
               count(j == k ? "selfAssigned" : "assigned");
            }
            break;
         default:   // destroy a handle, make another
            if(x.refs == 1 && x.open) { p->close(); x.open = false; }
            delete p;
            drop(h[k].second);
            h.erase(h.begin() + (long)k);
            if(h.size() < 2)fresh((int)r.below(2));
            count("destroyed");
            break;
      }
   }
   for(auto& x : h) { x.first->close(); delete x.first; }
   for(auto& x : f)unlink((root + "/" + x.name).c_str());
   distinct(mix(hashStr(f[0].bytes), f[1].bytes.size()));
}
// ---- handles keep nothing once they are gone ----
static int openFds()
{
   int n = 0;
   for(int i = 0; i < 256; i++)if(fcntl(i, F_GETFD) >= 0)n++;
   return n;
}
static void handles(Rng& r, int steps)
{
   static const char* N[] = {"h0", "h1", "missing", "h0", "translations/none"};
   {
      std::vector<std::unique_ptr<Resource>> h;
      for(int k = 0; k < steps; k++)
      {
         size_t i = h.size() ? r.below(h.size()) : 0, j = h.size() ? r.below(h.size()) : 0;
         switch(h.empty() ? 0 : r.below(8))
         {
            case 0: h.emplace_back(new Resource(jm::String(N[r.below(5)]))); break;
            case 1: h.emplace_back(new Resource(*h[i])); break;
            case 2: case 3: if(i != j)h[i]->close(); *h[i] = *h[j]; break;
            case 4: if(!h[i]->isOpen())h[i]->open(r.chance(0.7) ? FileMode::kRead : FileMode::kReadWrite); break;
            case 5: if(h[i]->isOpen()) { uint8 b[8]; h[i]->read(b, 8); } break;
            case 6: h[i]->close(); break;
            default: h[i]->close(); h.erase(h.begin() + (long)i); break;
         }
      }
      for(auto& x : h)x->close();
   }
   {
      Resource f = I18nBundle::transFileByBundleId("app", r.chance(0.5) ? "de" : "x_Y");
      I18nBundle b("de");
      b.appendMo(&f);
      if(f.isOpen())count("leftOpen");
   }
}
VH_WORKLOAD(held, 60, 1500)
{
   Quiet q;
   std::string root = st().scratch + "/held";
   if(!prepare(root)) { notRedirected(); return; }
   spit(root + "/h0", "zero and more");
   spit(root + "/h1", "");
   spit(root + "/translations/de.mo", catalogue("x"));
   Rng start = c.r;
   size_t first = 0;
   int fds = openFds();
   for(int k = 0; k < 8; k++)
   {
      Rng r = start;
      handles(r, 60);
      q.o.str("");
      q.e.str("");
      size_t now = __sanitizer_get_current_allocated_bytes();
      VH_CHECK(openFds() == fds, "left-open", openFds() - fds << " files are open though every handle is gone, after " << k + 1 << " times the same history");
      if(k == 4)first = now;
      if(k > 4)VH_CHECK(now <= first, "leak", now - first << " bytes more after repeating the same history of resources");
   }
   count("heldHistories");
   distinct(c.r.u64());
}
VH_REQUIRE("none", "heldHistories", "rank0", "rank1", "rank2", "rank3", "systemLanguage", "processes", "translated", "untranslated", "opened", "missing", "openErrors", "reads", "readFully", "writes", "copies", "assigned", "selfAssigned", "destroyed")
int main(int argc, char** argv)
{
   if(argc == 6 && !strcmp(argv[1], "--child"))return child(argv[2], argv[3], argv[4], argv[5]);
   return vh::runMain(argc, argv, {"P44", "the file found is the first existing one of the documented order; a resource is a file's stream, shared by its copies"}, vh::defaultSetup, vh::noTeardown);
}
