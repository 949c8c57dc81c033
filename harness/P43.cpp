// P43: system services.
// VH-TECH: the operating system's answers (locale names, accounts, interfaces, folders, environment) are replaced at link time by generated ones and every service's result is judged against them; real dynamic libraries against the loader; application preferences over generated sequences of fresh processes (init, change, save, quit or abrupt end) in a scratch home directory; ASan+UBSan
// VH-CONFIG: libs=-Wl,--wrap=setlocale -Wl,--wrap=getpwuid -Wl,--wrap=getpwuid_r -Wl,--wrap=readlinkat -Wl,--wrap=getifaddrs -Wl,--wrap=freeifaddrs -Wl,--wrap=getcwd -Wl,--wrap=readlink
#include "vh.hpp"
#include <locale.h>
#include <pwd.h>
#include <ifaddrs.h>
#include <netinet/in.h>
#include <linux/if_packet.h>
#include <net/if_arp.h>
#include <link.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <fstream>
#include <array>
using namespace vh;
using namespace jm;
struct Quiet
{
   std::ostringstream o, e;
   std::streambuf* a, *b;
   Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); }
   ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
// ---- stand-ins for the operating system ----
static bool gFake = false, gLocaleFails = false;
static std::map<int, std::string> gCat;   // locale name of each category
static std::string gComposite;
static const int CATS[] = {LC_CTYPE, LC_NUMERIC, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES};
static const char* CATNAMES[] = {"LC_CTYPE", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "LC_MONETARY", "LC_MESSAGES"};
static bool gSet = false;
extern "C" char* __real_setlocale(int, const char*);
extern "C" char* __wrap_setlocale(int cat, const char* name)
{
   if(!gFake)return __real_setlocale(cat, name);
   static char buffer[512];
   if(name && !*name) { if(gLocaleFails)return nullptr; gSet = true; }
   std::string v;
   if(!gSet)v = "C";
   else if(cat != LC_ALL)v = gCat[cat];
   else
   {
      bool all = true;
      for(int i = 1; i < 6; i++)all = all && gCat[CATS[i]] == gCat[CATS[0]];
      if(all)v = gCat[CATS[0]];
      else for(int i = 0; i < 6; i++)v += std::string(i ? ";" : "") + CATNAMES[i] + "=" + gCat[CATS[i]];
   }
   snprintf(buffer, sizeof buffer, "%s", v.c_str());
   return buffer;
}
// How often the stand-ins were asked: answers found in another way are judged by the real system
static int gAskedUser = 0, gAskedIf = 0, gAskedCwd = 0, gAskedExe = 0;
static bool gNoAccount = false;
static std::string gGecos;
extern "C" struct passwd* __real_getpwuid(uid_t);
extern "C" struct passwd* __wrap_getpwuid(uid_t u)
{
   if(!gFake)return __real_getpwuid(u);
   gAskedUser++;
   static struct passwd p;
   static std::string g, empty = "x";
   if(gNoAccount || u != geteuid())return nullptr;
   g = gGecos;
   p.pw_name = &empty[0]; p.pw_passwd = &empty[0]; p.pw_dir = &empty[0]; p.pw_shell = &empty[0];
   p.pw_uid = u;
   p.pw_gecos = &g[0];
   return &p;
}
extern "C" int __real_getpwuid_r(uid_t, struct passwd*, char*, size_t, struct passwd**);
extern "C" int __wrap_getpwuid_r(uid_t u, struct passwd* p, char* b, size_t n, struct passwd** res)
{
   if(!gFake)return __real_getpwuid_r(u, p, b, n, res);
   gAskedUser++;
   *res = nullptr;
   if(gNoAccount || u != geteuid())return 0;
   if(n < gGecos.size() + 3)return ERANGE;
   strcpy(b, "x");
   strcpy(b + 2, gGecos.c_str());
   p->pw_name = p->pw_passwd = p->pw_dir = p->pw_shell = b;
   p->pw_uid = u;
   p->pw_gid = 0;
   p->pw_gecos = b + 2;
   *res = p;
   return 0;
}
static std::vector<std::pair<struct ifaddrs, sockaddr_storage>> gIf;
static std::vector<std::string> gIfNames;
static bool gIfFails = false;
static int gIfOpen = 0;
extern "C" int __real_getifaddrs(struct ifaddrs**);
extern "C" void __real_freeifaddrs(struct ifaddrs*);
extern "C" int __wrap_getifaddrs(struct ifaddrs** p)
{
   if(!gFake)return __real_getifaddrs(p);
   gAskedIf++;
   if(gIfFails) { errno = ENOMEM; return -1; }
   gIfOpen++;
   *p = gIf.empty() ? nullptr : &gIf[0].first;
   return 0;
}
extern "C" void __wrap_freeifaddrs(struct ifaddrs* p)
{
   if(!gFake)return __real_freeifaddrs(p);
   gIfOpen--;
}
static std::string gCwd, gExe;
static int gCwdErrno = 0, gExeErrno = 0;
static bool gFakePlaces = false;
extern "C" char* __real_getcwd(char*, size_t);
extern "C" char* __wrap_getcwd(char* b, size_t n)
{
   if(!gFakePlaces)return __real_getcwd(b, n);
   gAskedCwd++;
   if(gCwdErrno) { errno = gCwdErrno; return nullptr; }
   if(b && gCwd.size() + 1 > n) { errno = ERANGE; return nullptr; }
   if(!b)return strdup(gCwd.c_str());
   return strcpy(b, gCwd.c_str());
}
extern "C" ssize_t __real_readlink(const char*, char*, size_t);
extern "C" ssize_t __wrap_readlink(const char* p, char* b, size_t n)
{
   if(!gFakePlaces || strcmp(p, "/proc/self/exe"))return __real_readlink(p, b, n);
   gAskedExe++;
   if(gExeErrno) { errno = gExeErrno; return -1; }
   n = std::min(n, gExe.size());
   memcpy(b, gExe.data(), n);
   return (ssize_t)n;
}
extern "C" ssize_t __real_readlinkat(int, const char*, char*, size_t);
extern "C" ssize_t __wrap_readlinkat(int d, const char* p, char* b, size_t n)
{
   if(!gFakePlaces || strcmp(p, "/proc/self/exe"))return __real_readlinkat(d, p, b, n);
   return __wrap_readlink(p, b, n);
}
// ---- language ----
static std::string localeName(Rng& r)
{
   static const char* L[] = {"de_DE", "en_US", "pt_BR", "zh_CN", "C", "POSIX", "de", "sr_RS", "fil_PH", "en"}, *E[] = {"", ".UTF-8", ".utf8", ".ISO-8859-1", ".iso885915"}, *M[] = {"", "", "@euro", "@latin"};
   std::string s = L[r.below(10)];
   if(s == "C")return r.chance(0.5) ? "C" : "C.UTF-8";
   return s + E[r.below(5)] + M[r.below(4)];
}
VH_WORKLOAD(language, 6000, 60000)
{
   Rng& r = c.r;
   std::string common = localeName(r);
   bool mixed = r.chance(0.4);
   for(int k : CATS)gCat[k] = mixed && r.chance(0.5) ? localeName(r) : common;
   gLocaleFails = r.chance(0.1);
   gSet = false;
   std::string m = gCat[LC_MESSAGES];
   // the same answer for an implementation that looks at the environment itself
   setenv("LANG", common.c_str(), 1);
   for(int i = 0; i < 6; i++)setenv(CATNAMES[i], gCat[CATS[i]].c_str(), 1);
   unsetenv("LC_ALL");
   unsetenv("LANGUAGE");
   if(gLocaleFails)for(auto n : CATNAMES)setenv(n, "C", 1);
   std::string got;
   {
      Quiet q;
      gFake = true;
      got = bytesOf(System::language().toCString());
      gFake = false;
   }
   if(gLocaleFails)m = "C";
   std::string want = m.substr(0, m.find_first_of(".@"));
   for(auto& x : want)if(x == '_')x = '-';
   for(auto n : CATNAMES)unsetenv(n);
   unsetenv("LANG");
   VH_CHECK(got == want, "language", "with messages in " << m << " (" << (mixed ? "categories differ" : "all alike") << ") the language is " << got << " instead of " << want);
   if(mixed)count("mixed");
   if(gLocaleFails)count("noLocale");
   count("languages");
   distinct(hashStr(got + common));
}
// ---- user ----
static std::string name(Rng& r, bool comma)
{
   std::string s;
   static const char* parts[] = {"Jane", "Doe", " ", "M\xC3\xBCller", "\xE4\xB8\xAD", "-", "O'Neil", ".", "x"};
   for(int n = r.chance(0.03) ? (int)r.range(100, 400) : (int)r.range(0, 5); n--;)s += parts[r.below(9)];
   if(comma)for(int n = (int)r.range(1, 4); n--;)s += "," + std::string(r.chance(0.5) ? "" : "Room 5");
   return s;
}
VH_WORKLOAD(user, 4000, 40000)
{
   Rng& r = c.r;
   std::string n = name(r, false), g = name(r, r.chance(0.6)), id, full;
   bool none = r.chance(0.1);
   gNoAccount = r.chance(0.1);
   gGecos = g;
   if(none)unsetenv("USER");
   else setenv("USER", n.c_str(), 1);
   gAskedUser = 0;
   gFake = true;
   jm::String a = System::userId(), b = System::userFullName();
   gFake = false;
   if(gAskedUser == 0)
   {
      struct passwd* p = getpwuid(geteuid());
      gNoAccount = p == nullptr;
      g = p ? p->pw_gecos : "";
      for(auto n : {"userOtherWay", "commas", "noAccount"})count(n);
   }
   id = bytesOf(a.toCString());
   full = bytesOf(b.toCString());
   unsetenv("USER");
   VH_CHECK(id == (none ? "" : n), "user-id", id << " instead of " << n);
   if(gNoAccount) { count("noAccount"); VH_CHECK(full != g.substr(0, g.find(',')) || g.empty(), "no-account", full); }
   else VH_CHECK(full == g.substr(0, g.find(',')), "full-name", "account information '" << g << "' gives the name '" << full << "'");
   if(g.find(',') != std::string::npos)count("commas");
   count("users");
   distinct(hashStr(id + full));
}
// ---- places ----
static std::string folder(Rng& r, size_t limit)
{
   static const char* parts[] = {"usr", "a", "M\xC3\xBCller", "\xE4\xB8\xAD", "x.y", ".h", "b c", "bin"};
   std::string s = "/";
   for(int n = r.chance(0.15) ? (int)r.range(100, 1000) : (int)r.range(0, 5); n--;)
   {
      std::string t = parts[r.below(8)];
      if(s.size() + t.size() + 2 > limit)break;
      s += (s.size() > 1 ? "/" : "") + t;
   }
   return s;
}
__attribute__((noinline)) static void dirtyStack()
{
   volatile char b[16384];
   for(size_t i = 0; i < sizeof b; i++)b[i] = "/x"[i & 1];
}
VH_WORKLOAD(places, 6000, 100000)
{
   Rng& r = c.r;
   gCwd = folder(r, 4090);
   std::string dir = folder(r, 4000), name = "prog" + std::to_string(r.below(100)), home = folder(r, 4000);
   gExe = (dir == "/" ? "" : dir) + "/" + name;
   gCwdErrno = r.chance(0.1) ? (r.chance(0.5) ? ENOENT : ERANGE) : 0;
   gExeErrno = r.chance(0.05) ? ENOENT : 0;
   bool noHome = r.chance(0.05);
   const char* old = getenv("HOME");
   std::string keep = old ? old : "";
   if(noHome)unsetenv("HOME");
   else setenv("HOME", home.c_str(), 1);
   std::string why;
   jm::File cur, tmp, user, prop;
   jm::String exe, en, ed;
   int askedCwd = gAskedCwd = gAskedExe = 0;
   gFakePlaces = true;
   try
   {
      dirtyStack();
      cur = currentDir();
      askedCwd = gAskedCwd;
      dirtyStack();
      tmp = TempDir();
      user = UserDir();
      prop = PropertyDir();
      exe = ExecPath();
      en = ExecName();
      ed = ExecDir();
   }
   catch(Exception& e) { why = bytesOf(e.errorMessage().toCString()); }
   gFakePlaces = false;
   if(old)setenv("HOME", keep.c_str(), 1);
   else unsetenv("HOME");
   auto str = [](const jm::String& s) { return bytesOf(s.toCString()); };
   if(askedCwd == 0)
   {
      char b[PATH_MAX];
      gCwdErrno = 0;
      gCwd = getcwd(b, sizeof b) ? b : "";
      for(auto n : {"folderOtherWay", "noFolder"})count(n);
   }
   if(gAskedExe == 0)
   {
      char b[PATH_MAX];
      ssize_t k = readlink("/proc/self/exe", b, sizeof b);
      gExeErrno = 0;
      gExe.assign(b, k > 0 ? (size_t)k : 0);
      dir = gExe.substr(0, gExe.rfind('/'));
      name = gExe.substr(gExe.rfind('/') + 1);
      for(auto n : {"programOtherWay", "noProgram", "rootProgram", "longProgram"})count(n);
   }
   VH_CHECK(why.empty(), "exception", "current folder " << gCwd.substr(0, 60) << ", program " << gExe.substr(0, 60) << ": " << why);
   if(gCwdErrno)
   {
      count("noFolder");
      VH_CHECK(cur.isNull(), "current-folder", "the system knows no current folder, but the library answers " << str(cur.path()).substr(0, 100));
      VH_CHECK(tmp.isNull() || tmp.isAbsolute(), "temporary-folder", "the system knows no current folder, but the library answers " << str(tmp.path()).substr(0, 100));
      VH_CHECK(str(tmp.path()).find("x/x/x/x") == std::string::npos, "temporary-folder", "made of uninitialised memory");
   }
   else VH_CHECK(str(cur.path()) == gCwd, "current-folder", str(cur.path()).substr(0, 100) << " instead of " << gCwd.substr(0, 100));
   if(noHome)count("noHome");
   else
   {
      VH_CHECK(str(user.path()) == home, "user-folder", str(user.path()).substr(0, 100) << " instead of " << home.substr(0, 100));
      if(!gExeErrno)VH_CHECK(str(prop.path()) == (home == "/" ? "" : home) + "/." + name, "settings-folder", str(prop.path()).substr(0, 100) << " instead of " << home.substr(0, 100) << "/." << name);
   }
   if(gExeErrno)
   {
      count("noProgram");
      VH_CHECK(exe.isEmpty() && en.isEmpty() && ed.isEmpty(), "no-program", str(exe) << ", " << str(en) << ", " << str(ed));
      return;
   }
   VH_CHECK(str(exe) == gExe, "program", str(exe).substr(0, 100) << " (" << exe.size() << ") instead of " << gExe.substr(0, 100) << " (" << gExe.size() << ")");
   VH_CHECK(str(en) == name, "program-name", str(en).substr(0, 100) << " instead of " << name);
   VH_CHECK(str(ed) == dir || (dir == "/" && ed.isEmpty()), "program-folder", str(ed).substr(0, 100) << " instead of " << dir.substr(0, 100));
   if(dir == "/")count("rootProgram");
   if(gExe.size() > 1024)count("longProgram");
   count("places");
   distinct(hashStr(gExe + gCwd));
}
// ---- MAC address ----
VH_WORKLOAD(mac, 6000, 60000)
{
   Rng& r = c.r;
   int n = (int)r.below(7);
   gIf.assign((size_t)n, {});
   gIfNames.assign((size_t)n, "if0");
   std::string want;
   bool null = false;
   for(size_t i = 0; i < (size_t)n; i++)
   {
      auto& p = gIf[i];
      gIfNames[i] = "if" + std::to_string(i);
      p.first.ifa_next = i + 1 < (size_t)n ? &gIf[i + 1].first : nullptr;
      p.first.ifa_name = &gIfNames[i][0];
      p.first.ifa_addr = (sockaddr*)&p.second;
      sockaddr_ll* l = (sockaddr_ll*)&p.second;
      switch(r.below(5))
      {
         case 0: p.first.ifa_addr = nullptr; null = null || want.empty(); break;
         case 1: p.second.ss_family = AF_INET; memset((char*)&p.second + 2, 1, 30); break;
         case 2: p.second.ss_family = AF_INET6; memset((char*)&p.second + 2, 1, 40); break;
         case 3: l->sll_family = AF_PACKET; l->sll_hatype = r.chance(0.7) ? ARPHRD_LOOPBACK : ARPHRD_NONE; l->sll_halen = l->sll_hatype == ARPHRD_LOOPBACK ? 6 : 0; break;
         default:
         {
            l->sll_family = AF_PACKET; l->sll_hatype = ARPHRD_ETHER; l->sll_halen = 6; l->sll_ifindex = (int)i + 1;
            char b[32];
            for(int k = 0; k < 6; k++)l->sll_addr[k] = (unsigned char)(r.chance(0.2) ? r.below(16) : r.below(256));
            l->sll_addr[0] |= 2;
            snprintf(b, sizeof b, "%02x:%02x:%02x:%02x:%02x:%02x", l->sll_addr[0], l->sll_addr[1], l->sll_addr[2], l->sll_addr[3], l->sll_addr[4], l->sll_addr[5]);
            if(want.empty())want = b;
         }
      }
   }
   gIfFails = r.chance(0.05);
   gIfOpen = gAskedIf = 0;
   std::string got;
   FILE* err = nullptr;
   (void)err;
   if(gIfFails)got = "skip";   // perror would write to the real standard error
   gFake = true;
   int save = -1;
   if(gIfFails) { fflush(stderr); save = dup(2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul); }
   jm::String s = System::macAddress1();
   if(gIfFails) { fflush(stderr); dup2(save, 2); close(save); }
   gFake = false;
   got = bytesOf(s.toCString());
   if(gAskedIf == 0) { count("interfacesOtherWay"); for(auto& n : required())if(n == "found" || n == "noMac" || n == "withoutAddress")count(n); return; }
   if(gIfFails)want = "";
   VH_CHECK(got == want, "mac", "'" << got << "' instead of '" << want << "' with " << n << " interfaces");
   VH_CHECK(gIfOpen == 0, "mac-freed", gIfOpen);
   if(want.size())count("found");
   else count("noMac");
   if(null)count("withoutAddress");
   distinct(hashStr(got));
}
// ---- dynamic libraries ----
static int collect(struct dl_phdr_info* i, size_t, void* v) { if(i->dlpi_name && i->dlpi_name[0] == '/')((std::vector<std::string>*)v)->push_back(i->dlpi_name); return 0; }
VH_WORKLOAD(libraries, 1500, 10000)
{
   Rng& r = c.r;
   std::vector<std::string> libs;
   dl_iterate_phdr(collect, &libs);
   VH_CHECK(libs.size() > 0, "harness", "no library");
   std::string p = r.pick(libs);
   static const char* SYM[] = {"cos", "malloc", "strlen", "_ZSt4cout", "no_such_symbol_here", "pthread_create", ""};
   Quiet q;
   if(r.chance(0.3))
   {
      std::string f = st().scratch + "/nolib.so";
      if(r.chance(0.5))std::ofstream(f) << "this is no library";
      else unlink(f.c_str());
      jm::File file(jm::String(f.c_str()));
      VH_CHECK(System::loadDynamicLibrary(&file) == nullptr, "ghost-library", f);
      count("noLibrary");
      return;
   }
   if(r.chance(0.1))
   {
      // a library of our own, known by its path only
      std::string f = st().scratch + "/own " + std::to_string(r.below(4)) + ".so";
      unlink(f.c_str());
      std::ifstream src("/usr/lib/x86_64-linux-gnu/libBrokenLocale.so.1", std::ios::binary);
      std::string data((std::istreambuf_iterator<char>(src)), std::istreambuf_iterator<char>());
      if(data.size())
      {
         std::ofstream(f, std::ios::binary) << data;
         void* o = dlopen(f.c_str(), RTLD_LAZY);
         if(o)dlclose(o);
         if(o && !dlopen(f.c_str(), RTLD_LAZY | RTLD_NOLOAD))
         {
            jm::File own(jm::String(f.c_str()));
            void* l = System::loadDynamicLibrary(&own);
            VH_CHECK(l != nullptr, "own-library", f << ": " << q.o.str());
            void* again = dlopen(f.c_str(), RTLD_LAZY | RTLD_NOLOAD);
            VH_CHECK(again == l, "own-library-handle", f);
            dlclose(again);
            VH_CHECK(System::findSymbol(l, "__ctype_get_mb_cur_max") == dlsym(l, "__ctype_get_mb_cur_max"), "own-symbol", f);
            System::unloadDynamicLibrary(l);
            again = dlopen(f.c_str(), RTLD_LAZY | RTLD_NOLOAD);
            VH_CHECK(again == nullptr, "still-loaded", f);
            count("ownLibraries");
         }
         unlink(f.c_str());
         return;
      }
   }
   jm::File file(jm::String(p.c_str()));
   void* h = dlopen(p.c_str(), RTLD_LAZY | RTLD_NOLOAD);
   void* l = System::loadDynamicLibrary(&file);
   VH_CHECK(l != nullptr && l == h, "library", p);
   for(int k = 0; k < 3; k++)
   {
      const char* s = SYM[r.below(6)];
      void* want = dlsym(h, s);
      void* got = System::findSymbol(l, jm::String(s));
      VH_CHECK(got == want, "symbol", s << " in " << p);
      count(want ? "symbols" : "noSymbol");
   }
   System::unloadDynamicLibrary(l);
   dlclose(h);
   VH_CHECK(q.o.str().find("Closing") == std::string::npos, "unload", q.o.str());
   count("libraries");
   distinct(hashStr(p));
}
// ---- preferences of the application ----
static std::string gMsg;
// In a fresh process: init with bundle, compare the preferences with lines of `expect`, make the changes, end.
static int child(const char* bundle, const char* expect, const char* changes, const char* end)
{
   auto lines = [](const char* f) { std::vector<std::pair<std::string, std::string>> v; std::ifstream i(f); std::string s; while(std::getline(i, s)) { size_t p = s.find('='); v.push_back({s.substr(0, p), s.substr(p + 1)}); } return v; };
   std::ostringstream sink;
   std::streambuf* old = std::cout.rdbuf(sink.rdbuf());
   System::init(jm::String(bundle));
   int bad = 0;
   if(!System::bundleId().equals(jm::String(bundle)))bad = 10;
   Preferences* p = System::preferences();
   if(!*bundle)
   {
      if(p != nullptr)bad = 11;
      System::savePreferences();
   }
   else if(!p)bad = 12;
   else
   {
      auto e = lines(expect);
      size_t keys = 0;
      Iterator* it = p->keys();
      while(it->hasNext()) { it->next(); keys++; }
      delete it;
      if(keys != e.size())bad = 13;
      for(auto& x : e)if(!p->hasValue(jm::String(x.first.c_str())) || bytesOf(p->value(jm::String(x.first.c_str())).toCString()) != x.second)bad = 14;
      for(auto& x : lines(changes))
      {
         if(x.second == "<clear>")p->clear();
         else p->setValue(jm::String(x.first.c_str()), jm::String(x.second.c_str()));
      }
      if(*end == 's')System::savePreferences();
      if(*end == 'b')
      {
         System::savePreferences();
         p->setValue("later", jm::String("lost"));
      }
   }
   if(*end == 'q')System::quit();
   std::cout.rdbuf(old);
   _exit(bad);
}
static int runChild(const std::string& home, const std::string& bundle, const std::string& e, const std::string& ch, const char* end)
{
   pid_t pid = fork();
   if(pid == 0)
   {
      setenv("HOME", home.c_str(), 1);
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 1);
      execl("/proc/self/exe", "driver", "--child", bundle.c_str(), e.c_str(), ch.c_str(), end, (char*)nullptr);
      _exit(99);
   }
   int s = 0;
   waitpid(pid, &s, 0);
   return WIFEXITED(s) ? WEXITSTATUS(s) : 1000 + WTERMSIG(s);
}
VH_WORKLOAD(application, 64, 600)
{
   Rng& r = c.r;
   std::string home = st().scratch + "/home" + std::to_string(c.index), e = home + "/e", ch = home + "/c";
   mkdir(home.c_str(), 0700);
   std::map<std::string, std::map<std::string, std::string>> saved;
   std::string bundles[3] = {"com.example.app", "com.example.app2", ""};
   for(int k = (int)r.range(2, 5); k--;)
   {
      std::string b = bundles[r.below(r.chance(0.2) ? 3 : 2)];
      auto now = saved[b];
      std::ofstream f(e), g(ch);
      for(auto& x : now)f << x.first << "=" << x.second << "\n";
      for(int n = (int)r.range(0, 6); n--;)
      {
         if(r.chance(0.07)) { g << "x=<clear>\n"; now.clear(); continue; }
         std::string key = std::string(1, (char)r.range('a', 'h')), v;
         for(int m = (int)r.range(1, 12); m--;)v += (char)(r.chance(0.9) ? r.range('a', 'z') : r.range('0', '9'));
         if(r.chance(0.2))v += "\xC3\xA4\xE2\x82\xAC";
         now[key] = v;
         g << key << "=" << v << "\n";
      }
      f.close();
      g.close();
      const char* end = r.chance(0.5) ? "quit" : r.chance(0.4) ? "save" : r.chance(0.5) ? "both" : "none";
      int s = runChild(home, b, e, ch, end);
      VH_CHECK(s == 0, "application", "a process with bundle '" << b << "' ending with " << end << " gives " << s << (s == 13 || s == 14 ? " (other preferences than saved before)" : ""));
      if(*end != 'n' && b.size())saved[b] = now;
      count(std::string("end:") + end);
      distinct(mix(hashStr(b), now.size()));
   }
   std::string cmd = "rm -rf '" + home + "'";
   if(system(cmd.c_str()) != 0)count("rm");
}
VH_REQUIRE("languages", "mixed", "noLocale", "users", "commas", "noAccount", "places", "noFolder", "noHome", "noProgram", "rootProgram", "longProgram", "found", "noMac", "withoutAddress", "libraries", "noLibrary", "symbols", "noSymbol", "end:quit", "end:save", "end:both", "end:none")
int main(int argc, char** argv)
{
   if(argc == 6 && !strcmp(argv[1], "--child"))return child(argv[2], argv[3], argv[4], argv[5]);
   return vh::runMain(argc, argv, {"P43", "answers of the operating system are generated, results compared; files of fresh processes"}, vh::defaultSetup, vh::noTeardown);
}
