// P19: file paths and file-system queries.
// VH-TECH: listing of folders changed concurrently by another thread; path algebra against a reference on strings and against stat() of the same path; operation histories on a scratch tree with the same history performed by POSIX calls on a mirror tree, both trees compared completely after every step
#include "vh.hpp"
#include <dirent.h>
#include <memory>
#include <set>
#include <atomic>
#include <thread>
#include <sys/xattr.h>
#include <sys/time.h>
using namespace vh;
using namespace jm;
typedef std::string B;
static B str(const jm::String& s) { return bytesOf(s.toCString()); }
static jm::String js(const B& s) { return jm::String(s.c_str()); }
static B norm(const B& p)
{
   B o;
   for(char ch : p)if(!(ch == '/' && o.size() && o.back() == '/'))o += ch;
   if(o.size() > 1 && o.back() == '/')o.pop_back();
   return o;
}
static B component(Rng& r)
{
   static const char* A[] = {"a", "b", "c", "Z", ".", "-", "_", " ", "\xc3\xa4", "\xe2\x82\xac", "1"};
   switch(r.below(9))
   {
      case 0: return ".";
      case 1: return "..";
      case 2: return "x.tar.gz";
      case 3: return ".hidden";
      case 4: if(r.chance(0.05))return B((size_t)r.range(60, r.chance(0.1) ? 9000 : 300), 'L') + (r.chance(0.5) ? ".e" + B((size_t)r.range(1, r.chance(0.2) ? 9000 : 200), 'x') : ""); /* fall through */
      default: { B s; for(int n = (int)r.range(1, 6); n--;)s += A[r.below(11)]; return s; }
   }
}
static B seps(Rng& r) { return B(r.chance(0.8) ? 1 : (size_t)r.range(2, 4), '/'); }
static B genPath(Rng& r)
{
   B p;
   if(r.chance(0.03))return seps(r);
   if(r.chance(0.5))p = seps(r);
   for(int n = (int)(r.chance(0.02) ? r.range(20, 600) : r.range(1, 5)); n--;)
   {
      p += component(r);
      if(n)p += seps(r);
   }
   if(r.chance(0.3))p += seps(r);
   return p;
}
VH_WORKLOAD(paths, 60000, 1500000)
{
   Rng& r = c.r;
   B p = genPath(r), n = norm(p);
   jm::File f(js(p));
   VH_CHECK(str(f.path()) == n, "path", p << ": " << str(f.path()) << " instead of " << n);
   VH_CHECK(str(f.absolutePath()) == n || n[0] != '/', "absolute-path", p << ": " << str(f.absolutePath()));
   VH_CHECK(f.isAbsolute() == (n[0] == '/'), "isAbsolute", p);
   VH_CHECK(!f.isNull(), "isNull", p);
   size_t s = n.rfind('/');
   B name = s == B::npos ? n : n.substr(s + 1), par = s == B::npos ? "" : s == 0 ? (n.size() > 1 ? "/" : "") : n.substr(0, s);
   VH_CHECK(str(f.name()) == name, "name", p << ": " << str(f.name()) << " instead of " << name);
   VH_CHECK(str(f.parent()) == par, "parent", p << ": " << str(f.parent()) << " instead of " << par);
   size_t d = name.rfind('.');
   B ext = d == B::npos ? "" : name.substr(d + 1);
   VH_CHECK(str(f.extension()) == ext, "extension", p << ": " << str(f.extension()) << " instead of " << ext);
   VH_CHECK(f.isHidden() == (name.size() && name[0] == '.'), "isHidden", p);
   if(par.size())
   {
      jm::File back(f.parent(), f.name());
      VH_CHECK(str(back.path()) == n, "parent+name", p << ": " << str(back.path()));
      jm::File back2(jm::File(f.parent()), f.name());
      VH_CHECK(str(back2.path()) == n, "parent+name", p << ": " << str(back2.path()));
      count("rejoined");
   }
   // joining
   B q = genPath(r);
   B nq = norm(q), j = nq == "/" ? n : n == "/" ? (nq[0] == '/' ? nq : "/" + nq) : n + (nq[0] == '/' ? "" : "/") + nq;
   jm::File g(js(p), js(q)), g2(f, js(q));
   VH_CHECK(str(g.path()) == j, "join", p << " + " << q << ": " << str(g.path()) << " instead of " << j);
   VH_CHECK(str(g2.path()) == j, "join-file", p << " + " << q << ": " << str(g2.path()) << " instead of " << j);
   jm::File copy(g), asg;
   VH_CHECK(asg.isNull(), "null", "");
   asg = copy;
   VH_CHECK(str(copy.path()) == j && str(asg.path()) == j && !asg.isOpen(), "copy", p);
   VH_CHECK(copy.compareTo(g) == 0 && (f.compareTo(g) == 0) == (n == j), "compare", n << " and " << j);
   int32 c1 = f.compareTo(g), c2 = g.compareTo(f);
   VH_CHECK((c1 < 0) == (c2 > 0) && (c1 == 0) == (c2 == 0), "compare-antisymmetric", n << " and " << j);
   if(n == "/")count("root");
   if(n.size() > 255)count("longPaths");
   if(n.size() > 3000)count("veryLongPaths");
   distinct(hashStr(p + "\n" + q));
   sample(p + " + " + q);
   count("paths");
}
// ---- trees ----
static void snap(const B& root, const B& rel, std::map<B, B>& o)
{
   B p = root + rel;
   struct stat sb;
   if(lstat(p.c_str(), &sb) != 0)return;
   B d;
   if(S_ISDIR(sb.st_mode))
   {
      d = "dir";
      if(DIR* dp = opendir(p.c_str()))
      {
         while(dirent* e = readdir(dp))if(strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))snap(root, rel + "/" + e->d_name, o);
         closedir(dp);
      }
   }
   else if(S_ISLNK(sb.st_mode))
   {
      char b[4096];
      ssize_t n = readlink(p.c_str(), b, sizeof b);
      d = "link " + B(b, (size_t)std::max<ssize_t>(n, 0));
   }
   else if(S_ISREG(sb.st_mode))
   {
      int fd = open(p.c_str(), O_RDONLY);
      char b[65536];
      ssize_t n = fd < 0 ? 0 : read(fd, b, sizeof b);
      if(fd >= 0)close(fd);
      d = "file " + std::to_string(sb.st_size) + " " + std::to_string(hashBytes(b, (size_t)std::max<ssize_t>(n, 0)));
   }
   else if(S_ISFIFO(sb.st_mode))d = "fifo";
   else d = "other";
   o[rel] = d;
}
static void wipe(const B& p)
{
   // only below the scratch folder of this shard
   if(p.compare(0, st().scratch.size(), st().scratch) != 0 || p.size() <= st().scratch.size() + 1)abort();
   struct stat sb;
   if(lstat(p.c_str(), &sb) != 0)return;
   if(S_ISDIR(sb.st_mode))
   {
      chmod(p.c_str(), 0700);
      std::vector<B> l;
      if(DIR* dp = opendir(p.c_str()))
      {
         while(dirent* e = readdir(dp))if(strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))l.push_back(p + "/" + e->d_name);
         closedir(dp);
      }
      for(auto& x : l)wipe(x);
      rmdir(p.c_str());
   }
   else unlink(p.c_str());
}
static const char* NAMES[] = {"a", "b", ".h", "x.y.z", "\xc3\xa4\xe2\x82\xac", "s p"};
static B relPath(Rng& r, const std::map<B, B>& tree)
{
   // an existing path, a child of an existing path, or something missing
   std::vector<B> dirs, all;
   for(auto& kv : tree)
   {
      if(kv.second == "dir")dirs.push_back(kv.first);
      if(kv.first.size())all.push_back(kv.first);
   }
   if(all.size() && r.chance(0.5))return r.pick(all);
   B d = r.chance(0.9) ? r.pick(dirs) : all.size() ? r.pick(all) : "";
   return d + "/" + NAMES[r.below(6)];
}
static void queries(Rng& r, const B& abs, const std::string& h)
{
   B spelled = abs;
   if(r.chance(0.3))
   {
      size_t q = spelled.rfind('/');
      spelled.insert(q, B(r.below(3), '/'));
      if(r.chance(0.5))spelled.insert(q, "/.");
      else if(r.chance(0.2))spelled += "/";
      count("respelled");
   }
   B nrm = norm(spelled);
   jm::File f(js(spelled));
   struct stat l, s;
   bool le = lstat(nrm.c_str(), &l) == 0, se = stat(nrm.c_str(), &s) == 0;
   // the object names the file the spelling names
   struct stat o1, o2;
   bool e1 = lstat(spelled.c_str(), &o1) == 0, e2 = lstat(str(f.path()).c_str(), &o2) == 0;
   if(spelled.back() != '/')VH_CHECK(e1 == e2 && (!e1 || (o1.st_ino == o2.st_ino && o1.st_dev == o2.st_dev)), "same-file", h << spelled << " and " << str(f.path()));
   VH_CHECK(f.exists() == se, "exists", h << spelled << ": " << f.exists());
   VH_CHECK(f.isDirectory() == (le && S_ISDIR(l.st_mode)), "isDirectory", h << spelled);
   VH_CHECK(f.isFile() == (le && S_ISREG(l.st_mode)), "isFile", h << spelled);
   VH_CHECK(f.isLink() == (le && S_ISLNK(l.st_mode)), "isLink", h << spelled);
   VH_CHECK(f.isPipe() == (le && S_ISFIFO(l.st_mode)), "isPipe", h << spelled);
   VH_CHECK(f.size() == (se ? (int64)s.st_size : 0), "size", h << spelled << ": " << f.size());
   VH_CHECK(f.canRead() == (access(nrm.c_str(), R_OK) == 0), "canRead", h << spelled);
   VH_CHECK(f.canWrite() == (access(nrm.c_str(), W_OK) == 0), "canWrite", h << spelled);
   VH_CHECK(f.canExecute() == (access(nrm.c_str(), X_OK) == 0), "canExecute", h << spelled);
   if(le)
   {
      int64 t = (int64)l.st_mtim.tv_sec * 1000 + l.st_mtim.tv_nsec / 1000000;
      VH_CHECK(f.lastModified().time() == t, "lastModified", h << spelled << ": " << f.lastModified().time() << " instead of " << t);
   }
   count(le ? S_ISDIR(l.st_mode) ? "dirs" : S_ISLNK(l.st_mode) ? "links" : S_ISFIFO(l.st_mode) ? "fifos" : "files" : "missing");
   bool isDir = le && S_ISDIR(l.st_mode);
   if(isDir && access(nrm.c_str(), R_OK) != 0)
   {
      // a folder that may not be read is refused
      bool threw = false;
      try { delete f.listFiles(); }
      catch(Exception&) { threw = true; }
      VH_CHECK(threw, "list-closed", h << spelled);
      count("listClosed");
      return;
   }
   std::unique_ptr<Array<jm::File>> list(f.listFiles());
   VH_CHECK((list != nullptr) == isDir, "list-null", h << spelled);
   if(list)
   {
      std::multiset<B> want, got;
      DIR* dp = opendir(nrm.c_str());
      while(dirent* e = readdir(dp))if(strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))want.insert(e->d_name);
      closedir(dp);
      for(int64 k = 0; k < list->size(); k++)
      {
         jm::File& e = (*list)[k];
         B n = str(e.name());
         if(n == "." || n == "..")continue;
         got.insert(n);
         VH_CHECK(str(e.path()) == nrm + "/" + n, "list-path", h << spelled << ": " << str(e.path()));
         VH_CHECK(str(e.parent()) == nrm, "list-parent", h << spelled << ": " << str(e.parent()));
      }
      VH_CHECK(got == want, "list", h << spelled << ": " << got.size() << " entries instead of " << want.size());
      if(want.size() > 1)count("listed");
   }
}
VH_WORKLOAD(trees, 6000, 150000)
{
   Rng& r = c.r;
   B base = st().scratch + "/p19", A = base + "/1/A", M = base + "/2/A";
   wipe(base);
   mkdir(base.c_str(), 0755);
   // a link to the parent folder must not lead from one tree into the other
   mkdir((base + "/1").c_str(), 0755);
   mkdir((base + "/2").c_str(), 0755);
   mkdir(A.c_str(), 0755);
   mkdir(M.c_str(), 0755);
   std::string h;
   auto check = [&](std::map<B, B>& tree)
   {
      std::map<B, B> b;
      tree.clear();
      snap(A, "", tree);
      snap(M, "", b);
      if(tree != b)
      {
         std::string d;
         for(auto& kv : tree)if(!b.count(kv.first) || b[kv.first] != kv.second)d += " library:" + kv.first + "=" + kv.second;
         for(auto& kv : b)if(!tree.count(kv.first) || tree[kv.first] != kv.second)d += " POSIX:" + kv.first + "=" + kv.second;
         fail("trees-differ", h + d);
      }
      eval();
   };
   std::map<B, B> tree;
   check(tree);
   for(int k = (int)r.range(5, 25); k--;)
   {
      B p = relPath(r, tree);
      B a = A + p, m = M + p;
      switch(r.below(9))
      {
         case 0:
         {
            h += "makeDirectory " + p + "; ";
            bool g = jm::File(js(a)).makeDirectory(), e = mkdir(m.c_str(), 0744) == 0;
            VH_CHECK(g == e, "makeDirectory", h << g);
            count(g ? "madeDir" : "madeDirNot");
            break;
         }
         case 1:
         {
            h += "createNewFile " + p + "; ";
            jm::File f(js(a));
            bool g = f.createNewFile();
            int fd = open(m.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0666);
            if(fd >= 0)close(fd);
            VH_CHECK(g == (fd >= 0), "createNewFile", h << g);
            VH_CHECK(!f.isOpen(), "createNewFile-open", h);
            count(g ? "created" : "createdNot");
            break;
         }
         case 2:
         {
            if(r.chance(0.4))break;
            h += "remove " + p + "; ";
            bool g = jm::File(js(a)).remove(), e = ::remove(m.c_str()) == 0;
            VH_CHECK(g == e, "remove", h << g);
            count(g ? "removed" : "removedNot");
            break;
         }
         case 3:
         case 4:
         {
            B q = relPath(r, tree);
            h += "renameTo " + p + " -> " + q + "; ";
            jm::File f(js(a));
            B target = A + q;
            bool odd = r.chance(0.2);
            if(odd)target.insert(target.rfind('/'), "/");
            bool g = f.renameTo(js(target)), e = rename(m.c_str(), (M + q).c_str()) == 0;
            VH_CHECK(g == e, "renameTo", h << g);
            VH_CHECK(str(f.path()) == (g ? A + q : a), "renamed-path", h << str(f.path()));
            VH_CHECK(!g || f.exists() == (access((A + q).c_str(), F_OK) == 0), "renamed-exists", h);
            count(g ? "renamed" : "renamedNot");
            break;
         }
         case 5:   // somebody else writes a file
         {
            B d((size_t)r.below(5000), (char)r.below(256));
            for(const B& x : {a, m})
            {
               struct stat sb;
               if(lstat(x.c_str(), &sb) == 0 && !S_ISREG(sb.st_mode))continue;
               int fd = open(x.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
               if(fd < 0)continue;
               if(write(fd, d.data(), d.size()) < 0)abort();
               close(fd);
            }
            h += "written " + p + "; ";
            break;
         }
         case 6:   // links, fifos, modes and times
         {
            int what = (int)r.below(4);
            static const char* T[] = {"a", "b", "..", "nowhere", "x.y.z"};
            const char* t = T[r.below(5)];
            mode_t md = (mode_t)r.below(512) | (r.chance(0.4) ? 0700 : 0);
            struct timespec ts[2];
            ts[0].tv_sec = ts[1].tv_sec = r.range(-2000000000LL, 4000000000LL);
            ts[0].tv_nsec = ts[1].tv_nsec = (long)r.below(1000000000);
            for(const B& x : {a, m})
            {
               if(what == 0)(void)!symlink(t, x.c_str());
               else if(what == 1)mkfifo(x.c_str(), 0600);
               else if(what == 2)
               {
                  struct stat sb;
                  if(x.size() <= A.size() + 1)continue;
                  if(lstat(x.c_str(), &sb) == 0 && (S_ISREG(sb.st_mode) || S_ISDIR(sb.st_mode)))
                  {
                     chmod(x.c_str(), md & 0777);
                     count(S_ISREG(sb.st_mode) ? "fileModes" : "dirModes");
                     if(S_ISDIR(sb.st_mode) && (md & 0500) != 0500)count("closedDirs");
                  }
               }
               else utimensat(AT_FDCWD, x.c_str(), ts, AT_SYMLINK_NOFOLLOW);
            }
            h += "prepared " + p + "; ";
            break;
         }
         default: queries(r, a, h);
      }
      check(tree);
   }
   for(auto& kv : tree)queries(r, A + kv.first, h);
   {
      // the order of files is an order, whatever they are
      std::vector<jm::File> fs;
      for(auto& kv : tree)if(fs.size() < 12)fs.emplace_back(js(A + kv.first));
      for(auto& x : fs)
      {
         for(auto& y : fs)
         {
            int32 a = x.compareTo(y), b = y.compareTo(x);
            VH_CHECK((a < 0) == (b > 0) && (a == 0) == (b == 0) && (a == 0) == (&x == &y), "order", h << str(x.path()) << " and " << str(y.path()) << ": " << a << ", " << b);
            for(auto& z : fs)if(a < 0 && y.compareTo(z) < 0)VH_CHECK(x.compareTo(z) < 0, "order-transitive", h << str(x.path()) << " < " << str(y.path()) << " < " << str(z.path()));
         }
      }
      if(fs.size() > 3)count("ordered");
   }
   queries(r, A + "/missing", h);
   distinct(hashStr(h));
   sample(h);
   count("trees");
   wipe(base);
}
// A folder of this process in a second file system (/dev/shm), removed at the end of the process
struct Second
{
   B dir;
   Second()
   {
      char t[] = "/dev/shm/vh-p19-XXXXXX";
      struct stat a, b;
      if(!mkdtemp(t))return;
      dir = t;
      if(stat(t, &a) != 0 || stat(st().scratch.c_str(), &b) != 0 || a.st_dev == b.st_dev)
      {
         rmdir(t);
         dir = "";
      }
   }
   ~Second() { if(dir.size())rmdir(dir.c_str()); }
   static const B& get() { static Second s; return s.dir; }
};
VH_WORKLOAD(tags, 300, 5000)
{
   Rng& r = c.r;
   const B& shm = Second::get();
   bool large = shm.size() && r.chance(0.3);
   B p = (large ? shm : st().scratch) + "/tagged";
   int fd = open(p.c_str(), O_WRONLY | O_CREAT, 0600);
   close(fd);
   struct Gone { const B& p; ~Gone() { unlink(p.c_str()); } } gone{p};
   if(setxattr(p.c_str(), "user.xdg.tags", "", 0, 0) != 0)
   {
      count("tagsUnsupported");
      throw Skip();
   }
   removexattr(p.c_str(), "user.xdg.tags");
   std::vector<U> m;
   jm::File f(js(p));
   std::string h;
   size_t bytes = 0;
   for(int k = (int)r.range(1, 12); k--;)
   {
      static const char16_t* T[] = {u"red", u"work", u"\u00e4\u20ac", u"a b", u"re", u"redder"};
      U t = T[r.below(6)];
      bool add = r.chance(0.6);
      if(r.chance(0.3))
      {
         // long ones: about 3 kB altogether where ext4 keeps them, about 40 kB in the other file system
         size_t n = (size_t)r.range(1, large ? 8000 : 900);
         if(bytes + n < (large ? 40000u : 2800u))
         {
            t = U(n, (char16_t)('a' + r.below(26)));
            bytes += n + 1;
            add = true;
            if(bytes > 4096)count("manyTags");
         }
      }
      h += (add ? "add " : "remove ") + show(t) + " ";
      Status s = add ? f.addTag(mk(t)) : f.removeTag(mk(t));
      VH_CHECK(s == Status::eOK, "tag-status", h);
      auto it = std::find(m.begin(), m.end(), t);
      if(add && it == m.end())m.push_back(t);
      if(!add && it != m.end())m.erase(it);
      StringList l = f.getTags();
      std::vector<U> g;
      for(int64 q = 0; q < l.size(); q++)g.push_back(rd(l.get(q)));
      VH_CHECK(g == m, "tags", h << ": " << g.size() << " tags instead of " << m.size());
   }
   count("tags");
   distinct(hashStr(h));
}
// A rename that the operating system refuses changes neither the file nor the object
VH_WORKLOAD(refused, 200, 2000)
{
   Rng& r = c.r;
   B base = st().scratch + "/p19r";
   wipe(base);
   mkdir(base.c_str(), 0755);
   B a = base + "/from" + std::to_string(r.below(100)), to;
   bool dir = r.chance(0.3);
   if(dir)mkdir(a.c_str(), 0755);
   else
   {
      int fd = open(a.c_str(), O_WRONLY | O_CREAT, 0644);
      if(write(fd, a.data(), a.size()) < 0)abort();
      close(fd);
   }
   switch(r.below(6))
   {
      case 0:
      case 1:
         if(Second::get().empty())throw Skip();
         to = Second::get() + "/x";
         count("otherFileSystem");
         break;
      case 2: to = base + "/" + B((size_t)r.range(256, 300), 'n'); break;
      case 3: to = base + "/missing/x"; break;
      case 4: to = a + "/x"; break;
      default:
         to = base + "/closed/x";
         mkdir((base + "/closed").c_str(), 0555);
   }
   jm::File f(js(a));
   bool g = f.renameTo(js(to));
   struct stat sb;
   bool there = lstat(a.c_str(), &sb) == 0, arrived = lstat(to.c_str(), &sb) == 0;
   if(arrived)::remove(to.c_str());
   VH_CHECK(!g && there && !arrived, "refused", a << " -> " << to << ": " << g << " there " << there << " arrived " << arrived);
   VH_CHECK(str(f.path()) == a && f.exists(), "refused-path", a << " -> " << to << ": " << str(f.path()));
   wipe(base);
   count("refused");
}
// A folder is listed while entries come and go: what is there all the time is listed exactly once, nothing else is invented
VH_WORKLOAD(changing, 60, 1500)
{
   Rng& r = c.r;
   B base = st().scratch + "/p19c";
   wipe(base);
   mkdir(base.c_str(), 0755);
   std::set<B> stable;
   const bool large = r.chance(0.1);
   if(large)count("largeFolders");
   for(int n = (int)(large ? r.range(1000, 9000) : r.range(0, 400)); n--;)
   {
      B name = "s" + std::to_string(n) + B(r.chance(0.1) ? (size_t)r.range(1, 200) : 0, 'x');
      stable.insert(name);
      close(open((base + "/" + name).c_str(), O_CREAT | O_WRONLY, 0644));
   }
   std::atomic<bool> stop(false);
   std::atomic<uint64_t> changes(0);
   const int N = (int)r.range(1, 60);
   std::thread other([&]
   {
      Rng q(c.seed ^ 0x9191);
      while(!stop)
      {
         B p = base + "/t" + std::to_string(q.below((uint64_t)N));
         if(q.chance(0.6))close(open(p.c_str(), O_CREAT | O_WRONLY, 0644));
         else unlink(p.c_str());
         changes++;
      }
   });
   std::string bad;
   for(int k = 0; k < (large ? 5 : 30) && bad.empty(); k++)
   {
      uint64_t before = changes;
      std::unique_ptr<Array<jm::File>> list;
      try { list.reset(jm::File(js(base)).listFiles()); }
      catch(Exception& e) { bad = "exception: " + str(e.errorMessage()); break; }
      if(changes != before)count("changedWhileListed");
      if(!list) { bad = "no list"; break; }
      std::map<B, int> got;
      for(int64 i = 0; i < list->size(); i++)
      {
         jm::File& e = (*list)[i];
         if(e.isNull()) { bad = "entry " + std::to_string(i) + " of " + std::to_string(list->size()) + " is no file"; break; }
         got[str(e.name())]++;
      }
      for(auto& n : stable)if(bad.empty() && got[n] != 1)bad = n + " is listed " + std::to_string(got[n]) + " times";
      for(auto& g : got)if(bad.empty() && g.first != "." && g.first != ".." && !stable.count(g.first) && g.first[0] != 't')bad = "never there: " + g.first;
   }
   stop = true;
   other.join();
   wipe(base);
   VH_CHECK(bad.empty(), "changing", bad);
   count("changingFolders");
}
VH_WORKLOAD(places, 1, 1)
{
   char b[4096], e[4096];
   if(!getcwd(b, sizeof b))return;
   ssize_t n = readlink("/proc/self/exe", e, sizeof e - 1);
   B exe(e, (size_t)std::max<ssize_t>(n, 0));
   VH_CHECK(str(currentDir().path()) == b, "currentDir", str(currentDir().path()));
   VH_CHECK(str(ExecPath()) == exe, "ExecPath", str(ExecPath()));
   VH_CHECK(str(ExecDir()) + "/" + str(ExecName()) == exe, "ExecDir", str(ExecDir()));
}
VH_REQUIRE("largeFolders", "changedWhileListed", "changingFolders", "paths", "longPaths", "fileModes", "dirModes", "closedDirs", "listClosed", "refused", "ordered", "rejoined", "root", "trees", "files", "dirs", "links", "fifos", "missing", "listed", "respelled", "madeDir", "madeDirNot", "created", "createdNot", "removed", "removedNot", "renamed", "renamedNot")
VH_DRIVER("P19", "Path parts equal the reference on strings; every query equals the POSIX answer for the same path; after every operation the library's tree and the POSIX mirror tree are identical")
