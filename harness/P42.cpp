// P42: difference reports.
// VH-TECH: every report function for all operations and value pairs (limits, equal, nearly equal, unequal) with the console captured and parsed: which lines appear, their values and the exact delta computed with 128 bits; object reports against the objects' names, types and calls; ASan+UBSan
#include "vh.hpp"
using namespace vh;
using namespace jm;
struct Capture
{
   std::ostringstream o;
   std::streambuf* a;
   Capture() { a = std::cout.rdbuf(o.rdbuf()); }
   ~Capture() { std::cout.rdbuf(a); }
};
// The words of the only line printed; nothing at all if nothing was printed
static std::vector<std::string> words(const std::string& s)
{
   std::vector<std::string> v;
   std::istringstream i(s);
   std::string w;
   while(i >> w)v.push_back(w);
   return v;
}
static std::string join(const std::vector<std::string>& v) { std::string s; for(auto& x : v)s += (s.empty() ? "" : " ") + x; return s; }
static const DiffOperation OPS[] = {DiffOperation::kDiffAdd, DiffOperation::kDiffDelete, DiffOperation::kDiffModified, DiffOperation::kDiffModified, DiffOperation::kDiffEqual, DiffOperation::kDiffStart};
static std::string label(Rng& r) { std::string s; for(int n = r.chance(0.05) ? (int)r.range(60, 300) : (int)r.range(1, 8); n--;)s += (char)r.range('a', 'z'); return s; }
static void judge(const std::string& out, DiffOperation op, const std::string& lab, const std::string& a, const std::string& b, bool differ, const std::string& delta, const char* kind)
{
   std::string want;
   if(op == DiffOperation::kDiffAdd || op == DiffOperation::kDiffDelete)want = lab + ": " + a;
   else if(op == DiffOperation::kDiffModified && differ)want = lab + ": " + a + " -> " + b + (delta.size() ? " delta: " + delta : "");
   VH_CHECK(join(words(out)) == join(words(want)), std::string("report-") + kind, "operation " << (int)op << " of " << a << " and " << b << " prints '" << out << "' instead of '" << want << "'");
   VH_CHECK(want.empty() ? out.empty() : std::count(out.begin(), out.end(), '\n') == 1 && out.back() == '\n', std::string("lines-") + kind, out);
   // one level below the object it belongs to
   if(want.size())VH_CHECK(out.find_first_not_of(' ') == 2, std::string("indent-") + kind, "'" << out << "' is not indented by one level");
   count(want.empty() ? "silent" : "printed");
   count(std::string("kind:") + kind);
}
static std::string dec(__int128 v)
{
   bool n = v < 0;
   unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
   std::string s;
   do s.insert(s.begin(), (char)('0' + (int)(u % 10))); while(u /= 10);
   return n ? "-" + s : s;
}
template<class T> static T number(Rng& r)
{
   T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
   switch(r.below(4))
   {
      case 0: return r.chance(0.5) ? lo : hi;
      case 1: return (T)r.range(-3, 3);
      case 2: return (T)(r.u64() >> r.below(60));
      default: return (T)((uint64_t)(r.chance(0.5) ? lo : hi) + (uint64_t)r.range(-2, 2));
   }
}
template<class T> static void integers(Rng& r, const char* kind)
{
   T a = number<T>(r), b = r.chance(0.2) ? a : r.chance(0.3) ? (T)((uint64_t)a + (uint64_t)r.range(-2, 2)) : number<T>(r);
   DiffOperation op = OPS[r.below(6)];
   std::string l = label(r), out;
   { Capture c; DiffInfo::print(op, a, b, jm::String(l.c_str())); out = c.o.str(); }
   judge(out, op, l, dec(a), dec(b), a != b, dec((__int128)b - (__int128)a), kind);
}
template<class T> static std::string text(const T& v) { std::ostringstream o; o << v; return o.str(); }
static double real(Rng& r) { return r.chance(0.4) ? (double)r.range(-20, 20) / 4 : r.real(-1, 1) * pow(10, (double)r.range(-3, 9)); }
static std::string word(Rng& r) { std::string s; for(int n = r.chance(0.05) ? (int)r.range(100, 900) : (int)r.range(1, 6); n--;)s += (char)(r.chance(0.5) ? r.range('a', 'd') : r.range('A', 'D')); return s; }
VH_WORKLOAD(values, 60000, 1500000)
{
   Rng& r = c.r;
   DiffOperation op = OPS[r.below(6)];
   std::string l = label(r), out;
   jm::String lab(l.c_str());
   switch(r.below(9))
   {
      case 0: integers<int32_t>(r, "int32"); break;
      case 1: integers<uint32_t>(r, "uint32"); break;
      case 2: integers<int64>(r, "int64"); break;
      case 3: integers<uint64>(r, "uint64"); break;
      case 4:
      {
         double a = real(r), b = a;
         bool differ = r.chance(0.6);
         if(differ)b = a + (r.chance(0.5) ? 1 : -1) * std::max(1e-3, fabs(a) * r.real(1e-3, 2));
         else if(r.chance(0.5))b = a + 1e-9 * r.real(-1, 1);
         { Capture q; DiffInfo::print(op, a, b, lab); out = q.o.str(); }
         judge(out, op, l, text(a), text(b), differ, text(b - a), "double");
         break;
      }
      case 5:
      {
         std::string a = word(r), b = r.chance(0.4) ? a : word(r);
         if(r.chance(0.3) && a.size()) { b = a; b[r.below(b.size())] ^= 0x20; }
         { Capture q; DiffInfo::print(op, jm::String(a.c_str()), jm::String(b.c_str()), lab); out = q.o.str(); }
         judge(out, op, l, a, b, a != b, "", "text");
         break;
      }
      case 6:
      {
         std::string a = word(r), b = r.chance(0.3) ? word(r) : a;
         for(auto& x : b)if(r.chance(0.4))x ^= 0x20;
         std::string f = a, g = b;
         for(auto& x : f)x |= 0x20;
         for(auto& x : g)x |= 0x20;
         { Capture q; DiffInfo::printIgnoreCase(op, jm::String(a.c_str()), jm::String(b.c_str()), lab); out = q.o.str(); }
         judge(out, op, l, a, b, f != g, "", "ignoreCase");
         break;
      }
      case 7: case 8:
      {
         bool three = r.chance(0.5);
         double a[3] = {real(r), real(r), real(r)}, b[3] = {a[0], a[1], a[2]};
         int dim = three ? 3 : 2;
         bool differ = r.chance(0.6);
         if(differ) { int i = (int)r.below((uint64_t)dim); b[i] += (r.chance(0.5) ? 1 : -1) * std::max(1e-3, fabs(a[i]) * r.real(1e-3, 2)); }
         auto t = [&](double* p) { std::ostringstream o; o << "["; for(int i = 0; i < dim; i++)o << (i ? " " : "") << p[i]; o << "]"; return o.str(); };
         {
            Capture q;
            if(three)DiffInfo::print(op, Vertex3(a[0], a[1], a[2]), Vertex3(b[0], b[1], b[2]), lab);
            else DiffInfo::print(op, Vertex2(a[0], a[1]), Vertex2(b[0], b[1]), lab);
            out = q.o.str();
         }
         judge(out, op, l, t(a), t(b), differ, "", three ? "vertex3" : "vertex2");
         if(three) { jm::String s; s << Vertex3(a[0], a[1], a[2]); count("vertexText"); VH_CHECK(s.size() > 4 && s.charAt(0) == Char('[') && s.charAt(s.size() - 1) == Char(']'), "vertex-text", show(s)); }
         break;
      }
   }
   distinct(hashStr(l + out));
}
struct Named: public Object
{
   std::string n;
   mutable int calls = 0;
   mutable Object* with = nullptr;
   mutable DiffOperation op = DiffOperation::kDiffStart;
   explicit Named(std::string s): n(std::move(s)) {}
   jm::String displayName() const override { return jm::String(n.c_str()); }
   void printDiffInfo(DiffOperation o, Object* other) const override
   {
      calls++;
      op = o;
      with = other;
      DiffInfo::print(o, (int64)1, (int64)3, "size");
   }
};
struct Other: public Named { using Named::Named; };
VH_WORKLOAD(objects, 20000, 400000)
{
   Rng& r = c.r;
   auto make = [&]() -> Named* { return r.chance(0.3) ? new Other(word(r)) : new Named(word(r)); };
   Named* a = make(), *b = r.chance(0.2) ? nullptr : make();
   bool swapNull = r.chance(0.1);
   DiffInfo info;
   if(r.chance(0.3)) { DiffInfo copy(info); Capture q; copy.print(DiffOperation::kDiffEqual, a, a); VH_CHECK(q.o.str().empty(), "equal", q.o.str()); }
   for(int k = (int)r.range(1, 3); k--;)
   {
      DiffOperation op = OPS[r.below(6)];
      Object* x = swapNull && !b ? nullptr : a, *y = b;
      a->calls = 0;
      if(b)b->calls = 0;
      std::string out, want;
      bool detail = false;
      { Capture q; info.print(op, x, y); out = q.o.str(); }
      if(!x) { VH_CHECK(out.empty(), "nothing", out); count("nothing"); continue; }
      if(op == DiffOperation::kDiffAdd)want = "A " + a->n;
      else if(op == DiffOperation::kDiffDelete)want = "D " + a->n;
      else if(op == DiffOperation::kDiffModified)
      {
         if(b && typeid(*a) != typeid(*b)) { want = "R " + a->n + " -> " + b->n + ":"; count("replaced"); }
         else { want = "M " + a->n + " size: 1 -> 3 delta: 2"; detail = true; count("modified"); }
      }
      VH_CHECK(join(words(out)) == want, "object", "operation " << (int)op << " prints '" << out << "' instead of '" << want << "'");
      if(want.size())
      {
         size_t nl = out.find('\n');
         VH_CHECK(nl != std::string::npos && (detail ? nl + 1 < out.size() && out.find_first_not_of(' ', nl + 1) == nl + 3 : nl + 1 == out.size()), "object-lines", "'" << out << "'");
         VH_CHECK(out[0] != ' ', "object-indent", "'" << out << "' is indented");
      }
      VH_CHECK(a->calls == (detail ? 1 : 0) && (!b || b->calls == 0), "details", a->calls << " calls for operation " << (int)op);
      if(detail)VH_CHECK(a->with == y && a->op == op, "details-of", "");
      count("objects");
      distinct(hashStr(want));
   }
   a->release();
   if(b)b->release();
}
VH_REQUIRE("printed", "silent", "kind:int32", "kind:uint32", "kind:int64", "kind:uint64", "kind:double", "kind:text", "kind:ignoreCase", "kind:vertex2", "kind:vertex3", "objects", "replaced", "modified", "nothing")
VH_DRIVER("P42", "the words of every printed line and the number of lines")
