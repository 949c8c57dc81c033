// P46: texts and values in C++ streams.
// VH-TECH: generated sequences of texts, numbers and vectors written to C++ streams in every console character set and compared byte by byte with an independent encoding; line sequences of all lengths read back; numbers parsed back from the printed vectors; ASan+UBSan
#include "vh.hpp"
#include <iomanip>
using namespace vh;
using namespace jm;
struct Console
{
   ~Console() { jm::String::setConsoleCharset(Charset::forName("Windows-1252")); }
};
static void utf8(std::string& s, uint32_t p)
{
   if(p < 0x80)s += (char)p;
   else if(p < 0x800) { s += (char)(0xC0 | p >> 6); s += (char)(0x80 | (p & 63)); }
   else if(p < 0x10000) { s += (char)(0xE0 | p >> 12); s += (char)(0x80 | (p >> 6 & 63)); s += (char)(0x80 | (p & 63)); }
   else { s += (char)(0xF0 | p >> 18); s += (char)(0x80 | (p >> 12 & 63)); s += (char)(0x80 | (p >> 6 & 63)); s += (char)(0x80 | (p & 63)); }
}
static void unit(U& u, uint32_t p)
{
   if(p < 0x10000)u += (char16_t)p;
   else { u += (char16_t)(0xD800 + ((p - 0x10000) >> 10)); u += (char16_t)(0xDC00 + ((p - 0x10000) & 0x3FF)); }
}
// A text and its bytes in a character set
static void text(Rng& r, int cs, U& u, std::string& b, int64_t n, bool line)
{
   static const std::pair<char16_t, int> MAC[] = {{0xE4, 0x8A}, {0xF6, 0x9A}, {0xFC, 0x9F}, {0xC4, 0x80}, {0xDF, 0xA7}, {0xE9, 0x8E}, {0x20AC, 0xDB}, {0xA9, 0xA9}, {0x3C0, 0xB9}};
   static const std::pair<char16_t, int> WIN[] = {{0x20AC, 0x80}, {0x201E, 0x84}, {0x2026, 0x85}, {0x2030, 0x89}, {0x2022, 0x95}, {0x2122, 0x99}, {0x178, 0x9F}};
   while(n-- > 0)
   {
      if(r.chance(0.75)) { char ch = line || r.chance(0.9) ? (char)r.range(32, 126) : (char)r.range(1, 31); u += (char16_t)ch; b += ch; continue; }
      switch(cs)
      {
         case 0: { uint32_t p = r.chance(0.5) ? (uint32_t)r.range(0x80, 0x7FF) : r.chance(0.6) ? (uint32_t)r.range(0x800, 0xD7FF) : (uint32_t)r.range(0x10000, 0x10FFFF); unit(u, p); utf8(b, p); break; }
         case 1:
            if(r.chance(0.4)) { auto& w = WIN[r.below(7)]; u += w.first; b += (char)w.second; }
            else { int ch = (int)r.range(0xA0, 0xFF); u += (char16_t)ch; b += (char)ch; }
            break;
         case 2: { auto& w = MAC[r.below(9)]; u += w.first; b += (char)w.second; break; }
         default: u += u'x'; b += 'x'; break;
      }
   }
}
VH_WORKLOAD(writing, 20000, 600000)
{
   Rng& r = c.r;
   Console restore;
   static const char* CS[] = {"UTF-8", "Windows-1252", "MacRoman", "ASCII"};
   std::ostringstream out;
   std::string want;
   int cs = (int)r.below(4);
   jm::String::setConsoleCharset(Charset::forName(CS[cs]));
   std::vector<std::pair<jm::String, U>> kept;
   for(int k = (int)r.range(1, 8); k--;)
   {
      if(r.chance(0.1)) { cs = (int)r.below(4); jm::String::setConsoleCharset(Charset::forName(CS[cs])); }
      if(r.chance(0.03)) { cs = 1; jm::String::setConsoleCharset(nullptr); count("defaultCharset"); }
      if(r.chance(0.2)) { int64_t i = (int64_t)r.u64() >> r.below(64); out << i; want += std::to_string(i); }
      U u;
      std::string b;
      text(r, cs, u, b, r.chance(0.1) ? 0 : r.chance(0.03) ? borderLength(r, 14) : r.range(1, 20), false);
      jm::String s = mk(u);
      out << s;
      want += b;
      kept.push_back({s, u});
      VH_CHECK(out.str() == want, "written", "in " << CS[cs] << " " << show(u) << " gives the end of '" << out.str().substr(want.size() > 200 ? want.size() - 200 : 0) << "'");
      count(CS[cs]);
   }
   for(auto& x : kept)VH_CHECK(rd(x.first) == x.second, "changed", "writing changes the text");
   VH_CHECK(out.good(), "state", "");
   distinct(hashStr(want));
}
VH_WORKLOAD(reading, 12000, 400000)
{
   Rng& r = c.r;
   std::string all;
   std::vector<U> lines;
   std::vector<size_t> ends;
   for(int k = (int)r.range(0, 6); k--;)
   {
      U u;
      std::string b;
      int64_t n = r.chance(0.15) ? 0 : r.chance(0.2) ? r.range(250, 260) : r.chance(0.03) ? borderLength(r, 15) : r.range(1, 40);
      text(r, 0, u, b, n, true);
      if(r.chance(0.05)) { u += u'\r'; b += '\r'; }
      all += b;
      if(k || r.chance(0.5) || b.empty())all += '\n';
      lines.push_back(u);
      ends.push_back(all.size());
      if(b.size() > 255)count("longLines");
   }
   std::istringstream in(all);
   jm::String s("former content");
   size_t n = 0;
   bool ended = false;
   while(!ended && n <= lines.size())
   {
      if(!(in >> s)) { ended = true; break; }
      VH_CHECK(n < lines.size() && rd(s) == lines[n], "line", "line " << n << " of " << lines.size() << " is " << show(s) << (n < lines.size() ? " instead of " + show(lines[n]) : ""));
      auto at = in.tellg();
      VH_CHECK(at == std::istringstream::pos_type(-1) || (size_t)at == ends[n], "position", (long long)at << " after line " << n);
      n++;
      count("lines");
   }
   VH_CHECK(n == lines.size() && in.eof(), "lines-lost", n << " of " << lines.size() << " lines");
   // A failed reading stays failed
   VH_CHECK(!(in >> s), "after-end", show(s));
   distinct(hashStr(all));
}
static std::vector<double> numbers(std::string s)
{
   for(auto& ch : s)if(ch == '[' || ch == ']' || ch == ' ' || ch == ',')ch = '\n';
   std::vector<double> v;
   std::istringstream i(s);
   std::string w;
   while(i >> w) { char* e; double d = strtod(w.c_str(), &e); v.push_back(*e ? NAN : d); }
   return v;
}
VH_WORKLOAD(vectors, 20000, 600000)
{
   Rng& r = c.r;
   int kind = (int)r.below(5);
   const bool wide = kind != 3 && r.chance(0.1), large = r.chance(0.01);
   auto num = [&] { return wide && r.chance(0.5) ? r.real(-1, 1) * pow(10, (double)r.range(-300, 300)) : r.chance(0.2) ? (double)r.range(-3, 3) : r.chance(0.5) ? r.real(-1000, 1000) : r.real(-1, 1) * pow(10, (double)r.range(-8, 14)); };
   std::vector<double> v((size_t)large ? borderLength(r, 13) : r.range(0, r.chance(0.1) ? 40 : 5));
   if(wide)count("wideNumbers");
   if(large)count("largeVectors");
   for(auto& x : v)x = num();
   std::ostringstream o;
   o << std::setprecision(17);
   bool text = false;
   std::string got;
   const char* name = "";
   if(kind == 0)
   {
      name = "Vector";
      if(v.empty())v.push_back(num());
      Vector x((int64)v.size());
      for(size_t i = 0; i < v.size(); i++)x.data[i] = v[i];
      o << x;
   }
   else if(kind == 1) { name = "Vertex2"; v.resize(2); o << Vertex2(v[0], v[1]); }
   else if(kind == 2) { name = "Vertex3"; v.resize(3); o << Vertex3(v[0], v[1], v[2]); }
   else if(kind == 4)
   {
      // row by row to standard output
      name = "Matrix";
      uint32 rows = (uint32)r.range(1, r.chance(0.05) ? 70 : 5), cols = (uint32)r.range(1, large ? 700 : r.chance(0.05) ? 70 : 5);
      v.resize(rows * cols);
      Matrix m(rows, cols);
      for(uint32 i = 0; i < rows; i++)for(uint32 j = 0; j < cols; j++)m.set(i, j, v[i * cols + j] = num());
      auto* old = std::cout.rdbuf(o.rdbuf());
      auto prec = std::cout.precision(17);
      m.print();
      std::cout.precision(prec);
      std::cout.rdbuf(old);
      got = o.str();
      VH_CHECK((uint32)std::count(got.begin(), got.end(), '\n') == rows, "matrix-lines", rows << " rows printed as " << o.str());
   }
   else
   {
      name = "Vertex3 in a text";
      v.resize(3);
      jm::String s("a");
      s << Vertex3(v[0], v[1], v[2]);
      got = bytesOf(s.toCString());
      VH_CHECK(got.size() && got[0] == 'a', "text-before", got);
      got = got.substr(1);
      text = true;
   }
   if(!text)got = o.str();
   auto n = numbers(got);
   bool ok = n.size() == v.size();
   for(size_t i = 0; ok && i < v.size(); i++)ok = text ? fabs(n[i] - v[i]) <= 1e-9 * fabs(v[i]) : n[i] == v[i];
   VH_CHECK(ok, "numbers", name << " of " << v.size() << " numbers printed as " << got);
   VH_CHECK(kind == 4 || got.find('[') == got.find_first_not_of(' ') && got.find(']') == got.find_last_not_of(' '), "brackets", got);
   VH_CHECK(text || (o.precision() == 17 && o.good()), "stream-state", "");
   count(name);
   distinct(hashStr(got));
}
VH_REQUIRE("wideNumbers", "largeVectors", "UTF-8", "Windows-1252", "MacRoman", "ASCII", "defaultCharset", "lines", "longLines", "Matrix", "Vector", "Vertex2", "Vertex3", "Vertex3 in a text")
VH_DRIVER("P46", "bytes and lines of streams equal those of an independent encoding; printed numbers read back")
