// P15: parsing arbitrary XML.
// VH-CONFIG: libs=-lexpat
// VH-CONFIG: hang=20
// VH-TECH: generated well-formed documents and mutated, truncated and random input through SAXParser (string and file); event lists compared with expat on everything expat accepts, termination and memory watched on the rest; ASan+UBSan and an allocation-growth monitor
#include "xml_gen.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vh;
using namespace jm;
struct Gen
{
   Rng& r;
   std::string o;
   int budget;
   bool declared = false;   // the document declares le, ge, leq and geq, which the library knows
   std::string ws(bool need)
   {
      std::string s;
      int n = (int)r.below(4) - 1;
      if(n < 1)n = need ? 1 : 0;
      while(n--)s += r.chance(0.7) ? ' ' : r.chance(0.5) ? '\n' : '\t';
      return s;
   }
   void cp(uint32_t c)
   {
      U u;
      if(c > 0xFFFF) { u += (char16_t)(0xD800 + ((c - 0x10000) >> 10)); u += (char16_t)(0xDC00 + (c & 0x3FF)); }
      else u += (char16_t)c;
      o += u8(u);
   }
   uint32_t code()
   {
      switch(r.below(8))
      {
         case 0: { static const uint32_t T[] = {9, 10, 13, 32, 38, 60, 62, 34, 39, 0x10FFFF, 0x10000, 0xFFFD, 0xE000, 0xD7FF, 0xFFFF + 1, 0x7f, 0x80, 0x85}; return T[r.below(18)]; }
         case 1: return (uint32_t)r.range(0x10000, 0x10FFFF);
         case 2: return (uint32_t)r.range(0xA0, 0xD7FF);
         default: return (uint32_t)r.range(33, 126);
      }
   }
   void ref()
   {
      static const char* E[] = {"&lt;", "&gt;", "&amp;", "&quot;", "&apos;"};
      if(declared && r.chance(0.3))
      {
         static const char* X[] = {"&le;", "&ge;", "&leq;", "&geq;"};
         o += X[r.below(4)];
         count("declaredReferences");
      }
      else if(r.chance(0.6))o += E[r.below(5)];
      else
      {
         char b[40];
         uint32_t k = code();
         int z = r.chance(0.2) ? (int)r.range(1, 6) : 0;
         o += "&#";
         if(r.chance(0.5)) { snprintf(b, sizeof b, r.chance(0.5) ? "%x" : "%X", k); o += "x"; }
         else snprintf(b, sizeof b, "%u", k);
         o += std::string((size_t)z, '0') + b + ";";
         count("numericReferences");
      }
   }
   void chars(size_t n, char quote, bool cdata)
   {
      while(n--)
      {
         if(!cdata && r.chance(0.1)) { ref(); continue; }
         U u;
         xmlChar(r, u);
         char16_t k = u[0];
         if(k == '\r')k = u[0] = 'r';
         if(quote && (k == '\t' || k == '\n'))k = u[0] = ' ';
         if(!cdata && (k == '<' || k == '&' || (quote && k == (char16_t)quote)))continue;
         if(k == '>' && !quote && o.size() >= 2 && o.compare(o.size() - 2, 2, "]]") == 0)continue;
         o += u8(u);
      }
   }
   void comment()
   {
      static const char* P[] = {"<a>", "'", "\"", ">", "</b", "&", "]]>", "<?x", "?>", " - ", "a", " ", "\n", "<![CDATA[", "/>", "<!", "&lt;", "\xc3\xa4"};
      o += "<!--";
      for(int n = (int)r.below(6); n--;)o += P[r.below(18)];
      if(o.back() == '-')o += ' ';
      o += "-->";
      count("comments");
   }
   void pi(bool dtd = false)
   {
      static const char* P[] = {"<a>", "'", "\"", ">", "</b", "&", "]]>", "<!--", "-->", "x=\"1\"", " ", "a", "?", "/>", "\xe2\x82\xac"};
      std::string t = u8(xmlName(r));
      for(auto& ch : t)if(ch == ':')ch = '_';
      if(dtd)t = "DTDPI" + t;
      o += "<?" + t;
      if(r.chance(0.8))
      {
         o += ws(true);
         std::string d;
         for(int n = (int)r.below(6); n--;)d += P[r.below(15)];
         for(size_t k; (k = d.find("?>")) != std::string::npos;)d.erase(k, 1);
         if(d.size() && d.back() == '?')d += ' ';
         o += d;
      }
      o += "?>";
      count("instructions");
   }
   void cdata()
   {
      o += "<![CDATA[";
      size_t from = o.size();
      static const char* P[] = {"<a>", "</a>", "&amp;", "<!--", "]]", "]", ">", "<?x?>", "'", "\"", " ", "x", "\n", "&", "<"};
      for(int n = (int)r.below(7); n--;)
      {
         if(r.chance(0.3))chars(2, 0, true);
         else o += P[r.below(15)];
      }
      for(size_t k; (k = o.find("]]>", from)) != std::string::npos;)o.erase(k, 1);
      while(o.size() > from && o.back() == ']')o.pop_back();
      if(r.chance(0.1))o += "]";
      if(o.size() >= from + 1 && o.back() == ']' && r.chance(0.5))o += "]";
      o += "]]>";
      count("cdata");
   }
   void misc()
   {
      for(int n = (int)r.below(3); n--;)
      {
         o += ws(false);
         if(r.chance(0.3))comment();
         if(r.chance(0.2))pi();
      }
   }
   void element(int d)
   {
      budget--;
      std::string n = u8(xmlName(r));
      o += "<" + n;
      std::set<std::string> used;
      for(int k = r.chance(0.4) ? 0 : (int)r.range(1, 6); k--;)
      {
         std::string a = u8(xmlName(r));
         if(!used.insert(a).second)continue;
         char q = r.chance(0.5) ? '"' : '\'';
         o += ws(true) + a + ws(false) + "=" + ws(false) + q;
         if(r.chance(0.85))chars(r.chance(0.02) ? 900 : r.below(14), q, false);
         o += q;
         count("attributes");
      }
      o += ws(false);
      if(r.chance(0.25)) { o += "/>"; count("emptyElements"); return; }
      o += ">";
      for(int k = (int)r.below(6); k--;)switch(r.below(8))
         {
            case 0: case 1: case 2: o += ws(false); chars(r.chance(0.02) ? 2000 : r.below(20), 0, false); o += ws(false); break;
            case 3: if(r.chance(0.5))comment(); break;
            case 4: if(r.chance(0.4))pi(); break;
            case 5: if(r.chance(0.6))cdata(); break;
            default: if(d < 40 && budget > 0)element(d + 1);
         }
      o += "</" + n + ws(false) + ">";
   }
   void doctype()
   {
      o += "<!DOCTYPE" + ws(true) + "doc" + ws(false);
      if(r.chance(0.3))o += " SYSTEM \"x'>[.dtd\"";
      else if(r.chance(0.2))o += " PUBLIC '-//A//B (x)' 'u>]\"'";
      if(o.back() != '"' && o.back() != '\'')o += "";
      if(r.chance(0.7))
      {
         o += ws(false) + "[" + ws(false);
         if(r.chance(0.5))
         {
            declared = true;
            o += r.chance(0.5) ? "<!ENTITY le '&#x2264;'>\n<!ENTITY ge \"&#8805;\">" : "<!ENTITY ge '\xe2\x89\xa5'><!ENTITY le \"\xe2\x89\xa4\">";
            o += "<!ENTITY leq '\xe2\x89\xa4'><!ENTITY geq '\xe2\x89\xa5'>";
         }
         for(int n = (int)r.below(4); n--;)switch(r.below(4))
            {
               case 3: pi(true); count("dtdInstructions"); break;
               case 0: o += "<!ELEMENT e" + std::to_string(r.below(1000000)) + " (#PCDATA|b)*>"; break;
               case 1: comment(); break;
               case 2: o += "<!NOTATION n" + std::to_string(r.below(1000000)) + " SYSTEM '>]\"'>"; break;
            }
         o += ws(false) + "]" + ws(false);
      }
      o += ">";
      count("doctypes");
   }
   void document()
   {
      if(r.chance(0.6))
      {
         o += r.chance(0.5) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" : r.chance(0.5) ? "<?xml version='1.0'?>" : "<?xml version=\"1.0\" encoding='UTF-8' standalone=\"yes\" ?>";
      }
      misc();
      if(r.chance(0.25)) { doctype(); misc(); }
      element(0);
      misc();
   }
};
static void balance(const Evs& ev, const std::string& what)
{
   std::vector<std::string> st;
   for(auto& e : ev)
   {
      if(e.t == 'S')st.push_back(e.name);
      if(e.t == 'E')
      {
         VH_CHECK(st.size() && st.back() == e.name, "nesting", "end of " << e.name << " in " << what);
         st.pop_back();
      }
   }
   VH_CHECK(st.empty(), "unclosed", what);
}
static void feed(Rng& r, Rec& p, const std::string& xml, bool bom)
{
   if(r.chance(0.12))
   {
      std::string path = st().scratch + "/p15.xml";
      FILE* f = fopen(path.c_str(), "wb");
      if(bom && r.chance(0.3)) { fwrite("\xef\xbb\xbf", 1, 3, f); count("bom"); }
      fwrite(xml.data(), 1, xml.size(), f);
      fclose(f);
      jm::File file(jm::String(path.c_str()));
      p.parse(file);
      count("files");
   }
   else
   {
      ByteArray a((int64)xml.size(), 0);
      for(size_t i = 0; i < xml.size(); i++)a[(int64)i] = (uint8)xml[i];
      p.parse(jm::String(a));
   }
}
VH_WORKLOAD(wellformed, 14000, 400000)
{
   Rng& r = c.r;
   Gen g{r, "", (int)r.range(0, r.chance(0.05) ? 300 : 20)};
   g.document();
   Expat e;
   e.parse(g.o);
   std::string what = g.o.size() > 1500 ? g.o.substr(0, 1500) + "..." : g.o;
   if(!e.ok) { fail("generator", "expat rejects the generated document: " + e.err + " " + what); }
   Rec p;
   try { feed(r, p, g.o, true); }
   catch(jm::Exception& x) { fail("exception", excText(x) + " for " + what); }
   VH_CHECK(p.docs == 1 && p.ends == 1, "document-events", p.docs << " " << p.ends << what);
   VH_CHECK(!p.outside, "names", what);
   balance(p.ev, what);
   diffEvs(p.ev, e.ev, "events", what);
   distinct(hashBytes(g.o.data(), g.o.size()));
   count("documents");
   if(c.index < 3)sample(what.substr(0, 200));
}
static Evs spaced(Evs v)
{
   for(auto& e : v)for(auto& a : e.at)for(auto& ch : a.second)if(ch == '\t' || ch == '\n')ch = ' ';
   return v;
}
static size_t hostile(Rng& r, const std::string& xml)
{
   Rec p;
   bool thrown = false;
   std::string what = xml.size() > 600 ? xml.substr(0, 600) + "..." : xml;
   try { feed(r, p, xml, false); }
   catch(jm::Exception&) { thrown = true; count("exceptions"); }
   catch(std::exception& x) { fail("foreign-exception", std::string(x.what()) + " for " + what); }
   eval();
   // what an independent parser accepts must be read the same way
   bool dtd = xml.find("<!DOCTYPE") != std::string::npos || xml.find('\r') != std::string::npos, enc = false;
   size_t q = xml.find("?>");
   if(xml.compare(0, 5, "<?xml") == 0 && q != std::string::npos)
   {
      std::string decl = xml.substr(0, q);
      size_t k = decl.find("encoding");
      if(k != std::string::npos && decl.find("UTF-8", k) == std::string::npos)enc = true;
   }
   if(!dtd && !enc)
   {
      Expat e;
      e.parse(xml);
      if(e.ok)
      {
         VH_CHECK(!thrown, "exception", "for well-formed " << what);
         balance(p.ev, what);
         diffEvs(spaced(p.ev), spaced(e.ev), "events", what);
         count("acceptedMutants");
      }
      else count("malformed");
   }
   distinct(hashBytes(xml.data(), xml.size()));
   return p.events;
}
static std::string mutate(Rng& r, std::string s, const std::string& other)
{
   static const char* T[] = {"<", ">", "&", ";", "\"", "'", "/", "=", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE", "[", "]", "</", "/>", "&#", "&#x", "&#x110000;", "&#xD800;", "&#99999999999999999999;", "&amp", "&;", "< >", "<>", "</>", "<//>", "\xff", "\xc3", "\xed\xa0\x80", " ", "\n", "&lt;", "<a", "a=", "<!", "!", "?", "-"};
   for(int n = (int)r.range(1, 4); n--;)
   {
      size_t p = r.below(s.size() + 1), l = r.below(std::min<size_t>(30, s.size() - p) + 1);
      switch(r.below(7))
      {
         case 0: s = s.substr(0, p); break;
         case 1: s.erase(p, l); break;
         case 2: s.insert(p, T[r.below(sizeof T / sizeof *T)]); break;
         case 3: if(p < s.size())s[p] = (char)r.below(256); break;
         case 4: s.insert(p, s.substr(p, l)); break;
         case 5: if(p < s.size())s.replace(p, 1, T[r.below(sizeof T / sizeof *T)]); break;
         case 6: if(r.chance(0.3)) { size_t k = r.below(other.size() + 1); s = s.substr(0, p) + other.substr(k); } else s.erase(0, p); break;
      }
   }
   return s;
}
VH_WORKLOAD(mutated, 200, 8000)
{
   Rng& r = c.r;
   Gen a{r, "", (int)r.range(0, 8)}, b{r, "", (int)r.range(0, 5)};
   a.document();
   b.document();
   for(int k = 0; k < 60; k++)hostile(r, mutate(r, a.o, b.o));
}
VH_WORKLOAD(tokens, 3000, 100000)
{
   Rng& r = c.r;
   static const char* T[] = {"<", ">", "&", ";", "\"", "'", "/", "=", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE", "[", "]", "</", "/>", "&#", "&#x", "a", "b", " ", "\n", "&lt;", "<a", "<a>", "</a>", "a=\"x\"", "<a/>", "1", "x", "\xc3\xa4", "!", "-"};
   std::string s;
   if(r.chance(0.3))s = "<a>";
   for(int n = (int)r.range(0, 14); n--;)s += T[r.below(sizeof T / sizeof *T)];
   if(r.chance(0.2))s += "</a>";
   hostile(r, s);
}
VH_WORKLOAD(noise, 800, 30000)
{
   Rng& r = c.r;
   std::string s;
   for(int n = (int)r.below(r.chance(0.05) ? 5000 : 80); n--;)s += r.chance(0.5) ? (char)r.below(256) : "<>&;\"'/=!?-[] ax"[r.below(16)];
   hostile(r, s);
}
// Every string over a small alphabet up to length 5.
VH_WORKLOAD(exhaustive, 11, 11)
{
   static const char A[] = "<>&;\"'/=a !";
   size_t n = 0;
   for(int len = 0; len <= 4; len++)
   {
      long total = 1;
      for(int i = 0; i < len; i++)total *= 11;
      for(long k = 0; k < total; k++)
      {
         std::string s(1, A[c.index % 11]);
         for(long x = k, i = 0; i < len; i++, x /= 11)s += A[x % 11];
         Rec p;
         try { p.parse(jm::String(s.c_str())); } catch(jm::Exception&) {}
         n++;
      }
      beat();
   }
   count("exhaustive", n);
   eval(n);
}
// The parser object can be reused, documents do not leak, and long inputs end in time.
VH_WORKLOAD(reuse, 60, 800)
{
   Rng& r = c.r;
   Gen g{r, "", (int)r.range(1, 20)};
   g.document();
   jm::String x(g.o.c_str());
   Rec p;
   p.parse(x);
   Evs first = p.ev;
   size_t at = 0;
   for(int k = 0; k < 6; k++)
   {
      if(k == 3)at = __sanitizer_get_current_allocated_bytes();
      p.ev.clear();
      p.ev.shrink_to_fit();
      p.depth = 0;
      p.docs = p.ends = 0;
      p.events = 0;
      p.parse(x);
      diffEvs(p.ev, first, "reuse", g.o);
      p.ev.clear();
      p.ev.shrink_to_fit();
      if(k == 2)at = __sanitizer_get_current_allocated_bytes();
   }
   size_t now = __sanitizer_get_current_allocated_bytes();
   VH_CHECK(now <= at + 512, "leak", (long)(now - at) << " bytes after three more parses of " << g.o.substr(0, 300));
   count("reuses");
}
VH_WORKLOAD(large, 16, 120)
{
   Rng& r = c.r;
   std::string s = "<r>";
   static const char* P[] = {"<a>", "&amp;", "text ", "&#65;", "<b c='d'/>", "<!-- x -->", "<![CDATA[y]]>", "<?p q?>", "        ", "\n\n\n"};
   size_t n = (size_t)r.range(2000, 12000);
   const char* w = P[c.index % 10];
   for(size_t i = 0; i < n; i++)
   {
      s += w;
      if(w[1] == 'a' && w[0] == '<')s += "</a>";
   }
   s += "</r>";
   hostile(r, s);
   beat();
   // the same, unterminated
   Rec p;
   try { p.parse(jm::String((s.substr(0, s.size() - 5) + "&").c_str())); } catch(jm::Exception&) {}
   count("large");
}
// Every part of a document may be long.
VH_WORKLOAD(lengths, 84, 840)
{
   Rng& r = c.r;
   static const int N[] = {33, 64, 127, 128, 129, 255, 256, 257, 300, 511, 1000, 4096, 5000, 32767, 32768, 65535, 65536, 65537, 70000};
   const int kind = (int)(c.index % 14);
   const int n = N[r.below(kind >= 8 ? 13 : 19)];
   auto fill = [&](int len, const char* alphabet) { std::string o; size_t q = strlen(alphabet); while((int)o.size() < len)o += alphabet[r.below(q)]; return o; };
   const char* plain = "abcdef ghi\njklm>'=/!?[]()";
   std::string s = r.chance(0.3) ? "<?xml version='1.0' encoding='UTF-8'?>\n" : "", in;
   switch(kind)
   {
      case 0: in = "<!--" + fill(n, plain) + "-->"; break;
      case 1: in = "<![CDATA[" + fill(n, "abc <&>'\"= /") + "]]>"; break;
      case 2: in = "<?p " + fill(n, "abc <&>'\"= /") + "x?>"; break;
      case 3: s += "<!DOCTYPE r [<!-- " + fill(n, plain) + " --><!ENTITY e '" + fill(n, "abcde >]") + "'>]>"; break;
      case 4: in = "<" + std::string((size_t)n, 'n') + " a='b'></" + std::string((size_t)n, 'n') + ">"; break;
      case 5: in = "<e a='" + fill(n, "abc >\"=/") + "' " + std::string((size_t)n, 'v') + " = \"" + fill(n, "abc >'=/") + "\"/>"; break;
      case 6: in = "t" + fill(n, "abc def>'\"") + "t"; break;
      case 7: in = "&#" + std::string((size_t)n, '0') + "65;&#x" + std::string((size_t)n, '0') + "1F600;"; break;
      case 8: in = "a" + std::string((size_t)n, ' ') + "<e/>" + std::string((size_t)n, '\n') + "b" + std::string((size_t)n, '\t'); break;
      case 9: in = "<e" + std::string((size_t)n, ' ') + "a" + std::string((size_t)n, ' ') + "=" + std::string((size_t)n, '\n') + "'b'" + std::string((size_t)n, ' ') + "/></e2" + std::string((size_t)n, ' ') + ">"; in.replace(in.find("</e2"), 5, "<f></f"); break;
      case 10: in = "<e"; for(int k = 0; k < n; k++)in += " a" + std::to_string(k) + (k % 3 ? "='" : "=\"") + std::to_string(k) + (k % 3 ? "'" : "\""); in += ">x</e>"; break;
      case 11: { std::string e; for(int k = 0; k < n; k++) { std::string w = "e" + std::to_string(k % 11); in += "<" + w + ">"; e = "</" + w + ">" + e; } in += "deep" + e; break; }
      case 12: for(int k = 0; k < n; k++)in += k % 5 ? "&amp;" : "&lt;&#66;"; break;
      default: for(int k = 0; k < n; k++)in += k % 2 ? "<!-- -->" : "<![CDATA[]]>"; in += "x"; break;
   }
   s += "<r>" + in + "</r>";
   Expat e;
   e.parse(s);
   std::string what = "kind " + std::to_string(kind) + " length " + std::to_string(n);
   if(!e.ok)fail("generator", "expat rejects " + what + ": " + e.err);
   beat();
   Rec p;
   try { feed(r, p, s, true); }
   catch(jm::Exception& x) { fail("exception", excText(x) + " for " + what); }
   balance(p.ev, what);
   diffEvs(p.ev, spaced(e.ev), "events", what);
   distinct(hashStr(what));
   count("lengths");
}
VH_WORKLOAD(attributes, 2000, 40000)
{
   // the attribute list as a value
   Rng& r = c.r;
   std::vector<std::pair<U, U>> m, m2;
   SAXAttributes a;
   auto add = [&](SAXAttributes& x, std::vector<std::pair<U, U>>& v)
   {
      for(int n = (int)r.below(6); n--;)
      {
         U k = xmlName(r), t = xmlText(r, 10);
         if(r.chance(0.2) && v.size())k = v[r.below(v.size())].first;
         else if(r.chance(0.4) && v.size())
         {
            // a name that differs little
            k = v[r.below(v.size())].first;
            char16_t& x = k[r.below(k.size())];
            if(((x | 32) >= u'a' && (x | 32) <= u'z') && r.chance(0.7))x ^= 32;
            else if(r.chance(0.5))k += u'_';
            else if(k.size() > 1)k.pop_back();
         }
         x.addAttribute("", mk(k), mk(k), mk(t));
         v.push_back({k, t});
      }
   };
   auto same = [&](const SAXAttributes& x, const std::vector<std::pair<U, U>>& v)
   {
      VH_CHECK(x.count() == v.size(), "attribute-count", x.count() << " " << v.size());
      for(size_t i = 0; i < v.size(); i++)
      {
         VH_CHECK(rd(x.qualifiedName((uint32)i)) == v[i].first && rd(x.value((uint32)i)) == v[i].second, "attribute-item", i);
         size_t f = 0;
         while(v[f].first != v[i].first)f++;
         VH_CHECK(x.indexOf(mk(v[i].first)) == (int32)f && rd(x.value(mk(v[i].first))) == v[f].second && x.hasValue(mk(v[i].first)), "attribute-lookup", i);
         for(int q = 0; q < 2; q++)
         {
            U k = v[i].first;
            char16_t& y = k[r.below(k.size())];
            if(q && ((y | 32) >= u'a' && (y | 32) <= u'z'))y ^= 32;
            else k += u'.';
            bool in = false;
            for(auto& p : v)in = in || p.first == k;
            VH_CHECK(x.hasValue(mk(k)) == in && (x.indexOf(mk(k)) >= 0) == in && (in || x.value(mk(k)).isEmpty()) && (in || x.value("", mk(k)).isEmpty()), "attribute-absent", show(mk(k)));
         }
      }
   };
   add(a, m);
   SAXAttributes b(a), d;
   m2 = m;
   add(b, m2);
   same(a, m);
   same(b, m2);
   d.addAttribute("", "zz", "zz", "1");
   d = b;
   same(d, m2);
   d = *&d;
   same(d, m2);
   d = a;
   same(d, m);
   same(b, m2);
   int64 iv = (int64)r.u64() >> r.below(64);
   SAXAttributes u;
   u.addAttribute("", "i", "i", jm::String(std::to_string((long long)iv).c_str()));
   u.addAttribute("", "d", "d", "2.5");
   u.addAttribute("", "b", "b", r.chance(0.5) ? "TRUE" : "true");
   double dv = r.real(-1e6, 1e6);
   float fv = (float)dv;
   char ds[64];
   snprintf(ds, sizeof ds, "%.9f", dv);
   u.addAttribute("", "r", "r", ds);
   VH_CHECK(std::fabs(u.valueAsDouble("r") - dv) < 1e-6 && std::fabs(u.valueAsFloat("r") - fv) <= 1e-6 * std::fabs(fv) + 1e-9, "typed-values", ds);
   VH_CHECK(u.valueAsInt("i") == iv && !u.valueAsBool("r") && !u.valueAsBool("i"), "typed-values", ds);
   u.addAttribute("", "n", "n", "no");
   VH_CHECK(u.valueAsInt("i") == iv, "valueAsInt", iv);
   VH_CHECK(u.valueAsDouble("d") == 2.5 && u.valueAsFloat("d") == 2.5f && u.valueAsBool("b") && !u.valueAsBool("n") && !u.valueAsBool("q"), "typed-values", "");
   VH_CHECK(rd(u.value("", "d")) == rd(jm::String("2.5")) && u.indexOf("", "d") == 1, "uri-lookup", "");
   count("attributeLists");
}
VH_REQUIRE("lengths", "declaredReferences", "documents", "attributes", "emptyElements", "numericReferences", "comments", "instructions", "cdata", "doctypes", "dtdInstructions", "files", "bom", "acceptedMutants", "malformed", "exceptions", "exhaustive", "reuses", "large", "attributeLists")
VH_DRIVER("P15", "hang means a call did not return in time; events compared with expat on every input expat accepts (without DTD for mutants, white space in attributes normalised)")
