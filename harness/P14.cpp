// P14: XML written by the library.
// VH-CONFIG: libs=-lexpat
// VH-TECH: random element trees written through XMLWriter (memory and file, with and without indentation), output judged by expat and by the library's SAX parser, event lists compared; ASan+UBSan
#include "xml_gen.hpp"
using namespace vh;
using namespace jm;
struct W
{
   Rng& r;
   XMLWriter& w;
   Evs ev;
   bool indent;
   int budget;
   std::string trail;
   bool large = false;
   void element(int depth)
   {
      budget--;
      U n = xmlName(r);
      if(indent && r.chance(0.5))
      {
         w.startIndent();
         count("indented");
         const bool early = r.chance(0.15);   // the indentation ends inside the element
         elementBody(n, depth, early);
         if(!early)w.endIndent();
         return;
      }
      elementBody(n, depth);
   }
   void elementBody(const U& n, int depth, bool early = false)
   {
      w.startElement(mk(n));
      Ev e{'S', u8(n), {}};
      std::set<U> used;
      for(int k = r.chance(0.4) ? 0 : (int)r.range(1, 5); k--;)
      {
         U an = xmlName(r);
         if(!used.insert(an).second)continue;
         jm::String name = mk(an);
         std::string val;
         switch(r.below(9))
         {
            case 0: { int32 v = (int32)r.u64(); if(r.chance(0.1))v = r.chance(0.5) ? INT32_MIN : INT32_MAX; w.writeAttribute(name, v); val = std::to_string(v); break; }
            case 1: { uint32 v = (uint32)r.u64(); if(r.chance(0.1))v = UINT32_MAX; w.writeAttribute(name, v); val = std::to_string(v); break; }
            case 2: { int64 v = (int64)r.u64() >> r.below(64); if(r.chance(0.1))v = r.chance(0.5) ? INT64_MIN : INT64_MAX; w.writeAttribute(name, v); val = std::to_string((long long)v); break; }
            case 3: { uint64 v = r.u64() >> r.below(64); if(r.chance(0.1))v = UINT64_MAX; w.writeAttribute(name, v); val = std::to_string((unsigned long long)v); break; }
            case 4: { double v = r.real(-1e6, 1e6); if(r.chance(0.3))v = (double)r.range(-1000, 1000); w.writeAttribute(name, v); val = "~" + std::string(Msg() << v); break; }
            case 5: { float v = (float)r.real(-1e4, 1e4); w.writeAttribute(name, v); val = "~" + std::string(Msg() << (double)v); break; }
            default: { U v = xmlText(r, r.chance(0.02) ? 3000 : 15); w.writeAttribute(name, mk(v)); val = u8(v); if(v.empty())count("emptyAttribute"); }
         }
         e.at.push_back({u8(an), val});
         count("attributes");
      }
      ev.push_back(e);
      bool content = false;
      if(early)
      {
         w.endIndent();
         count("earlyEnds");
         if(r.chance(0.5)) { w.writeCData("t"); addText(ev, "t"); }
         else { w.startElement("c"); w.endElement(); ev.push_back({'S', "c", {}}); ev.push_back({'E', "c", {}}); }
         content = true;
      }
      for(int k = depth == 0 ? (int)r.below((uint64_t)std::max(4, budget)) : (int)r.below(r.chance(0.3) ? 9 : 4); k--;)
      {
         if(r.chance(0.5))
         {
            if(r.chance(0.1))
            {
               size_t n64 = (size_t)r.range(1, 200);
               std::vector<uint8> d(n64);
               for(auto& b : d)b = (uint8)r.below(256);
               w.WriteBase64(d.data(), (int64)n64);
               static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
               std::string o;
               for(size_t i = 0; i < n64; i += 3)
               {
                  uint32_t v = d[i] << 16 | (i + 1 < n64 ? d[i + 1] << 8 : 0) | (i + 2 < n64 ? d[i + 2] : 0);
                  o += A[v >> 18];
                  o += A[v >> 12 & 63];
                  o += i + 1 < n64 ? A[v >> 6 & 63] : '=';
                  o += i + 2 < n64 ? A[v & 63] : '=';
               }
               addText(ev, o);
               count("base64");
            }
            else
            {
               U t = xmlText(r, r.chance(large ? 0.3 : 0.02) ? 5000 : 25);
               const bool raw = r.chance(0.1);
               if(raw)
               {
                  // already encoded text, on its own or before other text
                  U p = r.chance(0.3) ? u"x & y <" : xmlText(r, 12), enc;
                  for(auto x : p)
                  {
                     if(x == u'&' && r.chance(0.7))enc += u"&amp;";
                     else if(x == u'<' && r.chance(0.7))enc += u"&lt;";
                     else if(x == u'&' || x == u'<' || x == u'>' || x == u'\r' || (x < 0x80 && r.chance(0.05)))
                     {
                        char b[16];
                        if(r.chance(0.5))snprintf(b, sizeof b, "&#%u;", (unsigned)x);
                        else snprintf(b, sizeof b, "&#x%x;", (unsigned)x);
                        for(char* q = b; *q; q++)enc += (char16_t)*q;
                     }
                     else enc += x;
                  }
                  w.writeCData(mk(enc), false);
                  addText(ev, u8(p));
                  count("rawTexts");
                  if(r.chance(0.5))t.clear();
               }
               if(!t.empty() || !raw || r.chance(0.5))w.writeCData(mk(t));
               addText(ev, u8(t));
               count("texts");
            }
            content = true;
         }
         else if(depth < 12 && budget > 0)
         {
            element(depth + 1);
            content = true;
         }
         if(content && r.chance(0.1))
         {
            w.writeAttribute("late", jm::String("x"));   // too late: must not damage the document
            count("lateAttributes");
         }
      }
      w.endElement();
      ev.push_back({'E', u8(n), {}});
      if(!content)count("emptyElements");
   }
};
static std::string strip(const std::string& s)
{
   size_t a = s.find_first_not_of(" \n"), b = s.find_last_not_of(" \n");
   return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
// With indentation white space between tags is free; the text of an element without child elements is not touched by it.
static Evs loose(const Evs& v)
{
   Evs o;
   for(size_t i = 0; i < v.size(); i++)
   {
      Ev e = v[i];
      if(e.t == 'T' && !(i && i + 1 < v.size() && v[i - 1].t == 'S' && v[i + 1].t == 'E'))
      {
         e.name = strip(e.name);
         if(e.name.empty())continue;
      }
      o.push_back(e);
   }
   return o;
}
static void numbers(Evs& want, const Evs& got, const std::string& what)
{
   // numeric attributes: the written text is the number
   for(size_t i = 0; i < want.size() && i < got.size(); i++)for(size_t k = 0; k < want[i].at.size() && k < got[i].at.size(); k++)
   {
      std::string& x = want[i].at[k].second;
      if(x.empty() || x[0] != '~')continue;
      double v = atof(x.c_str() + 1);
      char* end = nullptr;
      const std::string& g = got[i].at[k].second;
      double q = strtod(g.c_str(), &end);
      VH_CHECK(g.size() && !*end && std::fabs(q - v) <= 5.1e-6 + 1e-9 * std::fabs(v), "number-attribute", what << ": " << v << " written as " << g);
      x = g;
   }
}
VH_WORKLOAD(roundtrip, 12000, 300000)
{
   Rng& r = c.r;
   bool indent = r.chance(0.3), file = r.chance(0.15), large = r.chance(0.002);
   std::string path = st().scratch + "/x.xml";
   std::unique_ptr<uint8[]> buf(new uint8[4 << 20]);
   std::unique_ptr<Stream> s;
   if(file)s.reset(new jm::File(jm::String(path.c_str())));
   else s.reset(new MemoryStream(buf.get(), 4 << 20));
   Evs want;
   {
      XMLWriter x(s.get());
      x.startDocument();
      W w{r, x, {}, indent, large ? 400 : (int)r.range(1, r.chance(0.01) ? 400 : 30), "", large};
      w.element(0);
      x.endDocument();
      want = w.ev;
   }
   std::string out;
   if(file)
   {
      VH_CHECK(!s->isOpen(), "not-closed", "endDocument left the stream open");
      FILE* f = fopen(path.c_str(), "rb");
      char b[8192];
      size_t n;
      while((n = fread(b, 1, sizeof b, f)) > 0)out.append(b, n);
      fclose(f);
      count("files");
   }
   else out.assign((char*)buf.get(), (size_t)static_cast<MemoryStream*>(s.get())->mWritelength);
   std::string what = out.size() > 1500 ? out.substr(0, 1500) + "..." : out;
   VH_CHECK(out.compare(0, 38, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>") == 0, "declaration", what);
   Expat e;
   e.parse(out);
   VH_CHECK(e.ok, "not-well-formed", "expat: " << e.err << " in " << what);
   Evs a = indent ? loose(e.ev) : e.ev, w1 = indent ? loose(want) : want, w2 = w1;
   numbers(w1, a, what);
   diffEvs(a, w1, "independent-parser", what);
   Rec p;
   try
   {
      if(file && r.chance(0.7))
      {
         jm::File f(jm::String(path.c_str()));
         p.parse(f);
      }
      else p.parse(jm::String(out.c_str(), (int64)out.size()));
   }
   catch(jm::Exception& x)
   {
      fail("rejected", what + ": " + excText(x));
   }
   VH_CHECK(p.docs == 1 && p.ends == 1 && p.depth == 0 && !p.outside, "document-events", what << ": " << p.docs << " " << p.ends << " " << p.depth);
   Evs b = indent ? loose(p.ev) : p.ev;
   numbers(w2, b, what);
   diffEvs(b, w2, "own-parser", what);
   distinct(hashStr(out));
   if(out.size() > 70000)count("largeDocuments");
   sample(out.substr(0, 300));
   count("documents");
}
// Every measure of a document may be large: attributes of an element, nesting, names, values, text, children.
VH_WORKLOAD(sizes, 48, 480)
{
   Rng& r = c.r;
   static const int N[] = {33, 64, 127, 128, 129, 255, 256, 257, 300, 511, 1000, 4096, 5000, 32768, 65535, 65536, 65537, 70000};
   const int kind = (int)(c.index % 6), cap = kind == 0 || kind == 1 || kind == 5 ? 13 : 18;
   const int n = N[r.below((uint64_t)cap)];
   const bool indent = kind == 1 && n <= 1000 && r.chance(0.3);
   std::unique_ptr<uint8[]> buf(new uint8[16 << 20]);
   MemoryStream ms(buf.get(), 16 << 20);
   Evs want;
   {
      XMLWriter x(&ms);
      x.startDocument();
      if(indent)x.startIndent();
      auto start = [&](const std::string& name, const std::vector<std::pair<std::string, std::string>>& at)
      {
         x.startElement(jm::String(name.c_str()));
         for(auto& a : at)x.writeAttribute(jm::String(a.first.c_str()), jm::String(a.second.c_str()));
         want.push_back({'S', name, at});
      };
      auto end = [&](const std::string& name) { x.endElement(); want.push_back({'E', name, {}}); };
      auto word = [&](int len) { std::string o(1, (char)('a' + r.below(26))); while((int)o.size() < len)o += "abcdefghijklmnopqrstuvwxyz-._0123456789"[r.below(39)]; return o; };
      auto text = [&](int len) { std::string o; while((int)o.size() < len)o += "abcdef ghijklmno<>&'\"pqrstuvwxyz"[r.below(32)]; return o; };
      start("root", {{"kind", std::to_string(kind)}});
      switch(kind)
      {
         case 0:
         {
            std::vector<std::pair<std::string, std::string>> at;
            for(int k = 0; k < n; k++)at.push_back({"a" + std::to_string(k), r.chance(0.3) ? text((int)r.below(9)) : std::to_string(k)});
            start("many", at);
            if(r.chance(0.5)) { start("in", {{"b", "c"}}); end("in"); }
            end("many");
            count("manyAttributes");
            break;
         }
         case 1:
         {
            std::vector<std::string> names;
            for(int k = 0; k < n; k++)
            {
               names.push_back("e" + std::to_string(r.chance(0.5) ? k : k % 7));
               if(r.chance(0.1))start(names.back(), {{"n", std::to_string(k)}});
               else start(names.back(), {});
            }
            if(!indent) { x.writeCData("bottom"); addText(want, "bottom"); }
            while(names.size())
            {
               end(names.back());
               names.pop_back();
               if(!indent && r.chance(0.05)) { x.writeCData("up"); addText(want, "up"); }
               else if(r.chance(0.05)) { start("s", {}); end("s"); }
            }
            count("deepNesting");
            break;
         }
         case 2: { std::string w = word(n); start(w, {{"a", "b"}}); start(w + "x", {}); end(w + "x"); end(w); count("longNames"); break; }
         case 3: { std::string w = word(n); start("v", {{w, text(n)}, {w + "2", "x"}}); end("v"); count("longValues"); break; }
         case 4:
         {
            std::string t;
            start("t", {});
            for(int k = (int)r.range(1, 5); k--;) { std::string q = text(n); x.writeCData(jm::String(q.c_str())); t += q; }
            addText(want, t);
            end("t");
            count("longTexts");
            break;
         }
         default:
            for(int k = 0; k < n; k++)
            {
               start("c", {});
               if(r.chance(0.2)) { std::string q = std::to_string(k); x.writeCData(jm::String(q.c_str())); addText(want, q); }
               end("c");
            }
            count("manyChildren");
      }
      end("root");
      x.endDocument();
   }
   std::string out((char*)buf.get(), (size_t)ms.mWritelength);
   std::string what = "kind " + std::to_string(kind) + " size " + std::to_string(n) + (indent ? " indented" : "");
   beat();
   Expat e;
   e.parse(out);
   VH_CHECK(e.ok, "not-well-formed", what << ": " << e.err);
   diffEvs(indent ? loose(e.ev) : e.ev, indent ? loose(want) : want, "independent-parser", what);
   beat();
   Rec p;
   p.parse(jm::String(out.c_str(), (int64)out.size()));
   diffEvs(indent ? loose(p.ev) : p.ev, indent ? loose(want) : want, "own-parser", what);
   distinct(hashStr(what));
   count("sizes");
}
// every character of the plane, in text and in an attribute
VH_WORKLOAD(everyCharacter, 256, 256)
{
   std::unique_ptr<uint8[]> buf(new uint8[1 << 20]);
   MemoryStream s(buf.get(), 1 << 20);
   XMLWriter x(&s);
   x.startDocument();
   x.startElement("all");
   Evs want{{'S', "all", {}}};
   for(unsigned k = 0; k < 256; k++)
   {
      char16_t ch = (char16_t)(c.index * 256 + k);
      if((ch < 32 && ch != 9 && ch != 10 && ch != 13) || (ch >= 0xD800 && ch < 0xE000) || ch >= 0xFFFE)continue;
      U one(1, ch), three = u"a" + one + u"b";
      x.startElement("c");
      x.writeAttribute("v", mk(one));
      x.writeAttribute("w", mk(three));
      x.writeCData(mk(three));
      x.endElement();
      want.push_back({'S', "c", {{"v", u8(one)}, {"w", u8(three)}}});
      want.push_back({'T', u8(three), {}});
      want.push_back({'E', "c", {}});
      count("characters");
   }
   x.endElement();
   x.endDocument();
   want.push_back({'E', "all", {}});
   std::string out((char*)buf.get(), (size_t)s.mWritelength);
   Expat e;
   e.parse(out);
   VH_CHECK(e.ok, "not-well-formed", "characters " << c.index * 256 << "..: " << e.err);
   diffEvs(e.ev, want, "independent-parser", "characters from " + std::to_string(c.index * 256));
   Rec p;
   p.parse(jm::String(out.c_str(), (int64)out.size()));
   diffEvs(p.ev, want, "own-parser", "characters from " + std::to_string(c.index * 256));
   distinct(c.index);
}
VH_REQUIRE("earlyEnds", "manyAttributes", "deepNesting", "longNames", "longValues", "longTexts", "manyChildren", "rawTexts", "largeDocuments", "documents", "files", "indented", "attributes", "emptyAttribute", "texts", "base64", "emptyElements", "lateAttributes", "characters")
VH_DRIVER("P14", "expat accepts every document; its events and those of SAXParser equal the written tree: elements in order, attribute names and values in order, text exactly (with indentation: up to white space around text)")
