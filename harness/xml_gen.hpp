// Shared by P14/P15: event lists from the library's SAX parser and from expat.
#pragma once
#include "vh.hpp"
#include <expat.h>
namespace vh
{
   struct Ev
   {
      char t;   // S start, E end, T text, P processing instruction
      std::string name;
      std::vector<std::pair<std::string, std::string>> at;
      bool operator==(const Ev& o) const { return t == o.t && name == o.name && at == o.at; }
   };
   typedef std::vector<Ev> Evs;
   inline std::string showEvs(const Evs& e, size_t from = 0)
   {
      std::string s;
      for(size_t i = from > 2 ? from - 2 : 0; i < e.size() && s.size() < 700; i++)
      {
         s += e[i].t == 'S' ? "<" : e[i].t == 'E' ? "</" : e[i].t == 'P' ? "<?" : "\"";
         s += e[i].name;
         for(auto& a : e[i].at)s += " " + a.first + "=[" + a.second + "]";
         s += e[i].t == 'T' ? "\" " : "> ";
      }
      return s;
   }
   inline void addText(Evs& v, const std::string& s)
   {
      if(s.empty())return;
      if(v.size() && v.back().t == 'T')v.back().name += s;
      else v.push_back({'T', s, {}});
   }
   struct Expat
   {
      Evs ev;
      int depth = 0;
      bool ok = false;
      std::string err;
      static void XMLCALL start(void* u, const XML_Char* n, const XML_Char** a)
      {
         Expat* x = (Expat*)u;
         Ev e{'S', n, {}};
         for(; *a; a += 2)e.at.push_back({a[0], a[1]});
         x->ev.push_back(e);
         x->depth++;
      }
      static void XMLCALL end(void* u, const XML_Char* n)
      {
         Expat* x = (Expat*)u;
         x->ev.push_back({'E', n, {}});
         x->depth--;
      }
      static void XMLCALL text(void* u, const XML_Char* s, int n)
      {
         Expat* x = (Expat*)u;
         if(x->depth)addText(x->ev, std::string(s, (size_t)n));
      }
      static void XMLCALL pi(void* u, const XML_Char* t, const XML_Char* d)
      {
         if(strncmp(t, "DTDPI", 5) == 0)return;   // in the document type: reported or not
         ((Expat*)u)->ev.push_back({'P', t, {{"", d}}});
      }
      void parse(const std::string& xml)
      {
         XML_Parser p = XML_ParserCreate(nullptr);
         XML_SetUserData(p, this);
         XML_SetElementHandler(p, start, end);
         XML_SetCharacterDataHandler(p, text);
         XML_SetProcessingInstructionHandler(p, pi);
         ok = XML_Parse(p, xml.data(), (int)xml.size(), 1) == XML_STATUS_OK;
         if(!ok)err = std::string(XML_ErrorString(XML_GetErrorCode(p))) + " at byte " + std::to_string(XML_GetCurrentByteIndex(p));
         XML_ParserFree(p);
      }
   };
   struct Rec: jm::SAXParser
   {
      Evs ev;
      int depth = 0, docs = 0, ends = 0;
      bool outside = false;
      size_t events = 0;
      static std::string s(const jm::String& x) { return bytesOf(x.toCString()); }
      void tick()
      {
         if(++events > 3000000)fail("endless-events", "more than 3000000 events");
      }
      void characters(const jm::String& c) override
      {
         tick();
         if(depth > 0)addText(ev, s(c));
      }
      void ignorableWhiteSpaces(const jm::String& c) override
      {
         tick();
         for(int64 i = 0; i < c.size(); i++)if(!c.charAt(i).isWhitespace())fail("ignorable", "ignorableWhiteSpaces with " + show(c));
         if(depth > 0)addText(ev, s(c));
      }
      void processingInstruction(const jm::String& t, const jm::String& d) override
      {
         tick();
         if(s(t).compare(0, 5, "DTDPI") == 0)return;
         ev.push_back({'P', s(t), {{"", s(d)}}});
      }
      void startDocument() override { docs++; if(events)fail("startDocument", "after other events"); }
      void endDocument() override { ends++; }
      void startElement(const jm::String& uri, const jm::String& local, const jm::String& q, const jm::SAXAttributes& a) override
      {
         tick();
         Ev e{'S', s(q), {}};
         for(uint32 i = 0; i < a.count(); i++)
         {
            e.at.push_back({s(a.qualifiedName(i)), s(a.value(i))});
            if(a.localName(i) != a.qualifiedName(i))outside = true;
         }
         std::string n = s(q), l = s(local);
         size_t c = n.rfind(':');
         if(l != (c == std::string::npos ? n : n.substr(c + 1)))fail("local-name", n + " has local name " + l);
         if(uri.size())outside = true;
         // queries by name agree with the list
         for(uint32 i = 0; i < a.count() && i < 8; i++)
         {
            jm::String k = a.qualifiedName(i);
            int32 x = a.indexOf(k);
            bool first = true;
            for(uint32 j = 0; j < i; j++)if(a.qualifiedName(j).equals(k))first = false;
            if(x < 0 || !a.qualifiedName((uint32)x).equals(k) || (first && x != (int32)i))fail("indexOf", s(k) + " " + std::to_string(x));
            if(!a.hasValue(k) || !a.value(k).equals(a.value((uint32)x)))fail("value-by-name", s(k));
         }
         if(a.hasValue("no such attribute") || a.indexOf("no such attribute") != -1 || a.value("no such attribute").size())fail("missing-attribute", "found");
         ev.push_back(e);
         depth++;
      }
      void endElement(const jm::String&, const jm::String&, const jm::String& q) override
      {
         tick();
         ev.push_back({'E', s(q), {}});
         depth--;
      }
   };
   inline void diffEvs(const Evs& got, const Evs& want, const char* key, const std::string& what)
   {
      eval();
      if(got == want)return;
      size_t i = 0;
      while(i < got.size() && i < want.size() && got[i] == want[i])i++;
      fail(key, what + "\n got  " + showEvs(got, i) + "\n want " + showEvs(want, i));
   }
   inline std::string u8(const U& u)
   {
      std::string o;
      for(size_t i = 0; i < u.size(); i++)
      {
         uint32_t c = u[i];
         if(c >= 0xD800 && c < 0xDC00 && i + 1 < u.size())c = 0x10000 + ((c & 0x3FF) << 10) + (u[++i] & 0x3FF);
         if(c < 0x80)o += (char)c;
         else if(c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
         else if(c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
         else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
      }
      return o;
   }
   // A character XML can represent.
   inline void xmlChar(Rng& r, U& u)
   {
      static const char16_t* S = u"abcdefXYZ019 &<>\"';=/!?-[]#._:()%\t\n";
      switch(r.below(8))
      {
         case 0: u += S[r.below(std::char_traits<char16_t>::length(S))]; break;
         case 1: { static const char16_t T[] = {u'&', u'<', u'>', u'"', u'\'', u'\n', u'\r', u'\t', u' ', u' ', u'&'}; u += T[r.below(11)]; break; }
         case 2: { static const char16_t T[] = {0xe4, 0xdf, 0x20ac, 0x3a9, 0x65e5, 0x85, 0xa0, 0x2028, 0xfffd, 0xfeff, 0x7f, 0xff, 0x100, 0x7ff, 0x800}; u += T[r.below(15)]; break; }
         case 3:
            if(r.chance(0.3)) { uint32_t p = 0x10000 + (uint32_t)r.below(0x100000); u += (char16_t)(0xD800 + ((p - 0x10000) >> 10)); u += (char16_t)(0xDC00 + (p & 0x3FF)); break; }
            [[fallthrough]];
         case 4: if(r.chance(0.3)) { char16_t p = (char16_t)r.range(0xa1, 0xfffd); if(p < 0xD800 || p > 0xDFFF)u += p; break; } [[fallthrough]];
         default: u += (char16_t)('a' + r.below(26));
      }
   }
   inline U xmlText(Rng& r, size_t mx)
   {
      static const char* P[] = {"]]>", "<!--", "-->", "<![CDATA[", "&amp;", "&lt;", "<?xml", "?>", "&#10;", "</a>", "\"/>", "&&", "''"};
      U u;
      for(size_t n = r.below(mx + 1); n--;)
      {
         if(r.chance(0.04))for(const char* c = P[r.below(13)]; *c; c++)u += (char16_t)(unsigned char) * c;
         else xmlChar(r, u);
      }
      return u;
   }
   inline U xmlName(Rng& r)
   {
      static const char16_t F[] = u"abcdefgXYZ_\u00e4\u03a9\u65e5", N[] = u"abcXYZ_019-.\u00e4\u03a9\u65e5";
      U u;
      auto part = [&]()
      {
         u += F[r.below(14)];
         for(int n = (int)r.range(0, 6); n--;)u += N[r.below(14)];
      };
      part();
      if(r.chance(0.15))
      {
         u += u':';
         part();
      }
      return u;
   }
}
