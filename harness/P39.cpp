// P39: property values and document state.
// VH-TECH: histories of setting, copying, assigning and comparing properties and variants against a model of identity, type, text and number slots; every editor and type pair compared both ways; histories of document and object flags; ASan+UBSan
#include "vh.hpp"
using namespace vh;
using namespace jm;
enum Kind { kNone, kInt, kDbl, kBool };
struct M
{
   U id, group, name, hint, icon, editor;
   bool ro = false, empty = true;
   PropertyChangeMode mode = PropertyChangeMode::kItself;
   PropertyType type = PropertyType::kString;
   U text;
   Kind kind = kNone;   // what the number was set as; a fresh property has the integer 0
   int64_t i = 0;
   double d = 0;
   bool b = false;
};
static U word(Rng& r)
{
   U u;
   int64_t n = r.chance(0.02) ? borderLength(r, 10) : r.range(0, 6);
   while(n-- > 0)u += r.chance(0.8) ? (char16_t)r.range('a', 'c') : (char16_t)r.range(1, 0xFFFF);
   return u;
}
static U swapCase(U u) { for(auto& ch : u)if((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'))ch ^= 0x20; return u; }
// A text hard to tell from another one
static U near(Rng& r, U u)
{
   switch(r.below(6))
   {
      case 0: return swapCase(u);
      case 1: return u + u" ";
      case 2: return u"\t" + u;
      case 3: if(u.size())u.back() ^= 0x100; return u;
      case 4: if(u.size() > 1)std::swap(u[0], u[1]); return u;
      default: return u.substr(0, u.size() - (u.size() > 0));
   }
}
static const char* EDITORS[] = {"textfield", "number", "checkbox", "file", "combobox", "value", "dwgcolour", "dwglayer", "other", ""};
static U editor(Rng& r) { std::string s = EDITORS[r.below(10)]; return U(s.begin(), s.end()); }
static int64_t integer(Rng& r) { static const int64_t v[] = {0, 1, -1, 255, 256, 257, 1ll << 32, INT64_MAX, INT64_MIN, INT64_MIN + 1, 0x0101010101010101ll}; return r.chance(0.6) ? v[r.below(11)] : (int64_t)r.u64() >> r.below(60); }
static double real(Rng& r) { static const double v[] = {0.0, 1.5, -1.5, 1e300, -1e-300, 12345678.25, 100, -100}; return r.chance(0.7) ? v[r.below(8)] : r.real(-1e6, 1e6); }
static void same(const Property& p, const M& m, const char* when)
{
   VH_CHECK(rd(p.id()) == m.id && rd(p.name()) == m.name && rd(p.hint()) == m.hint && rd(p.group()) == m.group && rd(p.editor()) == m.editor && rd(p.icon()) == m.icon, "identity",
            "after " << when << ": " << show(p.id()) << " " << show(p.group()) << " " << show(p.name()) << " " << show(p.hint()) << " " << show(p.editor()) << " " << show(p.icon()) << " instead of " << show(m.id) << " " << show(m.group) << " " << show(m.name) << " " << show(m.hint) << " " << show(m.editor) << " " << show(m.icon));
   VH_CHECK(p.isReadOnly() == m.ro && p.allowEmpty() == m.empty && p.changeMode() == m.mode, "flags", "after " << when << ": read-only " << p.isReadOnly() << " may be empty " << p.allowEmpty() << " mode " << (int)p.changeMode());
   VH_CHECK(p.type() == m.type, "type", "after " << when << ": " << (int)p.type() << " instead of " << (int)m.type);
   VH_CHECK(rd(p.stringValue()) == m.text, "text", "after " << when << ": " << show(p.stringValue()) << " instead of " << show(m.text));
   switch(m.kind)
   {
      case kNone: VH_CHECK(p.integerValue() == 0, "number", "after " << when << ": " << p.integerValue() << " instead of nothing"); break;
      case kInt: VH_CHECK(p.integerValue() == m.i, "number", "after " << when << ": " << p.integerValue() << " instead of " << m.i); break;
      case kDbl: VH_CHECK(memcmp(std::array<double, 1> {p.doubleValue()}.data(), &m.d, 8) == 0, "number", "after " << when << ": " << p.doubleValue() << " instead of " << m.d); break;
      case kBool: VH_CHECK(p.boolValue() == m.b, "number", "after " << when << ": " << p.boolValue() << " instead of " << m.b); break;
   }
}
static bool numberEqual(const M& a, const M& b) { return a.kind == kInt || a.kind == kNone ? (a.kind == kNone ? 0 : a.i) == (b.kind == kNone ? 0 : b.i) : a.kind == kDbl ? a.d == b.d : a.b == b.b; }
static bool comparable(const M& a, const M& b) { auto k = [](const M& m) { return m.kind == kNone ? kInt : m.kind; }; return k(a) == k(b); }
static void compare(const Property& a, const M& x, const Property& b, const M& y, Rng&)
{
   if(comparable(x, y))
   {
      bool want = x.text == y.text && numberEqual(x, y);
      VH_CHECK(a.isValueEquals(b) == want && b.isValueEquals(a) == want, "value-equals", "values " << show(x.text) << "/" << (x.kind == kDbl ? x.d : x.kind == kBool ? x.b : (double)x.i) << " and " << show(y.text) << "/" << (y.kind == kDbl ? y.d : y.kind == kBool ? y.b : (double)y.i) << " equal: " << a.isValueEquals(b) << ", expected " << want);
      count(want ? "valueEqual" : "valueDifferent");
   }
   // ==: same property, and what its editor shows is equal
   bool want;
   if(x.id != y.id || x.editor != y.editor)want = false;
   else
   {
      std::string e(x.editor.begin(), x.editor.end());
      bool unit = x.type == PropertyType::kValue || y.type == PropertyType::kValue || e == "value";
      Kind need = unit ? kDbl : e == "number" || e == "combobox" || e == "dwgcolour" ? kInt : e == "checkbox" ? kBool : kNone;
      auto is = [&](const M& m) { return need == kNone || m.kind == need || (m.kind == kNone); };
      if(!is(x) || !is(y))return;
      bool num = x.kind == kNone || y.kind == kNone ? (need == kDbl ? (x.kind == kNone ? 0.0 : x.d) == (y.kind == kNone ? 0.0 : y.d) : need == kBool ? (x.kind != kNone && x.b) == (y.kind != kNone && y.b) : (x.kind == kNone ? 0 : x.i) == (y.kind == kNone ? 0 : y.i)) : numberEqual(x, y);
      if(unit && (fabs(x.d - y.d) > 0 && fabs(x.d - y.d) < 1e-3 * std::max(1.0, fabs(x.d))))return;   // within the tolerance or not is P37's
      if(unit)want = x.text == y.text && num;
      else if(e == "textfield" || e == "file" || e == "dwglayer")want = x.text == y.text;
      else if(need == kInt || need == kBool)want = num;
      else want = false;
   }
   VH_CHECK((a == b) == want && (b == a) == want, "equals", "property " << show(x.id) << " with editor " << show(x.editor) << ": == gives " << (a == b) << " and " << (b == a) << ", expected " << want << "; texts " << show(x.text) << ", " << show(y.text) << "; numbers " << x.i << "/" << x.d << ", " << y.i << "/" << y.d << "; types " << (int)x.type << ", " << (int)y.type);
   count(want ? "equal" : "different");
}
VH_WORKLOAD(histories, 40000, 800000)
{
   Rng& r = c.r;
   std::vector<Property> p;
   std::vector<M> m;
   U ids[2] = {word(r), word(r)}, eds[2] = {editor(r), editor(r)};
   if(r.chance(0.2))ids[1] = near(r, ids[0]);
   if(r.chance(0.1))eds[1] = swapCase(eds[0]);
   int n = (int)r.range(2, 4);
   for(int i = 0; i < n; i++)
   {
      M x;
      switch(r.below(4))
      {
         case 0: p.push_back(Property()); break;
         case 1: x.id = ids[r.below(2)]; p.push_back(Property(mk(x.id))); break;
         default:
            x.id = ids[r.below(2)]; x.group = word(r); x.name = word(r); x.hint = word(r); x.editor = eds[r.below(2)];
            x.ro = r.chance(0.5); x.empty = r.chance(0.5); x.mode = (PropertyChangeMode)r.below(3);
            p.push_back(Property(mk(x.id), mk(x.group), mk(x.name), mk(x.hint), mk(x.editor), x.ro, x.mode, x.empty));
      }
      m.push_back(x);
      same(p[(size_t)i], x, "construction");
   }
   std::vector<U> texts = {word(r), word(r), U()};
   texts.push_back(near(r, texts[0]));
   for(int k = (int)r.range(1, 30); k--;)
   {
      size_t a = r.below((uint64_t)n), b = r.below((uint64_t)n);
      Property& q = p[a];
      M& x = m[a];
      const char* what = "";
      Status s = Status::eOK;
      switch(r.below(11))
      {
         case 0: what = "setStringValue"; x.text = r.pick(texts); x.type = PropertyType::kString; s = q.setStringValue(mk(x.text)); break;
         case 1: what = "setIntegerValue"; x.i = integer(r); x.kind = kInt; x.type = PropertyType::kInteger; s = q.setIntegerValue(x.i); break;
         case 2: what = "setDoubleValue"; x.d = real(r); x.kind = kDbl; x.type = PropertyType::kDouble; s = q.setDoubleValue(x.d); break;
         case 3: what = "setBoolValue"; x.b = r.chance(0.5); x.kind = kBool; x.type = PropertyType::kBoolean; s = q.setBoolValue(x.b); break;
         case 4: what = "setUnitValue"; x.d = real(r); x.kind = kDbl; x.text = r.pick(texts); x.type = PropertyType::kValue; s = q.setUnitValue(x.d, mk(x.text)); break;
         case 5: what = "setIcon"; x.icon = word(r); q.setIcon(mk(x.icon)); break;
         case 6: what = "setType"; x.type = (PropertyType)r.below(8); q.setType(x.type); break;
         case 7: case 8:
         {
            what = "setValue";
            M y = m[b];
            q.setValue(p[b]);
            x.text = y.text; x.kind = y.kind; x.i = y.i; x.d = y.d; x.b = y.b; x.type = y.type;
            if(x.id == m[b].id)count("taken");
            break;
         }
         case 9: what = "assignment"; { M y = m[b]; q = p[b]; x = y; } break;
         case 10: what = "copy"; { Property z(q); same(z, x, what); z.setStringValue("changed"); z.setIntegerValue(1); z.setIcon("changed"); } break;
      }
      VH_CHECK(s == Status::eOK, "status", what << " returned " << (int)s);
      for(size_t i = 0; i < (size_t)n; i++)same(p[i], m[i], what);
      bool is = r.chance(0.5);
      U t = is ? x.id : word(r);
      VH_CHECK(q.is(mk(t)) == (t == x.id), "is", show(t) << " for " << show(x.id));
      compare(p[a], m[a], p[b], m[b], r);
      count(std::string("after:") + what);
   }
   distinct(mix(hashU(m[0].text + m[0].id), (uint64_t)m[0].i));
}
VH_WORKLOAD(variants, 20000, 400000)
{
   Rng& r = c.r;
   struct V { PropertyType t = PropertyType::kInteger; U s; int64_t i = 0; double d = 0; };
   auto same = [&](const Variant & v, const V & x, const char* w)
   {
      VH_CHECK(v.mType == x.t, "variant-type", "after " << w);
      if(x.t == PropertyType::kString)VH_CHECK(rd(v.toString()) == x.s, "variant-text", "after " << w << ": " << show(v.toString()) << " instead of " << show(x.s));
      if(x.t == PropertyType::kInteger)VH_CHECK(v.toInt64() == x.i && v.toInt32() == (int32_t)x.i, "variant-integer", "after " << w << ": " << v.toInt64() << " instead of " << x.i);
      if(x.t == PropertyType::kDouble)VH_CHECK(v.toDouble() == x.d, "variant-double", "after " << w << ": " << v.toDouble() << " instead of " << x.d);
   };
   std::vector<Variant> v(3);
   std::vector<V> m(3);
   for(auto& z : v)same(z, V(), "construction");
   for(int k = (int)r.range(1, 16); k--;)
   {
      size_t a = r.below(3), b = r.below(3);
      switch(r.below(5))
      {
         case 0: m[a] = V(); m[a].i = integer(r); v[a] = Variant((int64)m[a].i); break;
         case 1: m[a] = V(); m[a].t = PropertyType::kDouble; m[a].d = real(r); v[a] = Variant(m[a].d); break;
         case 2: m[a] = V(); m[a].t = PropertyType::kString; m[a].s = word(r); v[a] = Variant(mk(m[a].s)); break;
         case 3: m[a] = m[b]; v[a] = v[b]; break;
         case 4: { Variant z(v[a]); same(z, m[a], "copy"); z = v[b]; same(z, m[b], "assignment"); z = Variant(jm::String("other")); break; }
      }
      for(size_t i = 0; i < 3; i++)same(v[i], m[i], "step");
      count("variants");
   }
   distinct(hashU(m[0].s) ^ (uint64_t)m[1].i);
}
struct Doc: public Document
{
   bool saveDocument() override { return true; }
   bool loadDocument() override { return true; }
   Status initNewDocument(Preferences*) override { return Status::eOK; }
};
struct Thing: public EditableObject
{
   explicit Thing(Document* d): EditableObject(d) {}
   int64 n = 0;
   jm::String displayName() const override { return "Thing"; }
};
VH_WORKLOAD(documents, 8000, 100000)
{
   Rng& r = c.r;
   Document* d = new Doc();
   bool changed = false, regen = false, undo = true;
   U path;
   Document* none = nullptr;
   std::vector<Thing*> t;
   std::vector<bool> tr, own;
   VH_CHECK(d->hasUndoManager() && d->undoManager() != nullptr && d->undoManager()->isActive(), "fresh-undo", "");
   for(int k = (int)r.range(1, 30); k--;)
   {
      switch(r.below(9))
      {
         case 0: changed = r.chance(0.5); d->setDocumentChanged(changed); break;
         case 1: if(r.chance(0.6)) { d->regenerate(); regen = true; } else { d->regenerationDone(); regen = false; } break;
         case 2: { path = u"/"; for(int i = (int)r.range(1, 8); i--;)path += (char16_t)r.range('a', 'z'); d->setFile(jm::File(mk(path))); break; }
         case 3:
            if(t.size() < 4) { bool o = r.chance(0.7); t.push_back(new Thing(o ? d : none)); tr.push_back(true); own.push_back(o); }
            break;
         case 4: if(t.size()) { size_t i = r.below(t.size()); if(r.chance(0.5)) { t[i]->regenerate(); tr[i] = true; } else { t[i]->regenerationDone(); tr[i] = false; } } break;
         case 5:   // the manager is exchanged between edits
         {
            undo = r.chance(0.5);
            UndoManager* before = d->undoManager();
            bool had = before != nullptr;
            d->setUndoManager(undo);
            if(undo && had)VH_CHECK(d->undoManager() == before, "undo-kept", "asking for the undo manager again replaces it");
            break;
         }
         case 6: d->closeUndoStep(); if(undo)VH_CHECK(true, "close", ""); break;
         case 7:
            if(t.size())
            {
               size_t i = r.below(t.size());
               Thing* x = t[i];
               int64_t was = x->n;
               d->closeUndoStep();
               bool ch = d->isDocumentChanged();
               Status s = x->setMember(&x->n, was + 1);
               VH_CHECK(s == Status::eOK && x->n == was + 1, "member", (int)s);
               d->closeUndoStep();
               changed = d->isDocumentChanged();
               VH_CHECK(!ch || changed, "still-changed", "");
               if(own[i] && undo)
               {
                  VH_CHECK(changed, "document-changed", "an edit of an object of the document leaves it unchanged");
                  VH_CHECK(d->undoManager()->undoCount() > 0, "step", "the edit made no step");
                  d->undoManager()->undo();
                  VH_CHECK(x->n == was, "undone", x->n << " instead of " << was);
                  VH_CHECK(x->shouldRegenerate(), "undone-regenerate", "an undone edit does not ask for regeneration");
                  changed = d->isDocumentChanged();
                  count("undone");
               }
               else
               {
                  VH_CHECK(changed == ch, "foreign", "an edit without undo manager or of another document's object changes the flag");
                  count("untracked");
               }
               VH_CHECK(!tr[i] || x->shouldRegenerate(), "regenerate-lost", "an edit drops the request");
               tr[i] = x->shouldRegenerate();   // an edit may ask for it
            }
            break;
         case 8:
            VH_CHECK(d->fileRef() == &d->file(), "file-ref", "");
            break;
      }
      VH_CHECK(d->isDocumentChanged() == changed, "changed", d->isDocumentChanged());
      VH_CHECK(d->shouldRegenerate() == regen, "regenerate", d->shouldRegenerate());
      VH_CHECK(d->hasUndoManager() == undo && (d->undoManager() != nullptr) == undo, "has-undo", undo);
      if(path.size())VH_CHECK(rd(d->file().path()) == path, "file", show(d->file().path()) << " instead of " << show(path));
      for(size_t i = 0; i < t.size(); i++)
      {
         VH_CHECK(t[i]->shouldRegenerate() == tr[i], "object-regenerate", t[i]->shouldRegenerate());
         VH_CHECK(t[i]->document() == (own[i] ? d : none), "object-document", "");
      }
      count("documentSteps");
   }
   d->setUndoManager(false);
   for(auto x : t)x->release();
   d->release();
   distinct(mix(hashU(path), t.size()));
}
VH_REQUIRE("valueEqual", "valueDifferent", "equal", "different", "after:setValue", "after:assignment", "after:copy", "after:setUnitValue", "after:setBoolValue", "variants", "documentSteps", "undone", "untracked")
VH_DRIVER("P39", "identity, type, text and number of every property after every step equal the model's; comparisons both ways")
