// P24: members of editable objects.
// VH-TECH: setMember on all member types with values at, inside and outside their ranges, special floating-point values and all document configurations, judged by a model of status, value, undo history and document state; ASan+UBSan
#include "undo_world.hpp"
using namespace vh;
using jm::Status;
VH_WORKLOAD(histories, 24000, 300000)
{
   Rng& r = c.r;
   {
      World w(r, true);
      for(int n = (int)r.range(3, 40); n--;)
      {
         switch(r.below(12))
         {
            case 0: w.close(); break;
            case 1: w.step(true); break;
            case 2: w.step(false); break;
            case 3: if(r.chance(0.3) && w.level == 0 && w.active)w.begin(); break;
            case 4: if(w.level > 0)w.end(0); break;
            case 5: if(r.chance(0.2))w.doc->setDocumentChanged(w.changedFlag = r.chance(0.3)); break;
            case 6: if(r.chance(0.1) && w.level == 0 && !w.open && w.undoS.empty() && w.redoS.empty()) { w.um->setActive(w.active = !w.active); w.note("active"); } break;
            default: w.memberEdit(true);
         }
         w.check("operation");
      }
      while(w.level)w.end(0);
      w.check("end");
      count("histories");
   }
   VH_CHECK(liveItems() == 0, "objects-left", liveItems());
}
struct Cfg
{
   Doc* doc = nullptr;
   Node* n;
   int kind;
   explicit Cfg(int k): kind(k)
   {
      if(k > 0)doc = new Doc;
      if(k == 1)doc->setUndoManager(false);
      if(k == 2)doc->undoManager()->setActive(false);
      n = new Node(doc);
      VH_CHECK(n->document() == doc, "document", k);
      if(doc)VH_CHECK(doc->hasUndoManager() == (k != 1) && (doc->undoManager() != nullptr) == (k != 1), "hasUndoManager", k);
   }
   ~Cfg()
   {
      delete doc;
      n->release();
   }
   // Expected history after one operation on a clean document
   void after(bool changed, const char* what)
   {
      if(kind < 2)return;
      jm::UndoManager* um = doc->undoManager();
      bool rec = changed && kind == 3;
      VH_CHECK(um->hasOpenUndoStep() == rec && um->undoCount() == 0, "recorded", what << " configuration " << kind);
      VH_CHECK(!doc->isDocumentChanged(), "changed-early", what);
      um->close();
      VH_CHECK(um->undoCount() == (rec ? 1u : 0u) && doc->isDocumentChanged() == rec, "step", what << " configuration " << kind);
      VH_CHECK(um->undo() == rec, "undo", what);
   }
};
// Every combination of limits, current and new value
VH_WORKLOAD(ranges, 32, 32)
{
   static const int64 V[] = {INT64_MIN, INT64_MIN + 1, -5, -1, 0, 1, 7, INT64_MAX - 1, INT64_MAX};
   int kind = (int)(c.index % 4);
   for(int64 lo : V)for(int64 hi : V)for(int64 cur : V)for(int64 v : V)
            {
               if((uint64)(bits((double)lo) ^ bits((double)hi) ^ (uint64)cur ^ (uint64)v) % 8 != c.index / 4 % 8)continue;
               Cfg g(kind);
               g.n->i64 = cur;
               Status s = g.n->setMember(&g.n->i64, v, lo, hi);
               Status want = v == cur ? Status::eNotChanged : v >= lo && v <= hi ? Status::eOK : Status::eInvalidInput;
               VH_CHECK(s == want, "range-status", "set " << cur << " to " << v << " in [" << lo << "," << hi << "]: " << (int)s);
               VH_CHECK(g.n->i64 == (want == Status::eOK ? v : cur), "range-value", g.n->i64);
               g.after(want == Status::eOK, "range");
               VH_CHECK(g.n->i64 == (want == Status::eOK && kind < 3 ? v : cur), "range-undo", g.n->i64);
               count("rangeCombinations");
            }
}
VH_WORKLOAD(doubles, 16, 16)
{
   double V[] = {0.0, -0.0, 1, -1, 5e-324, -5e-324, 1e-300, 1e-7, 1 + 2.3e-16, 1e308, -1e308, INFINITY, -INFINITY, NAN, -NAN, 0.1, 1e6, 1e6 + 1e-9, 2.2250738585072014e-308};
   int kind = (int)(c.index % 4);
   for(double cur : V)for(double v : V)
      {
         Cfg g(kind);
         g.n->d = cur;
         Status s = g.n->setMember(&g.n->d, v);
         Status want = std::isnan(v) ? Status::eInvalidInput : v == cur ? Status::eNotChanged : Status::eOK;
         VH_CHECK(s == want, "double-status", "set " << cur << " to " << v << ": " << (int)s);
         VH_CHECK(bits(g.n->d) == bits(want == Status::eOK ? v : cur), "double-value", g.n->d);
         g.after(want == Status::eOK, "double");
         VH_CHECK(bits(g.n->d) == bits(want == Status::eOK && kind < 3 ? v : cur), "double-undo", g.n->d);
         if(std::isnan(v))count("nanCombinations");
      }
}
VH_WORKLOAD(small, 64, 64)
{
   int kind = (int)(c.index % 4);
   for(int cur = (int)(c.index / 4) * 16; cur < (int)(c.index / 4 + 1) * 16; cur++)for(int v = 0; v < 256; v += kind == 3 ? 3 : 7)
      {
         Cfg g(kind);
         g.n->u8 = (uint8)cur;
         g.n->i16 = (int16)((cur - 128) * 257);
         g.n->b = cur & 1;
         if(c.r.chance(0.33))
         {
            Status s = g.n->setMember(&g.n->u8, (uint8)v);
            VH_CHECK(s == (v == cur ? Status::eNotChanged : Status::eOK) && g.n->u8 == v, "uint8", cur << " " << v);
            g.after(v != cur, "uint8");
            if(kind == 3)VH_CHECK(g.n->u8 == cur, "uint8-undo", cur);
         }
         else if(c.r.chance(0.5))
         {
            int16 o = g.n->i16, w = (int16)((v - 128) * 257);
            Status s = g.n->setMember(&g.n->i16, w);
            VH_CHECK(s == (w == o ? Status::eNotChanged : Status::eOK) && g.n->i16 == w, "int16", o << " " << w);
            g.after(w != o, "int16");
            if(kind == 3)VH_CHECK(g.n->i16 == o, "int16-undo", o);
         }
         else
         {
            bool o = g.n->b, w = v & 1;
            Status s = g.n->setMember(&g.n->b, w);
            VH_CHECK(s == (w == o ? Status::eNotChanged : Status::eOK) && g.n->b == w, "bool", o << w);
            g.after(w != o, "bool");
            if(kind == 3)VH_CHECK(g.n->b == o, "bool-undo", o);
         }
         count("small");
      }
}
VH_WORKLOAD(texts, 3000, 40000)
{
   Rng& r = c.r;
   Cfg g((int)(c.index % 4));
   U o, v;
   for(int n = (int)r.below(r.chance(0.1) ? 5000 : 4); n--;)o += r.chance(0.5) ? (char16_t)r.range('A', 'z') : (char16_t)r.range(1, 200);
   v = o;
   if(r.chance(0.3))
   {
      // texts that are easily taken for the same
      switch(r.below(4))
      {
         case 0: for(auto& ch : v)if(r.chance(0.5) && ((ch | 32) >= 'a' && (ch | 32) <= 'z'))ch ^= 32; break;
         case 1: o += u"Aa"; v += u"BB"; break;                  // equal hash codes
         case 2: v += r.chance(0.5) ? u' ' : u'\u0301'; break;
         default: if(v.size())v.back() = (char16_t)(v.back() + 256);
      }
      count("similar");
   }
   else if(r.chance(0.7))
   {
      if(v.size() && r.chance(0.4))v[r.below(v.size())] ^= (char16_t)r.range(1, 3);
      else if(v.size() && r.chance(0.5))v.pop_back();
      else v += (char16_t)r.range(0, 60);
   }
   g.n->s = mk(o);
   Status s = g.n->setMember(&g.n->s, mk(v));
   VH_CHECK(s == (v == o ? Status::eNotChanged : Status::eOK) && rd(g.n->s) == v, "text", show(o) << show(v) << (int)s);
   g.after(v != o, "text");
   VH_CHECK(rd(g.n->s) == (g.kind == 3 ? o : v), "text-undo", show(o));
   // a member may be set to itself
   VH_CHECK(g.n->setMember(&g.n->s, g.n->s) == Status::eNotChanged, "text-self", "");
   jm::Vertex3 q(r.real(-100, 100), r.real(-100, 100), r.real(-100, 100)), w = q;
   g.n->v3 = q;
   if(r.chance(0.7))(r.chance(0.33) ? w.x : r.chance(0.5) ? w.y : w.z) += r.chance(0.5) ? 0.01 : -50;
   bool diff = w.x != q.x || w.y != q.y || w.z != q.z;
   if(g.kind >= 2)g.doc->undoManager()->clearStacks();
   if(g.doc)g.doc->setDocumentChanged(false);
   s = g.n->setMember(&g.n->v3, w);
   VH_CHECK(s == (diff ? Status::eOK : Status::eNotChanged) && g.n->v3.x == w.x && g.n->v3.y == w.y && g.n->v3.z == w.z, "vertex", (int)s);
   g.after(diff, "vertex");
   const jm::Vertex3& e = g.kind == 3 ? q : w;
   VH_CHECK(g.n->v3.x == e.x && g.n->v3.y == e.y && g.n->v3.z == e.z, "vertex-undo", "");
   count("texts");
}
// Transactions without a document or manager do nothing and report so
VH_WORKLOAD(documents, 200, 1000)
{
   Cfg g((int)(c.index % 4));
   VH_CHECK(g.n->openTransaction() == Status::eOK, "open", "");
   g.n->setMember(&g.n->i64, (int64)5);
   Status bad = g.n->setMember(&g.n->i64, (int64)50, 0, 10);
   VH_CHECK(bad == Status::eInvalidInput, "bad", (int)bad);
   Status s = g.n->closeTransaction();
   VH_CHECK(s == (g.kind < 2 ? Status::eNotChanged : Status::eInvalidInput), "close", (int)s << " configuration " << g.kind);
   VH_CHECK(g.n->i64 == (g.kind == 3 ? 0 : 5), "value", g.n->i64 << " configuration " << g.kind);
   if(g.kind == 1)
   {
      g.doc->closeUndoStep();
      g.doc->setUndoManager(true);
      VH_CHECK(g.doc->hasUndoManager() && g.doc->undoManager()->isActive(), "manager", "");
      g.n->setMember(&g.n->i64, (int64)9);
      g.doc->closeUndoStep();
      VH_CHECK(g.doc->undoManager()->undo() && g.n->i64 == 5, "late-manager", g.n->i64);
      g.doc->setUndoManager(true);
      VH_CHECK(g.doc->undoManager()->redoCount() == 1, "manager-kept", "");
      g.doc->setUndoManager(false);
      VH_CHECK(!g.doc->hasUndoManager() && g.n->referenceCount() == 1, "manager-off", g.n->referenceCount());
      // again, in a document that has unsaved changes: then everything counts as usual
      bool unsaved = c.r.chance(0.5);
      g.doc->setDocumentChanged(unsaved);
      g.n->setMember(&g.n->i64, (int64)6);   // without a manager nothing is recorded
      VH_CHECK(g.doc->isDocumentChanged() == unsaved && g.n->i64 == 6, "between-managers", g.n->i64);
      g.doc->setUndoManager(true);
      jm::UndoManager* um = g.doc->undoManager();
      VH_CHECK(um && um->isActive() && um->undoCount() == 0 && um->redoCount() == 0 && !um->hasOpenUndoStep(), "second-manager", "not fresh");
      VH_CHECK(g.doc->isDocumentChanged() == unsaved, "second-manager", "setting a manager alters the document's state");
      g.doc->setDocumentChanged(false);
      VH_CHECK(g.n->setMember(&g.n->i64, (int64)7) == Status::eOK && um->hasOpenUndoStep() && !g.doc->isDocumentChanged(), "second-manager", "edit not recorded");
      g.doc->closeUndoStep();
      VH_CHECK(um->undoCount() == 1 && g.doc->isDocumentChanged(), "second-manager", "step not recorded, unsaved " << unsaved << ", " << um->undoCount());
      g.doc->setDocumentChanged(false);
      VH_CHECK(um->undo() && g.n->i64 == 6 && g.doc->isDocumentChanged(), "second-manager", "undo gives " << g.n->i64);
      g.doc->setDocumentChanged(false);
      VH_CHECK(um->redo() && g.n->i64 == 7 && g.doc->isDocumentChanged(), "second-manager", "redo gives " << g.n->i64);
      count("secondManagers");
   }
   count("documents");
}
VH_REQUIRE("similar", "histories", "members", "rejected", "nan", "ranges", "rangeCombinations", "nanCombinations", "small", "texts", "documents", "secondManagers", "undos", "redos")
VH_DRIVER("P24", "status, stored value, undo and redo counts, open step and document state compared with a model after every call")
