// P22: undo and redo.
// VH-TECH: random histories of recorded edits over all tracked types and lists with step closings, undos and redos against a snapshot model, compared after every operation; ASan+UBSan, object-count and allocation-growth monitors
#include "undo_world.hpp"
using namespace vh;
static void history(Rng& r, size_t n, bool counted)
{
   World w(r, counted, counted && r.chance(0.12));
   double pu = r.real(0.05, 0.3), pc = r.real(0.1, 0.4), pt = r.chance(0.3) ? 0.1 : 0;
   for(size_t i = 0; i < n; i++)
   {
      double p = r.unit();
      if(p < pc)w.close();
      else if(p < pc + pu)
      {
         // walk some way back and forth
         if(r.chance(0.5))w.close();
         w.check("before walking");
         for(int k = (int)r.range(1, 6); k--;) { w.step(true); w.check("undo"); }
         for(int k = (int)r.range(0, 6); k--;) { w.step(r.chance(0.3)); w.check("redo"); }
      }
      else if(r.chance(0.02))w.clearStacks();
      else if(w.doc && r.chance(0.03))
      {
         w.doc->setDocumentChanged(w.changedFlag = r.chance(0.5));
      }
      else if(r.chance(pt) && w.level < 3)
      {
         w.begin();
         for(int k = (int)r.below(4); k--;)w.rawEdit();
         w.end(r.chance(0.5) ? 0 : 1);
      }
      else if(r.chance(0.08))w.refEdit();
      else if(r.chance(0.2))w.memberEdit(false);
      else w.rawEdit();
      w.check("operation");
   }
   w.close();
   w.check("closing");
   // all the way back and forth
   size_t all = w.undoS.size();
   while(w.undoS.size()) { w.step(true); w.check("undo all"); }
   w.step(true);
   for(size_t k = 0; k < all; k++)w.step(false);
   w.check("redo all");
   w.step(false);
   w.check("redo beyond");
   if(counted)count("histories");
}
VH_WORKLOAD(histories, 24000, 120000)
{
   history(c.r, (size_t)c.r.range(2, c.r.chance(0.1) ? 150 : 50), true);
   VH_CHECK(liveItems() == 0 && deadTwice() == 0, "objects-left", liveItems() << " items alive, " << deadTwice() << " destroyed twice");

}
// Nothing is recorded while the manager is off or while it replays.
VH_WORKLOAD(inactive, 3000, 5000)
{
   Rng& r = c.r;
   {
      World w(r, false);
      for(int k = 0; k < 5; k++)
      {
         w.rawEdit();
         w.close();
      }
      size_t n = w.undoS.size();
      w.um->setActive(w.active = false);
      VH_CHECK(!w.um->isActive(), "isActive", "");
      for(int k = 0; k < 5; k++)w.rawEdit();
      w.close();
      w.check("inactive");
      VH_CHECK(w.um->undoCount() == n, "recorded-while-off", w.um->undoCount());
      w.um->setActive(w.active = true);
      w.um->clearStacks();
      w.undoS.clear();
      w.redoS.clear();
      w.rawEdit();
      w.close();
      if(w.undoS.size()) { w.step(true); w.check("after reactivation"); }
      count("inactive");
   }
   VH_CHECK(liveItems() == 0 && deadTwice() == 0, "objects-left", liveItems());
}
VH_WORKLOAD(leaks, 24, 200)
{
   size_t last = 0;
   int grown = 0;
   for(int k = 0; k < 6; k++)
   {
      Rng r = c.r;
      history(r, 40, false);
      size_t now = __sanitizer_get_current_allocated_bytes();
      if(k >= 3 && now > last + 16)grown++;
      last = now;
   }
   VH_CHECK(grown < 3, "leak", "allocated bytes grow with every identical history");
   count("leakHistories");
}
// Beyond small sizes: many changes in a step, many steps, long texts, large buffers, long lists
struct Heavy: jm::EditableObject
{
   uint8* buf;
   size_t len;
   jm::String s;
   std::vector<int32> cells;
   jm::LinkedList* list;
   Heavy(jm::Document* d, size_t l, size_t n): jm::EditableObject(d), buf(new uint8[l]()), len(l), cells(n, 0), list(new jm::LinkedList(this)) {}
   ~Heavy() noexcept override { delete[] buf; list->release(); }
   jm::String displayName() const override { return "Heavy"; }
};
struct HState { std::string buf; U s; std::vector<int32> cells; std::vector<int> list; };
VH_WORKLOAD(large, 90, 1200)
{
   Rng& r = c.r;
   {
      Doc* doc = new Doc;
      jm::UndoManager* um = doc->undoManager();
      bool manySteps = c.index % 3 == 0;
      size_t len = manySteps ? 5 : r.chance(0.3) ? 65530 + r.below(12) : (size_t)r.range(1, 200000), n = manySteps ? 4 : (size_t)r.range(1, 5000);
      Heavy* h = new Heavy(doc, len, n);
      std::vector<Item*> items;
      for(int k = manySteps ? 3 : (int)r.range(1, 700); k--;)items.push_back(new Item((int)items.size()));
      HState m;
      m.buf.assign(len, 0);
      m.cells.assign(n, 0);
      std::vector<HState> st{m};   // before step k; last: now
      int steps = manySteps ? (int)r.range(200, 1200) : (int)r.range(1, 4);
      if(c.index == 0)steps = 1200;
      size_t most = 0;
      auto same = [&](const HState& x, const std::string & when)
      {
         eval(4);
         VH_CHECK(memcmp(h->buf, x.buf.data(), len) == 0, "large-buffer", when << ": buffer of " << len << " bytes differs");
         VH_CHECK(rd(h->s) == x.s, "large-text", when << ": text of " << h->s.size() << " instead of " << x.s.size());
         for(size_t i = 0; i < n; i++)VH_CHECK(h->cells[i] == x.cells[i], "large-cells", when << ": cell " << i << " of " << n << " is " << h->cells[i] << " instead of " << x.cells[i]);
         VH_CHECK(h->list->size() == x.list.size(), "large-list", when << ": " << h->list->size() << " in the list instead of " << x.list.size());
         jm::LinkedListIterator it = h->list->iterator();
         for(int i : x.list)VH_CHECK(it.hasNext() && it.next() == items[(size_t)i], "large-list", when << ": list differs");
         VH_CHECK(!it.hasNext(), "large-list", when << ": more in the list");
      };
      auto edit = [&](bool light)
      {
         if(light || r.chance(0.7))
         {
            size_t k = light ? 1 : r.chance(0.5) ? n : r.range(1, 3000);
            most = std::max(most, k);
            while(k--)
            {
               size_t i = r.chance(0.5) && k < n ? k : r.below(n);
               um->registerChange(h, &h->cells[i]);
               h->cells[i] = m.cells[i] = (int32)r.u64();
            }
         }
         if(light ? r.chance(0.2) : r.chance(0.5))
         {
            um->registerChange(h, &h->buf, len);
            for(int q = 20; q--;)
            {
               size_t i = q == 0 ? len - 1 : r.below(len);
               h->buf[i] = (uint8)r.u64();
               m.buf[i] = (char)h->buf[i];
            }
         }
         if(light ? r.chance(0.2) : r.chance(0.5))
         {
            um->registerChange(h, &h->s);
            m.s.clear();
            size_t k = light ? r.below(40) : r.chance(0.2) ? 0 : r.below(100000);
            while(m.s.size() < k)m.s += (char16_t)r.range(1, 0xfff);
            h->s = mk(m.s);
         }
         if(light ? r.chance(0.2) : r.chance(0.6))
         {
            if(m.list.size() > 3 && r.chance(0.2)) { h->list->clear(um); m.list.clear(); }
            for(int q = light ? 1 : (int)r.range(1, 600); q--;)
            {
               int i = (int)r.below(items.size());
               auto f = std::find(m.list.begin(), m.list.end(), i);
               if(f == m.list.end())
               {
                  if(m.list.size() && r.chance(0.3))
                  {
                     size_t at = r.below(m.list.size());
                     h->list->addBefore(items[(size_t)m.list[at]], items[(size_t)i], um);
                     m.list.insert(m.list.begin() + (long)at, i);
                  }
                  else { h->list->add(items[(size_t)i], um); m.list.push_back(i); }
               }
               else if(r.chance(0.4)) { h->list->remove(items[(size_t)i], um); m.list.erase(f); }
            }
         }
      };
      for(int k = 0; k < steps; k++)
      {
         bool tx = r.chance(0.4);
         if(tx && r.chance(0.3))   // taken back at once
         {
            HState was = m;
            um->openTransaction();
            edit(manySteps);
            um->rollback();
            m = was;
            same(m, "rolled back");
            count("largeRolledBack");
         }
         if(tx)um->openTransaction();
         edit(manySteps);
         if(tx) { if(r.chance(0.5))um->commit(); else VH_CHECK(um->closeTransaction() == jm::Status::eOK, "closeTransaction", ""); }
         if(um->hasOpenUndoStep()) { um->close(); st.push_back(m); }
         VH_CHECK(um->undoCount() == st.size() - 1, "counts", um->undoCount() << " steps instead of " << st.size() - 1);
      }
      size_t all = st.size() - 1, at = all;
      std::string when = std::to_string(all) + " steps, up to " + std::to_string(most) + " changes in one";
      auto go = [&](bool undo)
      {
         bool can = undo ? at > 0 : at < all;
         VH_CHECK((undo ? um->undo() : um->redo()) == can, "large-walk", when << ": at " << at);
         if(can)undo ? at-- : at++;
         VH_CHECK(um->undoCount() == at && um->redoCount() == all - at, "counts", when << ": at " << at << " counts " << um->undoCount() << " " << um->redoCount());
         same(st[at], when + (undo ? ", undo to " : ", redo to ") + std::to_string(at));
      };
      for(size_t k = 0; k <= all; k++)go(true);
      for(size_t k = 0; k <= all; k++)go(false);
      for(int k = 30; k--;)go(r.chance(0.5));
      if(at < all && at > 0)
      {
         m = st[at];
         edit(true);
         um->close();
         VH_CHECK(um->redoCount() == 0, "redo-dropped", um->redoCount());
         st.resize(at + 1);
         st.push_back(m);
         all = ++at;
         for(size_t k = 0; k <= all; k++)go(true);
      }
      distinct(mix(all, most));
      if(most > 1024)count("manyChanges");
      if(all > 256)count("manySteps");
      if(len > 65535)count("largeBuffers");
      um->clearStacks();
      delete doc;
      h->release();
      for(auto i : items)i->release();
   }
   VH_CHECK(liveItems() == 0 && deadTwice() == 0, "objects-left", liveItems() << " items alive, " << deadTwice() << " destroyed twice");
}
// Recorded references: what the history can bring back stays alive, even if nobody else owns it any more
struct Cells;
static std::vector<int>* gEnds = nullptr;   // how often each thing was destroyed
struct Thing: public jm::Object
{
   size_t id;
   Thing(size_t i): id(i) {}
   ~Thing() noexcept override { (*gEnds)[id]++; }
};
struct Cells: public jm::Object
{
   jm::Object* p[3] = {nullptr, nullptr, nullptr};
};
struct MRef { int cell; int v1, v2; bool swapped; };
VH_WORKLOAD(pointers, 6000, 60000)
{
   Rng& r = c.r;
   std::vector<int> ends;
   gEnds = &ends;
   std::vector<Thing*> t;
   std::vector<int> own;                     // references held outside of the history
   std::vector<MRef> open, tx;
   std::vector<std::vector<MRef>> undo, redo;
   int cell[3] = {-1, -1, -1};
   std::string trace;
   jm::UndoManager* um = new jm::UndoManager();
   um->setActive(true);
   Cells* h = new Cells();
   bool inTx = false;
   auto refs = [&](int i)
   {
      int n = own[(size_t)i];
      auto add = [&](const std::vector<MRef>& s) { for(auto& x : s)n += (x.v1 == i) + (x.swapped && x.v2 == i); };
      add(open);
      add(tx);
      for(auto& s : undo)add(s);
      for(auto& s : redo)add(s);
      return n;
   };
   auto swapAll = [&](std::vector<MRef>& s, bool back)
   {
      for(size_t k = 0; k < s.size(); k++)
      {
         MRef& x = s[back ? s.size() - 1 - k : k];
         int now = cell[x.cell];
         if(!x.swapped) { x.v2 = now; x.swapped = true; }
         cell[x.cell] = back ? x.v1 : x.v2;
      }
   };
   auto check = [&](const char* when)
   {
      VH_CHECK(um->undoCount() == undo.size() && um->redoCount() == redo.size(), "pointer-counts", when << ": " << um->undoCount() << " and " << um->redoCount() << " after" << trace);
      for(size_t i = 0; i < t.size(); i++)
         VH_CHECK(ends[i] == (refs((int)i) > 0 ? 0 : 1), refs((int)i) > 0 ? "pointed-dead" : "pointed-left", when << ": object " << i << " was destroyed " << ends[i] << " times, the history and its owner hold it " << refs((int)i) << " times, after" << trace);
      for(int k = 0; k < 3; k++)
         VH_CHECK(h->p[k] == (cell[k] < 0 ? nullptr : t[(size_t)cell[k]]), "pointer", when << ": reference " << k << " is not object " << cell[k] << " after" << trace);
      // whatever a reference shows is owned; of the others some are given up
      for(size_t i = 0; i < t.size(); i++)
      {
         bool shown = cell[0] == (int)i || cell[1] == (int)i || cell[2] == (int)i;
         if(shown && !own[i]) { t[i]->retain(); own[i]++; count("pointersRevived"); }
         if(!shown && own[i] && !inTx && r.chance(0.5))   // a rollback may bring it back
         {
            trace += " drop" + std::to_string(i);
            own[i]--;
            t[i]->release();
         }
         if(refs((int)i) == 0)VH_CHECK(ends[i] == 1, "pointed-left", "object " << i << " is not destroyed after" << trace);
         else VH_CHECK(ends[i] == 0, "pointed-dead", "object " << i << " is destroyed after" << trace);
      }
   };
   for(int step = 0; step < 30; step++)
   {
      switch(r.below(9))
      {
         case 0: case 1: case 2: case 3:
         {
            int k = (int)r.below(3), v = -1;
            if(r.chance(0.8))
            {
               std::vector<int> alive;
               for(size_t i = 0; i < t.size(); i++)if(own[i])alive.push_back((int)i);
               if(alive.size() && r.chance(0.3))v = r.pick(alive);
               else
               {
                  v = (int)t.size();
                  ends.push_back(0);
                  t.push_back(new Thing((size_t)v));
                  own.push_back(1);
               }
            }
            trace += " set" + std::to_string(k) + "=" + std::to_string(v);
            um->registerChange(h, &h->p[k]);
            MRef x{k, cell[k], -1, false};
            if(inTx)tx.push_back(x);
            else { open.push_back(x); redo.clear(); }
            h->p[k] = v < 0 ? nullptr : t[(size_t)v];
            cell[k] = v;
            break;
         }
         case 4:
            if(inTx)break;
            trace += " close";
            um->close();
            if(open.size()) { undo.push_back(open); open.clear(); }
            break;
         case 5: case 6: case 7:
         {
            bool back = r.chance(0.6);
            trace += back ? " undo" : " redo";
            bool ok = open.empty() && !inTx && !(back ? undo : redo).empty();
            VH_CHECK((back ? um->undo() : um->redo()) == ok, "pointer-walk", trace);
            if(!ok)break;
            auto& from = back ? undo : redo;
            std::vector<MRef> s = from.back();
            from.pop_back();
            swapAll(s, back);
            (back ? redo : undo).push_back(s);
            count("pointerWalks");
            break;
         }
         default:
            if(!inTx)
            {
               trace += " begin";
               um->openTransaction();
               inTx = true;
            }
            else if(r.chance(0.5))
            {
               trace += " commit";
               um->commit();
               if(tx.size())redo.clear();
               for(auto& x : tx)open.push_back(x);
               tx.clear();
               inTx = false;
            }
            else
            {
               trace += " rollback";
               um->rollback();
               swapAll(tx, true);
               tx.clear();
               inTx = false;
            }
            break;
      }
      check("step");
   }
   if(r.chance(0.3) && !inTx)
   {
      um->clearStacks();
      open.clear();
      undo.clear();
      redo.clear();
      check("cleared");
   }
   delete um;
   open.clear();
   tx.clear();
   undo.clear();
   redo.clear();
   for(size_t i = 0; i < t.size(); i++)VH_CHECK(ends[i] == (own[i] ? 0 : 1), own[i] ? "pointed-dead" : "pointed-left", "object " << i << " without the history, after" << trace);
   for(size_t i = 0; i < t.size(); i++)if(own[i])t[i]->release();
   for(size_t i = 0; i < t.size(); i++)VH_CHECK(ends[i] == 1, "pointed-left", "object " << i << " at the end, after" << trace);
   h->release();
   gEnds = nullptr;
   distinct(hashStr(trace));
   count("pointerHistories");
}
// An object that recomputes a member from others whenever it is asked to regenerate: what it does while the manager replays is not recorded.
namespace {
class Derived : public jm::EditableObject
{
   public:
      int64 a = 0, b = 0, d = 0, seen = 0;
      Derived(jm::Document* doc): jm::EditableObject(doc) {}
      void regenerate() override
      {
         jm::EditableObject::regenerate();
         seen++;
         setMember(&d, a * 3 + b + seen, -1000000000, 1000000000);
      }
      void set(bool second, int64 v) { setMember(second ? &b : &a, v, -1000000, 1000000); }
};
}
VH_WORKLOAD(regenerating, 2500, 6000)
{
   Rng& r = c.r;
   Doc* doc = new Doc();
   jm::UndoManager* um = doc->undoManager();
   Derived* o = new Derived(doc);
   typedef std::pair<int64, int64> St;
   std::vector<St> line{{0, 0}};          // the states at step ends
   size_t at = 0;                         // the one the object is in
   bool open = false;
   St now{0, 0};
   std::string trace;
   for(int n = (int)r.range(4, 40); n--;)
   {
      int k = (int)r.below(8);
      if(k < 2 || (open && k == 5))
      {
         bool second = r.chance(0.5);
         int64 v = (second ? now.second : now.first) + (int64)r.range(1, 9);
         trace += second ? " b" : " a";
         o->set(second, v);
         (second ? now.second : now.first) = v;
         open = true;
         line.resize(at + 1);
      }
      else if(k == 2)
      {
         trace += " close";
         um->close();
         if(open) { line.push_back(now); at++; open = false; }
      }
      else if(k == 3)
      {
         trace += " rollback";
         um->openTransaction();
         for(int e = (int)r.range(1, 4); e--;)
         {
            bool second = r.chance(0.5);
            o->set(second, (second ? o->b : o->a) + 1);
         }
         int64 was = o->seen;
         um->rollback();
         if(o->seen != was)count("regeneratedRollbacks");
      }
      else
      {
         bool back = r.chance(0.55);
         trace += back ? " undo" : " redo";
         bool can = !open && (back ? at > 0 : at + 1 < line.size());
         int64 was = o->seen;
         bool did = back ? um->undo() : um->redo();
         VH_CHECK(did == can, "regenerate-step", (back ? "undo " : "redo ") << did << " instead of " << can << " after" << trace);
         if(can) { at = back ? at - 1 : at + 1; now = line[at]; }
         if(o->seen != was)count("regeneratedSteps");
      }
      VH_CHECK(o->a == now.first && o->b == now.second, "regenerate-value", o->a << "," << o->b << " instead of " << now.first << "," << now.second << " after" << trace);
      VH_CHECK(um->hasOpenUndoStep() == open, "regenerate-recorded", "open step " << um->hasOpenUndoStep() << " instead of " << open << " after" << trace);
      VH_CHECK(um->undoCount() == at && um->redoCount() == (line.size() - 1 - at), "regenerate-counts", um->undoCount() << "/" << um->redoCount() << " instead of " << at << "/" << line.size() - 1 - at << " after" << trace);
   }
   um->clearStacks();
   o->release();
   doc->release();
   distinct(hashStr(trace));
}
VH_REQUIRE("regeneratedRollbacks", "regeneratedSteps", "pointerHistories", "pointersRevived", "pointerWalks", "manyChanges", "manySteps", "largeBuffers", "largeRolledBack", "edits", "listEdits", "clears", "buffers", "references", "members", "steps", "undos", "redos", "blocked", "histories", "inactive", "committed", "leakHistories")
VH_DRIVER("P22", "all tracked values, lists, step counts and the document state are compared with a model after every operation")
