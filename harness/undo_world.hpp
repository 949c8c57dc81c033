// Shared by P22..P24: a document with editable nodes, and a model of it made of plain values.
#pragma once
#include "vh.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace vh
{
   struct Doc: jm::Document
   {
      bool saveDocument() override { return true; }
      bool loadDocument() override { return true; }
      jm::Status initNewDocument(jm::Preferences*) override { return jm::Status::eOK; }
   };
   inline int& liveItems() { static int n = 0; return n; }
   inline int& deadTwice() { static int n = 0; return n; }
   struct Item: jm::Object
   {
      int id;
      uint32_t magic = 0xabcd1234;
      explicit Item(int i): id(i) { liveItems()++; }
      ~Item() noexcept override
      {
         if(magic != 0xabcd1234)deadTwice()++;
         magic = 0;
         liveItems()--;
      }
      jm::String displayName() const override { return "Item"; }
   };
   const size_t kBuf = 13;
   struct Node: jm::EditableObject
   {
      bool b = false;
      int8 i8 = 0; uint8 u8 = 0; int16 i16 = 0; uint16 u16 = 0; int32 i32 = 0; uint32 u32 = 0; int64 i64 = 0; uint64 u64 = 0;
      float f = 0; double d = 0;
      jm::String s; jm::Vertex2 v2; jm::Vertex3 v3; jm::Date date{(int64)0}; jm::Color col;
      jm::Object* ref = nullptr;
      uint8* buf;
      uint8* tiny;
      jm::LinkedList* list;
      explicit Node(jm::Document* d_): jm::EditableObject(d_)
      {
         buf = new uint8[kBuf]();
         tiny = new uint8[3]();
         list = new jm::LinkedList(this);
      }
      ~Node() noexcept override
      {
         delete[] buf;
         delete[] tiny;
         list->release();
      }
      jm::String displayName() const override { return "Node"; }
   };
   // The same as plain values
   struct MNode
   {
      bool b = false;
      int8 i8 = 0; uint8 u8 = 0; int16 i16 = 0; uint16 u16 = 0; int32 i32 = 0; uint32 u32 = 0; int64 i64 = 0; uint64 u64 = 0;
      float f = 0; double d = 0;
      U s; double x2 = 0, y2 = 0, x3 = 0, y3 = 0, z3 = 0; int64 date = 0; std::array<uint8, 6> col{};
      int ref = -1;
      std::array<uint8, kBuf> buf{};
      std::array<uint8, 3> tiny{};
      std::vector<int> list;
   };
   inline uint64_t bits(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
   inline std::array<uint8, 6> colOf(const jm::Color& c)
   {
      std::array<uint8, 6> a{};
      a[0] = (uint8)c.mode();
      a[1] = c.alpha();
      switch(c.mode())
      {
         case jm::ColorMode::kGrey: a[2] = c.grey(); break;
         case jm::ColorMode::kRgb: a[2] = c.red(); a[3] = c.green(); a[4] = c.blue(); break;
         case jm::ColorMode::kCmyk: a[2] = c.cyan(); a[3] = c.magenta(); a[4] = c.yellow(); a[5] = c.key(); break;
      }
      return a;
   }
   struct MState
   {
      std::vector<MNode> n;
      std::vector<int> held;   // extra references taken through the manager, per item
   };
   inline std::string diffNode(const Node& a, const MNode& m)
   {
      std::ostringstream o;
#define VH_F(x) if(!(a.x == m.x))o << #x << " is " << +a.x << " want " << +m.x << "; ";
      VH_F(b) VH_F(i8) VH_F(u8) VH_F(i16) VH_F(u16) VH_F(i32) VH_F(u32) VH_F(i64) VH_F(u64)
#undef VH_F
      if(bits(a.f) != bits(m.f))o << "f is " << a.f << " want " << m.f << "; ";
      if(bits(a.d) != bits(m.d))o << "d is " << a.d << " want " << m.d << "; ";
      if(rd(a.s) != m.s)o << "s is " << show(a.s) << " want " << show(m.s) << "; ";
      if(bits(a.v2.x) != bits(m.x2) || bits(a.v2.y) != bits(m.y2))o << "v2 is " << a.v2.x << "," << a.v2.y << " want " << m.x2 << "," << m.y2 << "; ";
      if(bits(a.v3.x) != bits(m.x3) || bits(a.v3.y) != bits(m.y3) || bits(a.v3.z) != bits(m.z3))o << "v3 is " << a.v3.x << " want " << m.x3 << "; ";
      if(a.date.time() != m.date)o << "date is " << a.date.time() << " want " << m.date << "; ";
      if(colOf(a.col) != m.col)o << "color differs; ";
      int r = a.ref ? static_cast<Item*>(a.ref)->id : -1;
      if(r != m.ref)o << "ref is " << r << " want " << m.ref << "; ";
      if(memcmp(a.buf, m.buf.data(), kBuf))o << "buffer differs; ";
      if(memcmp(a.tiny, m.tiny.data(), 3))o << "small buffer differs; ";
      std::vector<int> l, back;
      jm::LinkedListIterator it = a.list->iterator();
      while(it.hasNext() && l.size() < 100)l.push_back(static_cast<Item*>(it.next())->id);
      a.list->rewind();
      for(size_t k = 0; a.list->hasNext() && k < 100; k++)back.push_back(static_cast<Item*>(a.list->next())->id);
      auto sh = [](const std::vector<int>& v) { std::string s; for(int x : v)s += std::to_string(x) + " "; return s; };
      if(l != m.list)o << "list is " << sh(l) << "want " << sh(m.list) << "; ";
      if(back != m.list)o << "list walked directly is " << sh(back) << "want " << sh(m.list) << "; ";
      if(a.list->size() != m.list.size())o << "list size " << a.list->size() << " want " << m.list.size() << "; ";
      int f = a.list->first() ? static_cast<Item*>(a.list->first())->id : -1, la = a.list->last() ? static_cast<Item*>(a.list->last())->id : -1;
      if(m.list.size() && (f != m.list.front() || la != m.list.back()))o << "list ends " << f << " " << la << "; ";
      if(m.list.empty() && (f != -1 || la != -1))o << "empty list has ends; ";
      return o.str();
   }
   struct Step
   {
      MState before, after;
      std::set<int> touched;
   };
   struct World
   {
      Rng& r;
      bool counted;
      Doc* doc;
      jm::UndoManager* um;
      std::vector<Node*> nodes;
      std::vector<Item*> items;
      MState m;
      // open step
      bool open = false;
      Step cur;
      std::vector<Step> undoS, redoS;
      // transaction
      int level = 0;
      bool txFailed = false, txChanged = false, active = true;
      MState txBefore;
      std::set<int> txTouched;
      bool changedFlag = false;
      std::string log;
      // alone: a manager of its own, without a document
      World(Rng& r_, bool counted_, bool alone = false): r(r_), counted(counted_)
      {
         doc = alone ? nullptr : new Doc;
         um = alone ? new jm::UndoManager : doc->undoManager();
         if(alone)
         {
            VH_CHECK(!um->isActive(), "alone-active", "a new manager records before it is told to");
            um->setActive(true);
            cnt("alone");
         }
         for(int n = (int)r.range(1, 3); n--;)nodes.push_back(new Node(doc));
         for(int i = 0; i < 6; i++)items.push_back(new Item(i));
         m.n.resize(nodes.size());
         m.held.resize(items.size());
         for(size_t i = 0; i < nodes.size(); i++)m.n[i].col = colOf(nodes[i]->col);
      }
      ~World()
      {
         if(counted)distinct(hashBytes(log.data(), log.size()));
         if(doc)
         {
            um->clearStacks();
            delete doc;
         }
         else um->release();   // still full, perhaps open
         for(auto n : nodes)n->release();
         for(size_t i = 0; i < items.size(); i++)
         {
            for(int k = m.held[i]; k > 0; k--)items[i]->release();
            items[i]->release();
         }
      }
      void note(const std::string& s) { if(log.size() < 3000)log += s + " "; }
      void cnt(const char* n) { if(counted)count(n); }
      void check(const char* when)
      {
         eval();
         for(size_t i = 0; i < nodes.size(); i++)
         {
            std::string d = diffNode(*nodes[i], m.n[i]);
            if(d.size())fail("state", std::string(when) + ": node " + std::to_string(i) + " " + d + " after " + log);
         }
         VH_CHECK(um->undoCount() == undoS.size() && um->redoCount() == redoS.size(), "counts", when << ": undo " << um->undoCount() << " want " << undoS.size() << ", redo " << um->redoCount() << " want " << redoS.size() << " after " << log);
         VH_CHECK(um->hasOpenUndoStep() == open, "open-step", when << " after " << log);
         VH_CHECK(um->hasOpenTransaction() == (level > 0), "open-transaction", when << " after " << log);
         if(doc)VH_CHECK(doc->isDocumentChanged() == changedFlag, "document-changed", when << ": " << doc->isDocumentChanged() << " after " << log);
         for(auto it : items)VH_CHECK(it->magic == 0xabcd1234 && it->referenceCount() > 0, "item-destroyed", when << " after " << log);
      }
      // A change gets recorded: call before the model changes.
      void recorded(int node)
      {
         if(!active)return;
         if(level > 0)
         {
            txChanged = true;
            if(node >= 0)txTouched.insert(node);
            return;
         }
         if(!open)
         {
            open = true;
            cur = Step();
            cur.before = m;
         }
         if(node >= 0)cur.touched.insert(node);
         redoS.clear();
      }
      double special(bool nan)
      {
         static const double T[] = {0, -0.0, 1, -1, 1e300, -1e300, 5e-324, INFINITY, -INFINITY, 1e-7, 123456.789};
         if(nan && r.chance(0.1))return NAN;
         return r.chance(0.4) ? T[r.below(11)] : r.real(-1000, 1000);
      }
      // Edit by recording and assigning. Every tracked type.
      void rawEdit()
      {
         int k = (int)r.below(nodes.size());
         Node& a = *nodes[(size_t)k];
         MNode& x = m.n[(size_t)k];
         int t = (int)r.below(22);
         note("edit" + std::to_string(t));
         if(t >= 19) { listEdit(k); return; }
         recorded(k);
         bool same = r.chance(0.1);   // recorded but not altered
#define VH_T(no, field, value) case no: { um->registerChange(&a, &a.field); if(!same) { a.field = value; x.field = a.field; } break; }
         switch(t)
         {
            VH_T(0, b, r.chance(0.5))
            VH_T(1, i8, (int8)r.u64())
            VH_T(2, u8, (uint8)r.u64())
            VH_T(3, i16, (int16)r.u64())
            VH_T(4, u16, (uint16)r.u64())
            VH_T(5, i32, (int32)r.u64())
            VH_T(6, u32, (uint32)r.u64())
            VH_T(7, i64, (int64)r.u64())
            VH_T(8, u64, r.u64())
            VH_T(9, f, (float)special(true))
            VH_T(10, d, special(true))
            case 11:
            {
               um->registerChange(&a, &a.s);
               if(same)break;
               x.s.clear();
               for(int n = (int)r.below(r.chance(0.1) ? 400 : 12); n--;)x.s += (char16_t)r.range(1, 0xffff);
               a.s = mk(x.s);
               break;
            }
            case 12: um->registerChange(&a, &a.v2); if(!same) { a.v2.x = x.x2 = special(false); if(r.chance(0.5))a.v2.y = x.y2 = special(false); } break;
            case 13: um->registerChange(&a, &a.v3); if(!same) { a.v3.x = x.x3 = special(false); if(r.chance(0.5))a.v3.y = x.y3 = special(false); a.v3.z = x.z3 = special(false); } break;
            case 14: um->registerChange(&a, &a.date); if(!same) { x.date = (int64)(r.u64() >> r.range(1, 60)); if(r.chance(0.1))x.date = jm::Date::EMPTY; a.date = jm::Date(x.date); } break;
            case 15:
            {
               um->registerChange(&a, &a.col);
               if(same)break;
               uint8 q[5];
               for(auto& z : q)z = (uint8)r.u64();
               switch(r.below(4))
               {
                  case 0: a.col = jm::Color::fromGrey(q[0], q[4]); break;
                  case 1: a.col = jm::Color::fromRgb(q[0], q[1], q[2], q[4]); break;
                  case 2: a.col = jm::Color::fromCmyk(q[0], q[1], q[2], q[3], q[4]); break;
                  case 3: a.col.setAlpha(q[4]); break;
               }
               x.col = colOf(a.col);
               break;
            }
            case 16:
            {
               um->registerChange(&a, &a.ref);
               if(same)break;
               int i = (int)r.range(-1, (long)items.size() - 1);
               a.ref = i < 0 ? nullptr : items[(size_t)i];
               x.ref = i;
               break;
            }
            case 17:
            {
               bool tiny = r.chance(0.3);
               um->registerChange(&a, tiny ? &a.tiny : &a.buf, tiny ? 3 : kBuf);
               if(same)break;
               size_t len = tiny ? 3 : kBuf;
               for(int n = (int)r.below(5); n--;)
               {
                  size_t p = r.below(len);
                  uint8 v = (uint8)r.u64();
                  if(tiny)a.tiny[p] = x.tiny[p] = v;
                  else a.buf[p] = x.buf[p] = v;
               }
               cnt("buffers");
               break;
            }
            case 18: um->registerRegenerationMarker(&a); cnt("markers"); break;
         }
#undef VH_T
         cnt("edits");
      }
      void listEdit(int k)
      {
         jm::LinkedList& l = *nodes[(size_t)k]->list;
         std::vector<int>& x = m.n[(size_t)k].list;
         auto fresh = [&]() -> int
         {
            for(int t = 0; t < 10; t++)
            {
               int i = (int)r.below(items.size());
               if(std::find(x.begin(), x.end(), i) == x.end())return i;
            }
            return -1;
         };
         cnt("listEdits");
         switch(r.below(6))
         {
            case 0: case 1:
            {
               int i = fresh();
               if(i < 0)return;
               recorded(-1);
               l.add(items[(size_t)i], um);
               x.push_back(i);
               break;
            }
            case 2:
            {
               int i = fresh();
               if(i < 0 || x.empty())return;
               size_t p = r.below(x.size());
               recorded(-1);
               l.addBefore(items[(size_t)x[p]], items[(size_t)i], um);
               x.insert(x.begin() + (long)p, i);
               break;
            }
            case 3:
            {
               if(x.empty())return;
               size_t p = r.below(x.size());
               recorded(-1);
               l.remove(items[(size_t)x[p]], um);
               x.erase(x.begin() + (long)p);
               break;
            }
            case 4:
            {
               if(x.size() < 2)return;
               size_t p = r.below(x.size()), q = r.below(x.size());
               if(p == q)return;
               recorded(-1);
               l.swapData(items[(size_t)x[p]], items[(size_t)x[q]], um);
               std::swap(x[p], x[q]);
               break;
            }
            case 5:
               if(!r.chance(0.3) || x.empty())return;
               recorded(-1);
               l.clear(um);
               x.clear();
               cnt("clears");
               break;
         }
      }
      // Reference counts as a tracked value
      void refEdit()
      {
         size_t i = r.below(items.size());
         if(!active)return;
         if(m.held[i] > 0 && r.chance(0.5))
         {
            recorded(-1);
            um->registerRelease(items[i]);
            items[i]->release();
            m.held[i]--;
            note("release");
         }
         else
         {
            recorded(-1);
            um->registerRetain(items[i]);
            items[i]->retain();
            m.held[i]++;
            note("retain");
         }
         cnt("references");
      }
      // Through EditableObject::setMember
      void memberEdit(bool allowBad)
      {
         if(!doc) { rawEdit(); return; }
         int k = (int)r.below(nodes.size());
         Node& a = *nodes[(size_t)k];
         MNode& x = m.n[(size_t)k];
         jm::Status want = jm::Status::eOK, got = jm::Status::eOK;
         bool same = r.chance(0.2);
         int t = (int)r.below(7);
         if(same)want = jm::Status::eNotChanged;
         note("set" + std::to_string(t) + (same ? "=" : ""));
         auto pre = [&](bool ok) { if(ok)recorded(k); };
         switch(t)
         {
            case 0:
            {
               U v = x.s;
               if(!same)v += (char16_t)r.range(33, 0xfff);
               if(!same && r.chance(0.2) && x.s.size())v.clear();
               pre(!same);
               got = a.setMember(&a.s, mk(v));
               x.s = v;
               break;
            }
            case 1:
            {
               int64 lo = INT64_MIN, hi = INT64_MAX;
               if(r.chance(0.7)) { lo = (int64)r.u64() >> r.below(64); hi = (int64)r.u64() >> r.below(64); if(lo > hi && r.chance(0.9))std::swap(lo, hi); }
               int64 v = r.chance(0.3) ? (int64)r.u64() : r.chance(0.25) ? lo : r.chance(0.33) ? hi : r.chance(0.5) ? (lo > INT64_MIN ? lo - 1 : lo) : (hi < INT64_MAX ? hi + 1 : hi);
               if(same)v = x.i64;
               if(v == x.i64)want = jm::Status::eNotChanged;
               else if(v < lo || v > hi)
               {
                  want = jm::Status::eInvalidInput;
                  if(!allowBad)return;
                  if(level > 0 )txFailed = true;
                  cnt("rejected");
               }
               else { pre(true); x.i64 = v; cnt("ranges"); }
               if(lo == INT64_MIN && hi == INT64_MAX && r.chance(0.5))got = a.setMember(&a.i64, v);
               else got = a.setMember(&a.i64, v, lo, hi);
               break;
            }
            case 2:
            {
               double v = special(false);
               if(same)v = x.d;
               if(allowBad && r.chance(0.15))v = NAN;
               if(std::isnan(v))
               {
                  if(!allowBad)return;
                  want = jm::Status::eInvalidInput;
                  if(level > 0)txFailed = true;
                  cnt("nan");
               }
               else if(v == x.d)want = jm::Status::eNotChanged;
               else { want = jm::Status::eOK; pre(true); x.d = v; }
               got = a.setMember(&a.d, v);
               break;
            }
            case 3: { bool v = same ? x.b : !x.b; pre(!same); got = a.setMember(&a.b, v); x.b = v; break; }
            case 4: { uint8 v = same ? x.u8 : (uint8)(x.u8 + r.range(1, 255)); pre(!same); got = a.setMember(&a.u8, v); x.u8 = v; break; }
            case 5: { int16 v = same ? x.i16 : (int16)(x.i16 + r.range(1, 65535)); pre(!same); got = a.setMember(&a.i16, v); x.i16 = v; break; }
            case 6:
            {
               // vertices are compared with tolerance: only clear differences
               if(std::fabs(x.x3) > 1e5 || std::fabs(x.y3) > 1e5 || std::fabs(x.z3) > 1e5)return;
               jm::Vertex3 v(x.x3, x.y3, x.z3);
               if(!same)(r.chance(0.33) ? v.x : r.chance(0.5) ? v.y : v.z) += (r.chance(0.5) ? 1 : -1) * r.real(0.5, 100);
               pre(!same);
               got = a.setMember(&a.v3, v);
               if(!same) { x.x3 = v.x; x.y3 = v.y; x.z3 = v.z; }
               break;
            }
         }
         VH_CHECK(got == want, "member-status", "type " << t << " status " << (int)got << " want " << (int)want << " after " << log);
         cnt("members");
      }
      void close()
      {
         note("close");
         um->close();
         if(open)
         {
            cur.after = m;
            if(level > 0)cur.after = txBefore;   // edits of an open transaction belong to the next step
            undoS.push_back(cur);
            open = false;
            changedFlag = true;
            cnt("steps");
         }
      }
      void step(bool undo)
      {
         note(undo ? "undo" : "redo");
         bool can = !open && level == 0 && (undo ? undoS.size() : redoS.size()) > 0;
         for(auto n : nodes)n->regenerationDone();
         bool did = undo ? um->undo() : um->redo();
         VH_CHECK(did == can, undo ? "undo-status" : "redo-status", did << " want " << can << " after " << log);
         if(!can)
         {
            cnt("blocked");
            return;
         }
         std::vector<Step>& from = undo ? undoS : redoS, & to = undo ? redoS : undoS;
         Step s = from.back();
         from.pop_back();
         m = undo ? s.before : s.after;
         to.push_back(s);
         changedFlag = true;
         for(size_t i = 0; i < nodes.size(); i++)VH_CHECK(nodes[i]->shouldRegenerate() == (s.touched.count((int)i) > 0), "regenerate", "node " << i << " " << nodes[i]->shouldRegenerate() << " after " << log);
         cnt(undo ? "undos" : "redos");
      }
      void begin()
      {
         note("begin");
         if(level == 0)
         {
            txBefore = m;
            txFailed = txChanged = false;
            txTouched.clear();
         }
         level++;
         if(!doc || r.chance(0.5))um->openTransaction();
         else VH_CHECK(nodes[r.below(nodes.size())]->openTransaction() == jm::Status::eOK, "openTransaction", log);
         cnt(level > 1 ? "nested" : "transactions");
      }
      void end(int how)   // 0 close, 1 commit, 2 rollback
      {
         note(how == 0 ? "closeTx" : how == 1 ? "commit" : "rollback");
         if(how == 0)
         {
            jm::Status want = level > 0 && txFailed ? jm::Status::eInvalidInput : jm::Status::eOK;
            jm::Status got = !doc || r.chance(0.5) ? um->closeTransaction() : nodes[0]->closeTransaction();
            if(level > 0)VH_CHECK(got == want, "closeTransaction-status", (int)got << " want " << (int)want << " after " << log);
         }
         else if(how == 1)um->commit();
         else um->rollback();
         if(level == 0)return;
         level--;
         if(level > 0)return;
         bool keep = how == 1 || (how == 0 && !txFailed);
         if(keep)
         {
            MState now = m;
            if(txChanged && active)
            {
               m = txBefore;
               recorded(-1);
               m = now;
               cur.touched.insert(txTouched.begin(), txTouched.end());
            }
            cnt("committed");
         }
         else
         {
            m = txBefore;
            cnt(txChanged ? "rolledBack" : "emptyRollbacks");
         }
      }
      void clearStacks()
      {
         int how = (int)r.below(3);
         note("clear" + std::to_string(how));
         if(how == 0)
         {
            if(open)changedFlag = true;
            um->clearStacks();
            open = false;
            undoS.clear();
            redoS.clear();
         }
         else if(how == 1) { um->clearUndoStack(); undoS.clear(); }
         else { um->clearRedoStack(); redoS.clear(); }
      }
   };
}
