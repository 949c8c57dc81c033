// P23: transactions.
// VH-TECH: random nestings of transactions (commit, rollback, failing edits, explicit ends) inside undo histories against a snapshot model compared after every operation; ASan+UBSan, object-count and allocation-growth monitors
#include "undo_world.hpp"
using namespace vh;
static void history(Rng& r, size_t n, bool counted)
{
   World w(r, counted);
   for(size_t i = 0; i < n; i++)
   {
      switch(r.below(14))
      {
         case 0: if(w.level < 5)w.begin(); break;
         case 1: case 2: if(w.level > 0 || r.chance(0.05))w.end(r.chance(0.6) ? 0 : r.chance(0.5) ? 1 : 2); break;
         case 3: w.close(); break;
         case 4: w.step(true); break;
         case 5: w.step(false); break;
         case 6: case 7: w.memberEdit(true); break;
         case 8: if(r.chance(0.3))w.refEdit(); break;
         case 9:
            if(r.chance(0.3) && w.level > 0)
            {
               // success reports never clear an error, outside callers may report one
               static const jm::Status S[] = {jm::Status::eOK, jm::Status::eNotChanged, jm::Status::eInvalidInput};
               jm::Status s = S[r.below(3)];
               w.um->registerTransactionStatus(s);
               w.note("status" + std::to_string((int)s));
               if(s == jm::Status::eInvalidInput)w.txFailed = true;
               VH_CHECK(w.um->transactionStatus() == (w.txFailed ? jm::Status::eInvalidInput : jm::Status::eOK), "transactionStatus", w.log);
            }
            break;
         case 10: if(w.level == 0 && r.chance(0.1))w.clearStacks(); break;
         default: w.rawEdit();
      }
      w.check("operation");
   }
   while(w.level > 0)
   {
      if(!counted && w.level == 1)break;
      w.end((int)r.below(3));
      w.check("ending");
   }
   if(w.level)
   {
      // destroyed with an open transaction: finish the model only
      w.um->rollback();
      w.level = 0;
      w.m = w.txBefore;
   }
   w.close();
   size_t all = w.undoS.size();
   while(w.undoS.size()) { w.step(true); w.check("undo all"); }
   for(size_t k = 0; k < all; k++) { w.step(false); w.check("redo all"); }
   if(counted)count("histories");
}
VH_WORKLOAD(histories, 40000, 200000)
{
   history(c.r, (size_t)c.r.range(4, c.r.chance(0.1) ? 200 : 60), true);
   VH_CHECK(liveItems() == 0 && deadTwice() == 0, "objects-left", liveItems() << " items alive, " << deadTwice() << " destroyed twice");

}
// Compound setters in the documented style: all members or none.
VH_WORKLOAD(compound, 15000, 50000)
{
   Rng& r = c.r;
   {
      World w(r, true);
      for(int k = (int)r.range(1, 12); k--;)
      {
         w.begin();
         for(int q = (int)r.range(1, 4); q--;)
         {
            if(r.chance(0.3)) { w.begin(); w.memberEdit(true); w.memberEdit(true); w.end(0); }
            else w.memberEdit(true);
         }
         w.end(0);
         w.check("compound");
         if(r.chance(0.5))w.close();
         if(r.chance(0.3)) { w.step(true); w.check("undo"); }
         if(r.chance(0.3)) { w.step(false); w.check("redo"); }
      }
      count("compounds");
   }
   VH_CHECK(liveItems() == 0 && deadTwice() == 0, "objects-left", liveItems());
}
// Very deep nestings: only the outermost end decides.
VH_WORKLOAD(deep, 120, 1500)
{
   Rng& r = c.r;
   {
      World w(r, true);
      static const int N[] = {16, 31, 40, 127, 128, 129, 254, 255, 256, 257, 300, 511, 1024, 5000, 32767, 32768, 65535, 65536, 65537, 70000};
      for(int round = (int)r.range(1, 3); round--;)
      {
         for(int k = (int)r.below(3); k--;)w.rawEdit();
         if(r.chance(0.5))w.close();
         int n = r.chance(0.3) ? (int)r.range(6, 400) : N[r.below(20)];
         int edits = (int)r.below(12), checks = (int)r.range(4, 12);
         for(int i = 0; i < n; i++)
         {
            w.begin();
            if((int)r.below((uint64_t)n) < edits) { if(r.chance(0.5))w.memberEdit(true); else w.rawEdit(); }
            if((int)r.below((uint64_t)n) < checks) { if(r.chance(0.3))w.step(r.chance(0.5)); w.check("opening"); }
         }
         w.check("deepest");
         count("deepest");
         while(w.level > 0)
         {
            w.end(r.chance(0.97) ? 0 : (int)r.below(3));
            if((int)r.below((uint64_t)n) < edits / 2)w.memberEdit(true);
            if((int)r.below((uint64_t)n) < checks || w.level < 3)w.check("ending");
         }
         if(n > 250)count("deepNestings");
         if(r.chance(0.6))w.close();
         if(r.chance(0.6)) { w.step(true); w.check("undo"); }
         if(r.chance(0.4)) { w.step(false); w.check("redo"); }
      }
      distinct(hashStr(w.log));
   }
   VH_CHECK(liveItems() == 0 && deadTwice() == 0, "objects-left", liveItems());
}
// A manager may go while a transaction is open.
VH_WORKLOAD(abandoned, 300, 3000)
{
   Rng& r = c.r;
   size_t last = 0;
   int grown = 0;
   for(int k = 0; k < 6; k++)
   {
      Rng q = r;
      {
         Doc* doc = new Doc;
         Node* n = new Node(doc);
         n->openTransaction();
         for(int i = (int)q.range(1, 5); i--;)n->setMember(&n->i64, (int64)q.u64());
         n->setMember(&n->s, jm::String("x"));
         delete doc;
         VH_CHECK(n->referenceCount() == 1, "held", n->referenceCount());
         n->release();
      }
      size_t now = __sanitizer_get_current_allocated_bytes();
      if(k >= 3 && now > last)grown++;
      last = now;
   }
   VH_CHECK(grown < 3, "leak-abandoned", "allocated bytes grow");
   count("abandoned");
}
VH_WORKLOAD(leaks, 24, 200)
{
   size_t last = 0;
   int grown = 0;
   for(int k = 0; k < 6; k++)
   {
      Rng r = c.r;
      history(r, 40, false);
      size_t now = __sanitizer_get_current_allocated_bytes();
      if(k >= 3 && now > last + 16)grown++;
      last = now;
   }
   VH_CHECK(grown < 3, "leak", "allocated bytes grow with every identical history");
   count("leakHistories");
}
VH_REQUIRE("edits", "listEdits", "members", "rejected", "nan", "transactions", "nested", "committed", "rolledBack", "emptyRollbacks", "undos", "redos", "blocked", "histories", "compounds", "deepNestings", "abandoned", "leakHistories")
VH_DRIVER("P23", "all tracked values, lists, step counts and states are compared with a model after every operation")
