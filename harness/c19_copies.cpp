// C19: copies are equal and independent; self-assignment changes nothing.
#include "adapters.hpp"
using namespace pbt;
template<class A> struct Case
{
   typedef typename A::type C;
   enum { SLOTS = 3 };
   Src &s;
   C *c[SLOTS]; Ints d[SLOTS];
   bool copied[SLOTS];  // took part in a copy: its later behaviour is that of an ordinary container
   unsigned copies, selfs, later; bool onto;
   Case(Src &src): s(src), copies(0), selfs(0), later(0), onto(false) {}
   void same(int w, const char *after, const char *what)
   {
      Ints n = observe<A>(*c[w]);
      CHECK(n == d[w], "%s: after %s, %c (%s) reads %s, it was %s", A::name(), after, 'a' + w, what, show(n).c_str(), show(d[w]).c_str());
   }
   void others(int w, const char *after) { for (int i = 0; i < SLOTS; ++i) if (i != w && c[i]) same(i, after, "another container"); }
   C *fresh() { C *n = LIB(new C()); return n; }
   void step(int w)
   {
      Op o = draw_op(s, A::KINDS, 24, false);
      const Ints before = contents_part(d[w]);
      TR("%c.", 'a' + w);
      const int r = A::apply(*c[w], o, false, true);
      TR("\n");
      if (!is_applied(r)) return;
      STEP();
      const Ints now = observe<A>(*c[w]);
      if (copied[w])
      {
         // the same on a container which was filled the ordinary way
         ++later;
         C *t = fresh();
         LIB(A::build(*t, before), 0);
         if (observe<A>(*t) != d[w]) abandon(); // then filling it is what fails
         const int tr = A::apply(*t, o, false, false);
         const Ints then = observe<A>(*t);
         CHECK(tr == r && then == now, "%s: the operation on %c, which was copied, gives %s (result %d), on an ordinary one with the same contents it gives %s (result %d)", A::name(), 'a' + w, show(now).c_str(), r, show(then).c_str(), tr);
         LIB(delete t, 0);
         CNT("operation on a copied container");
      }
      d[w] = now;
      others(w, "an operation on one container");
   }
   void assign(std::true_type, int w, int v)
   {
      STEP();
      TR("%c = %c\n", 'a' + w, 'a' + v);
      C &t = *c[w]; const C &f = *c[v];
      C *r = LIB(&(t = f));
      CHECK(r == c[w], "%s: the assignment does not return its left side", A::name());
      if (w == v) { same(w, "assignment to itself", "itself"); ++selfs; CNT("self-assignment"); others(w, "a self-assignment"); return; }
      onto |= !contents_part(d[w]).empty() && contents_part(d[w]) != contents_part(d[v]);
      const Ints n = observe<A>(t);
      CHECK(n == d[v], "%s: after %c = %c, %c reads %s, but %c was %s", A::name(), 'a' + w, 'a' + v, 'a' + w, show(n).c_str(), 'a' + v, show(d[v]).c_str());
      d[w] = n; copied[w] = copied[v] = true; ++copies;
      others(-1, "an assignment");
      CNT("assignment");
   }
   void assign(std::false_type, int, int) {}
   void run()
   {
      TR("%s<%s>\n", A::name(), Name<typename A::elem>::s());
      for (int i = 0; i < SLOTS; ++i) { c[i] = fresh(); A::build(*c[i], Ints()); copied[i] = false; d[i] = observe<A>(*c[i]); }
      const unsigned len = s.below(4) ? 12 : 40;
      while (s.more(len))
      {
         const int w = s.below(SLOTS), v = s.below(SLOTS);
         switch (s.below(10))
         {
         default: step(w); break;
         case 6: // copy construction of v over w
         case 7:
            {
               if (w == v) break;
               const bool range = A::RANGE && s.below(3) == 0;
               STEP();
               TR("%c: %s of %c\n", 'a' + w, range ? "built from the range" : "copy", 'a' + v);
               C *n = range ? LIB(A::range(*c[v])) : LIB(new C(*(const C *)c[v]));
               C *old = c[w]; c[w] = n; copied[w] = copied[v] = true; ++copies;
               Ints k = observe<A>(*n);
               CHECK(k == d[v], "%s: a copy of %c reads %s instead of %s", A::name(), 'a' + v, show(k).c_str(), show(d[v]).c_str());
               d[w] = k;
               others(-1, "a copy construction");
               LIB(delete old, 0);
               others(-1, "the destruction of a container");
               if (range) CNT("construction from a range"); else CNT("copy construction");
               break;
            }
         case 8: assign(std::integral_constant<bool, A::ASSIGN>(), w, v); break;
         case 9:
            if (s.below(3)) assign(std::integral_constant<bool, A::ASSIGN>(), w, w);
            else
            {
               STEP();
               TR("%c is destroyed\n", 'a' + w);
               LIB(delete c[w], 0); c[w] = fresh(); A::build(*c[w], Ints()); copied[w] = false; d[w] = observe<A>(*c[w]);
               others(w, "the destruction of a container");
               CNT("destruction");
            }
            break;
         }
      }
      for (int i = 0; i < SLOTS; ++i)
      {
         LIB(delete c[i], 0); c[i] = 0;
         others(i, "the destruction of a container");
      }
      if (copies && later >= 2) s.nontrivial();
      CNT_IF(onto, "assignment over other contents");
   }
};
const char *const pbt_name = "C19";
const char *const pbt_rule =
   "random histories of three containers of one kind (all kinds with a copy constructor) of operations, copy constructions, constructions from the range of another, assignments (over anything, "
   "to itself) and destructions; a copy must read as its source, every container not operated on as before, and an operation on a container which took part in a copy must give what it gives on one filled "
   "the ordinary way. Non-trivial: at least one copy and two later operations on containers which took part in one";
const unsigned pbt_quick_cases = 250000, pbt_thorough_cases = 12000000;
void pbt_reset() {}
void pbt_property(Src &s)
{
   switch (s.below(20))
   {
   case 0: Case<VectorAd<int> >(s).run(); break;
   case 1: case 2: Case<VectorAd<Val> >(s).run(); break;
   case 3: Case<FvAd<Val>::of<1> >(s).run(); break;
   case 4: Case<FvAd<Big>::of<9> >(s).run(); break;
   case 5: case 6: Case<ListAd<Val> >(s).run(); break;
   case 7: case 8: Case<ForwardAd<Val> >(s).run(); break;
   case 9: case 10: Case<BackwardAd<Val> >(s).run(); break;
   case 11: case 12: Case<LazyAd<Val> >(s).run(); break;
   case 13: case 14: Case<TtlMapAd<Big> >(s).run(); break;
   case 15: Case<TtlSetAd<Val> >(s).run(); break;
   case 16: Case<SvMapAd<Val> >(s).run(); break;
   case 17: Case<VMapAd<Val> >(s).run(); break;
   case 18: if (s.coin()) Case<ArrAd<Big,5> >(s).run(); else Case<ArrAd<int,0> >(s).run(); break;
   default: if (s.coin()) Case<BitsAd<70> >(s).run(); else Case<BitsAd<5> >(s).run(); break;
   }
}
#include "pbt_main.hpp"
