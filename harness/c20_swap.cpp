// C20: swap exchanges the contents of two containers completely.
#include "adapters.hpp"
using namespace pbt;
template<class A> struct Case
{
   typedef typename A::type C;
   enum { SLOTS = 3 };
   Src &s;
   C *c[SLOTS]; Ints d[SLOTS];
   bool swapped[SLOTS];
   unsigned swaps, later; bool uneven, with_empty;
   Case(Src &src): s(src), swaps(0), later(0), uneven(false), with_empty(false) {}
   void same(int w, const char *after)
   {
      Ints n = observe<A>(*c[w]);
      CHECK(n == d[w], "%s: after %s, %c reads %s instead of %s", A::name(), after, 'a' + w, show(n).c_str(), show(d[w]).c_str());
   }
   void all(const char *after, int but = -1) { for (int i = 0; i < SLOTS; ++i) if (i != but) same(i, after); }
   void step(int w)
   {
      Op o = draw_op(s, A::KINDS, 24, false);
      const Ints before = contents_part(d[w]);
      TR("%c.", 'a' + w);
      const int r = A::apply(*c[w], o, false, true);
      TR("\n");
      if (!is_applied(r)) return;
      STEP();
      const Ints now = observe<A>(*c[w]);
      if (swapped[w])
      {
         ++later;
         C *t = LIB(new C());
         LIB(A::build(*t, before), 0);
         if (observe<A>(*t) != d[w]) abandon(); // then filling it is what fails
         const int tr = A::apply(*t, o, false, false);
         const Ints then = observe<A>(*t);
         CHECK(tr == r && then == now, "%s: the operation on %c, which was swapped, gives %s (result %d), on an ordinary one with the same contents it gives %s (result %d)", A::name(), 'a' + w, show(now).c_str(), r, show(then).c_str(), tr);
         LIB(delete t, 0);
         CNT("operation on a swapped container");
      }
      d[w] = now;
      all("an operation on another one", w);
   }
   void run()
   {
      TR("%s<%s>\n", A::name(), Name<typename A::elem>::s());
      for (int i = 0; i < SLOTS; ++i)
      {
         c[i] = LIB(new C());
         Ints x; if (s.below(3)) for (unsigned n = s.below(8); n--;) x.push_back((int)s.below(24));
         TR("%c: %s\n", 'a' + i, show(x).c_str());
         LIB(A::build(*c[i], x), 0); swapped[i] = false; d[i] = observe<A>(*c[i]);
      }
      const unsigned len = s.below(4) ? 12 : 40;
      while (s.more(len))
      {
         const int w = s.below(SLOTS), v = s.below(SLOTS);
         switch (s.below(8))
         {
         default: step(w); break;
         case 4: case 5: case 6: case 7:
            {
               const unsigned how = s.below(4);
               STEP();
               if (how) { TR("%c.swap(%c)\n", 'a' + w, 'a' + v); LIB(c[w]->swap(*c[v]), 0); }
               else { TR("ttl::swap(%c, %c)\n", 'a' + w, 'a' + v); LIB(ttl::swap(*c[w], *c[v]), 0); }
               if (w != v)
               {
                  const Ints x = contents_part(d[w]), y = contents_part(d[v]);
                  uneven |= x.size() != y.size(); with_empty |= x.empty() != y.empty();
                  d[w].swap(d[v]); swapped[w] = swapped[v] = true; ++swaps;
                  CNT("swap");
                  CNT_IF(x.empty() != y.empty(), "swap with an empty one");
                  CNT_IF(x.size() != y.size(), "swap of different sizes");
               }
               else CNT("swap with itself");
               all(how ? "swap" : "ttl::swap");
               break;
            }
         }
      }
      for (int i = 0; i < SLOTS; ++i)
      {
         LIB(delete c[i], 0);
         for (int j = i + 1; j < SLOTS; ++j) same(j, "the destruction of another one");
      }
      if (swaps && later >= 2) s.nontrivial();
   }
};
const char *const pbt_name = "C20";
const char *const pbt_rule =
   "random histories of three containers of one kind (vector, fixed_vector of three capacities, list, forward_list, backward_list, lazy_queue, array; element types among them one whose == looks at a part) of operations, member swaps, ttl::swap and swaps with itself; "
   "both must read as the other did before, everything else as before, and an operation on a container which was swapped must give what it gives on one filled "
   "the ordinary way. Non-trivial: at least one swap of two containers and two later operations on swapped ones";
const unsigned pbt_quick_cases = 400000, pbt_thorough_cases = 15000000;
void pbt_reset() {}
void pbt_property(Src &s)
{
   switch (s.below(19))
   {
   case 0: Case<VectorAd<int> >(s).run(); break;
   case 1: Case<VectorAd<Val> >(s).run(); break;
   case 2: Case<VectorAd<Half> >(s).run(); break;
   case 3: Case<FvAd<Val>::of<1> >(s).run(); break;
   case 4: Case<FvAd<Half>::of<4> >(s).run(); break;
   case 5: Case<FvAd<Big>::of<12> >(s).run(); break;
   case 6: case 7: Case<ListAd<Val> >(s).run(); break;
   case 8: Case<ListAd<Half> >(s).run(); break;
   case 9: Case<ForwardAd<Val> >(s).run(); break;
   case 10: Case<ForwardAd<Half> >(s).run(); break;
   case 11: Case<BackwardAd<Val> >(s).run(); break;
   case 12: Case<BackwardAd<Half> >(s).run(); break;
   case 13: Case<LazyAd<Val> >(s).run(); break;
   case 14: Case<LazyAd<Half> >(s).run(); break;
   case 15: Case<ArrAd<Big,5> >(s).run(); break;
   case 17: Case<ArrAd<Half,3> >(s).run(); break;
   case 18: Case<FvAd<Half>::of<2> >(s).run(); break;
   default: if (s.coin()) Case<ArrAd<int,0> >(s).run(); else Case<ArrAd<Val,1> >(s).run(); break;
   }
}
#include "pbt_main.hpp"
