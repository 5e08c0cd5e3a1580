// C28: arguments may refer to elements of the container itself.
#include "adapters.hpp"
using namespace pbt;
// two containers with the same history; one gets references to its own
// elements, the other one copies of them
template<class A> void run(Src &s)
{
   typedef typename A::type C;
   C *x = LIB(new C()), *y = LIB(new C());
   TR("%s<%s>\n", A::name(), Name<typename A::elem>::s());
   unsigned aliased = 0, grown = 0;
   if (!A::KEYED || s.coin())
   {
      Ints in; for (unsigned n = s.below(9); n--;) in.push_back((int)s.below(24));
      TR("%s\n", show(in).c_str());
      LIB(A::build(*x, in), 0); LIB(A::build(*y, in), 0);
   }
   Ints last = observe<A>(*y);
   if (observe<A>(*x) != last) abandon();
   const unsigned len = s.below(4) ? 10 : 30;
   while (s.more(len))
   {
      Op o = draw_op(s, A::KINDS, 24, true);
      const size_t n = length(*x);
      const bool alias = o.al && n;
      TR("%s", alias ? "" : "plain ");
      const int r = A::apply(*x, o, true, true);
      if (alias && is_applied(r)) TR(" (the element %zu%s)", (size_t)(o.i % n), A::KEYED && (o.a & 1) ? ", for a key its value" : "");
      TR("\n");
      const int q = A::apply(*y, o, false, false);
      if (!is_applied(q) && !is_applied(r)) continue;
      STEP();
      const Ints dx = observe<A>(*x), dy = observe<A>(*y);
      if (dx != dy || r != q)
      {
         if (!alias) abandon(); // then it is not the alias
         pbt::fail("%s: with a reference to its element %zu as the argument the result is %s (returned %d), with a copy of it %s (returned %d)", A::name(), (size_t)(o.i % n), show(dx).c_str(), r, show(dy).c_str(), q);
      }
      if (alias) { ++aliased; CNT("argument is an element"); if (contents_part(dy).size() > contents_part(last).size()) { ++grown; CNT("growing, argument is an element"); } }
      if (alias && contents_part(dy).size() < contents_part(last).size()) CNT("shrinking, argument is an element");
      last = dy;
   }
   LIB(delete x, 0); LIB(delete y, 0);
   if (aliased >= 2) s.nontrivial();
}
const char *const pbt_name = "C28";
const char *const pbt_rule =
   "random histories applied to two containers of one kind at once, one being given references to elements of its own as the value or key arguments and the other copies of these elements; contents, "
   "results and everything which can be read must agree after every operation. Non-trivial: at least two operations with an element of the container as the argument";
const unsigned pbt_quick_cases = 500000, pbt_thorough_cases = 15000000;
void pbt_reset() {}
void pbt_property(Src &s)
{
   switch (s.below(20))
   {
   case 0: run<VectorAd<int> >(s); break;
   case 1: case 2: run<VectorAd<Val> >(s); break;
   case 3: run<VectorAd<Big> >(s); break;
   case 4: run<FvAd<Val>::of<4> >(s); break;
   case 5: run<FvAd<int>::of<13> >(s); break;
   case 6: case 7: run<ListAd<Val> >(s); break;
   case 8: run<ListAd<int> >(s); break;
   case 9: run<ForwardAd<Val> >(s); break;
   case 10: run<BackwardAd<Val> >(s); break;
   case 11: case 12: run<LazyAd<Val> >(s); break;
   case 13: case 14: run<TtlMapAd<Val> >(s); break;
   case 15: run<TtlSetAd<Val> >(s); break;
   case 16: run<SvMapAd<Val> >(s); break;
   case 17: run<SvMapAd<int, ttl::greater<int> > >(s); break;
   case 18: run<VMapAd<int> >(s); break;
   default: run<VMapAd<Val> >(s); break;
   }
}
#include "pbt_main.hpp"
