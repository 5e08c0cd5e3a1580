// C01: ttl::map against an ordered reference dictionary (std::map), over
// generated operation histories.
#include "seq_map.hpp"
const char *const pbt_name = "C01";
const char *const pbt_rule =
   "random histories over two maps (insert, [], at, erase, bulk insert, range construction, copy, assignment, clear, "
   "lookups, bounds, traversals in both directions) with key universes of 4..1000, six key orders and several key/value types, keys among them of which different ones are equal; "
   "compared with std::map after every step. Non-trivial: at least 8 elements at some point, an erase of a present key and a lookup of an absent one";
const unsigned pbt_quick_cases = 300000, pbt_thorough_cases = 8000000;
void pbt_reset() {}

void pbt_property(Src &s)
{
   switch (s.below(9))
   {
   case 0: MapCase<int, int, ttl::less<int>, std::less<int> >(s).run(); break;
   case 1: MapCase<int, int, ttl::greater<int>, std::greater<int> >(s).run(); break;
   case 2: MapCase<Val, int, ttl::less<Val>, std::less<int> >(s).run(); break;
   case 3: MapCase<Val, Big, ByParity<Val>, ByParity<int> >(s).run(); break;
   case 4: MapCase<int, Val, ByLess<int>, std::less<int> >(s).run(); break;
   case 5: MapCase<Big, Odd, ttl::greater<Big>, std::greater<int> >(s).run(); break;
   case 7: MapCase<Half, int, ttl::less<Half>, HalfLess<int> >(s).run(); break;
   case 8: MapCase<Half, Half, ByGreater<Half>, HalfGreater<int> >(s).run(); break;
   default: MapCase<int, Val, ByGreater<int>, std::greater<int> >(s).run(); break;
   }
}
#include "pbt_main.hpp"
