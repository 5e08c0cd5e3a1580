// C11: ttl::sorted_vector_map against an ordered reference dictionary.
#include "seq_svmap.hpp"
const char *const pbt_name = "C11";
const char *const pbt_rule =
   "random histories over two sorted_vector_maps (construction empty and with storage for n elements, insert, [], at, values changed through iterators, clear, "
   "copy construction, all lookups and bounds, traversals in both directions) with key universes of 4..400, four key orders and six key/value types; "
   "compared with std::map after every step. Non-trivial: at least 8 elements at some point, an insertion in front of others and a lookup of an absent key";
const unsigned pbt_quick_cases = 500000, pbt_thorough_cases = 8000000;
void pbt_reset() {}

void pbt_property(Src &s)
{
   switch (s.below(7))
   {
   case 0: SvMapCase<int, int, ttl::less<int>, std::less<int> >(s).run(); break;
   case 1: SvMapCase<int, Val, ttl::greater<int>, std::greater<int> >(s).run(); break;
   case 2: SvMapCase<Val, int, ttl::less<Val>, std::less<int> >(s).run(); break;
   case 3: SvMapCase<Val, Big, ByParity<Val>, ByParity<int> >(s).run(); break;
   case 4: SvMapCase<Big, Odd, ttl::greater<Big>, std::greater<int> >(s).run(); break;
   case 6: SvMapCase<Half, Half, ttl::less<Half>, HalfLess<int> >(s).run(); break;
   default: SvMapCase<Odd, Val, ByLess<Odd>, std::less<int> >(s).run(); break;
   }
}
#include "pbt_main.hpp"
