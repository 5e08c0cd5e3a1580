// C02: ttl::set against an ordered reference set (std::set).
#include "seq_set.hpp"
const char *const pbt_name = "C02";
const char *const pbt_rule =
   "random histories over two sets (insert, erase, bulk insert, range construction, copy, assignment, clear, lookups, bounds, "
   "traversals in both directions) with key universes of 4..1000, six key orders and five key types, among them values of which different ones are equal; compared with std::set "
   "after every step. Non-trivial: at least 8 elements at some point, an erase of a present key and a lookup of an absent one";
const unsigned pbt_quick_cases = 250000, pbt_thorough_cases = 8000000;
void pbt_reset() {}

void pbt_property(Src &s)
{
   switch (s.below(8))
   {
   case 0: SetCase<int, ttl::less<int>, std::less<int> >(s).run(); break;
   case 1: SetCase<int, ttl::greater<int>, std::greater<int> >(s).run(); break;
   case 2: SetCase<Val, ttl::less<Val>, std::less<int> >(s).run(); break;
   case 3: SetCase<Val, ByParity<Val>, ByParity<int> >(s).run(); break;
   case 4: SetCase<Big, ByGreater<Big>, std::greater<int> >(s).run(); break;
   case 6: SetCase<Half, ttl::less<Half>, HalfLess<int> >(s).run(); break;
   case 7: SetCase<Half, ByGreater<Half>, HalfGreater<int> >(s).run(); break;
   default: SetCase<Odd, ttl::less<Odd>, std::less<int> >(s).run(); break;
   }
}
#include "pbt_main.hpp"
