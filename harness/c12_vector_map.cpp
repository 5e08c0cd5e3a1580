// C12: ttl::vector_map against a plain sequence of pairs searched from the front.
#include "seq_vmap.hpp"
const char *const pbt_name = "C12";
const char *const pbt_rule =
   "random histories over two vector_maps (push_back of pairs also with keys which are there, insert, [], at, values changed through find and iterators, "
   "erase of one and of ranges, pop_back, resize, reserve, assign, clear, swap, copy construction, lookups) with key universes of 3..60 and five key/value types (of one == is coarse); "
   "compared with a sequence of pairs after every step. Non-trivial: at least 6 pairs at some point, a duplicate key, and lookups of an absent key and of a duplicate one";
const unsigned pbt_quick_cases = 1000000, pbt_thorough_cases = 10000000;
void pbt_reset() {}

void pbt_property(Src &s)
{
   switch (s.below(5))
   {
   case 0: VMapCase<int, int>(s).run(); break;
   case 1: VMapCase<Val, Big>(s).run(); break;
   case 2: VMapCase<Big, Odd>(s).run(); break;
   case 3: VMapCase<Half, Half>(s).run(); break;
   default: VMapCase<Odd, Val>(s).run(); break;
   }
}
#include "pbt_main.hpp"
