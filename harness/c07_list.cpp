// C07: ttl::list against a plain sequence whose elements have an identity
// (their address), over histories of operations on two lists.
#include "seq_list.hpp"
const char *const pbt_name = "C07";
const char *const pbt_rule =
   "random histories over two lists (constructors, push/pop at both ends, insert of one, n and ranges, erase of one and of ranges, resize, "
   "assign, clear, the three splices also within one list, merge with < and with an order that has ties, remove, remove_if, unique, reverse, "
   "swap, copy, assignment) with five element types (of one == and < are coarse); both lists are read in both directions after every step and compared with sequences of "
   "(value, address). Non-trivial: at least 4 elements, and elements were relinked (splice, merge, reverse or swap)";
const unsigned pbt_quick_cases = 900000, pbt_thorough_cases = 12000000;
void pbt_reset() {}
void pbt_probe()
{
   ttl::list<int> l;
   for (int i = 0; i < 5; ++i) l.push_back(i);
   ttl::list<int>::iterator a = l.begin(), b;
   ++a; b = a; ++b; ++b;
   l.erase(a, b);
   if (l.size() == 4) puts("probe list-erase-range present");
}
void pbt_property(Src &s)
{
   switch (s.below(5))
   {
   case 0: ListCase<int>(s).run(); break;
   case 1: ListCase<Val>(s).run(); break;
   case 2: ListCase<Big>(s).run(); break;
   case 3: ListCase<Half>(s).run(); break;
   default: ListCase<Odd>(s).run(); break;
   }
}
#include "pbt_main.hpp"
