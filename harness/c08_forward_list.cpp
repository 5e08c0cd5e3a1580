// C08: ttl::forward_list against a plain sequence with identities.
#include "seq_slist.hpp"
#include "ttl/forward_list.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/utility.hpp"
const char *const pbt_name = "C08";
const char *const pbt_rule =
   "random histories over two forward_lists (constructors, push_front, pop_front, insert_after of one, n and ranges, erase_after of one and of ranges, assign, clear, the three splice_after also within one list, reverse, swap, copy, assignment) with five element types; both containers are read after every step and compared with sequences of (value, address). Non-trivial: at least 4 elements, and elements were relinked (splice, reverse or swap)";
const unsigned pbt_quick_cases = 1000000, pbt_thorough_cases = 12000000;
void pbt_reset() {}
template<typename T> static void one(pbt::Src &s) { SlistCase<ttl::forward_list<T>, T, SL_SPLICE | SL_RANGE | SL_REVERSE>(s).run("forward_list"); }
void pbt_property(pbt::Src &s)
{
   switch (s.below(5))
   {
   case 0: one<int>(s); break;
   case 1: one<Val>(s); break;
   case 2: one<Big>(s); break;
   case 4: one<Half>(s); break;
   default: one<Odd>(s); break;
   }
}
#include "pbt_main.hpp"
