// C09: ttl::backward_list against a plain sequence with identities.
#include "seq_slist.hpp"
#include "ttl/backward_list.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/utility.hpp"
const char *const pbt_name = "C09";
const char *const pbt_rule =
   "random histories over two backward_lists (constructors, push_front, push_back, pop_front, insert_after of one, n and ranges, erase_after of one and of ranges, assign, clear, reverse, swap, copy, assignment) with five element types (of one == and < are coarse); before_end() and back() are checked each time; both containers are read after every step and compared with sequences of (value, address). Non-trivial: at least 4 elements, and the last element changed through something else than push_back, and elements were relinked (reverse or swap)";
const unsigned pbt_quick_cases = 1000000, pbt_thorough_cases = 12000000;
void pbt_reset() {}
template<typename T> static void one(pbt::Src &s) { SlistCase<ttl::backward_list<T>, T, SL_BACK | SL_RANGE | SL_REVERSE>(s).run("backward_list"); }
void pbt_property(pbt::Src &s)
{
   switch (s.below(5))
   {
   case 0: one<int>(s); break;
   case 1: one<Val>(s); break;
   case 2: one<Big>(s); break;
   case 3: one<Half>(s); break;
   default: one<Odd>(s); break;
   }
}
#include "pbt_main.hpp"
