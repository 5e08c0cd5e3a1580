// C05: ttl::vector against a plain sequence.
#include "seq_vec.hpp"
#include "ttl/vector.hpp"
#include "ttl/utility.hpp"
#include "ttl/algorithm.hpp"
const char *const pbt_name = "C05";
const char *const pbt_rule =
   "random histories over two vectors (all constructors, push_back, pop_back, insert of one, n and ranges, erase of one and of ranges, "
   "resize, reserve, clear, assign, swap, copy, assignment, writes) with five element types; size, all accessors, returned positions and "
   "contents compared with std::vector<int> after every step. Non-trivial: at least 6 elements, an insertion and a removal in front of other elements";
const unsigned pbt_quick_cases = 1400000, pbt_thorough_cases = 12000000;
void pbt_reset() {}
void pbt_property(pbt::Src &s)
{
   switch (s.below(5))
   {
   case 0: VecCase<ttl::vector<int>, int, (size_t)-1, false>(s).run(); break;
   case 1: VecCase<ttl::vector<Val>, Val, (size_t)-1, false>(s).run(); break;
   case 2: VecCase<ttl::vector<Big>, Big, (size_t)-1, false>(s).run(); break;
   case 4: VecCase<ttl::vector<Half>, Half, (size_t)-1, false>(s).run(); break;
   default: VecCase<ttl::vector<Odd>, Odd, (size_t)-1, false>(s).run(); break;
   }
}
#include "pbt_main.hpp"
