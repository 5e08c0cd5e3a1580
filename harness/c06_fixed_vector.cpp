// C06: ttl::fixed_vector against a plain sequence cut off at its capacity.
#include "seq_vec.hpp"
#include "ttl/fixed_vector.hpp"
#include "ttl/utility.hpp"
#include "ttl/algorithm.hpp"
const char *const pbt_name = "C06";
const char *const pbt_rule =
   "random histories over two fixed_vectors of capacities 1..64 (all constructors, push_back, pop_back, insert of one, n and ranges, "
   "erase of one and of ranges, resize, clear, assign, swap, copy, assignment, writes), biased to overflow, with five element types, in "
   "exactly sized heap objects; size, accessors, returned positions and contents compared with a sequence cut off at the capacity. "
   "Non-trivial: an operation overflowed, and elements were inserted or removed in front of others";
const unsigned pbt_quick_cases = 1800000, pbt_thorough_cases = 12000000;
void pbt_reset() {}
template<typename T, unsigned N> void run(pbt::Src &s) { VecCase<ttl::fixed_vector<T,N>, T, N, true>(s).run(); }
void pbt_property(pbt::Src &s)
{
   switch (s.below(9))
   {
   case 0: run<int,5>(s); break;
   case 1: run<int,1>(s); break;
   case 2: run<Val,2>(s); break;
   case 3: run<Big,3>(s); break;
   case 4: run<Val,8>(s); break;
   case 5: run<Odd,16>(s); break;
   case 6: run<Big,33>(s); break;
   case 8: run<Half,9>(s); break;
   case 7: if (s.below(16) == 0) { run<Odd,300>(s); break; } // fall through
   default: run<int,64>(s); break;
   }
}
#include "pbt_main.hpp"
