// C16: every element is constructed and destroyed exactly once, over the
// generated histories of all containers with a tracked element type.
#define WATCH 1
#define ELEM Tr
#include "all_cases.hpp"
#if IN_PART(0)
const char *const pbt_name = "C16";
const char *const pbt_rule =
   "random operation histories of two containers of each kind (vector, fixed_vector of three capacities, list, forward_list, backward_list, lazy_queue, map, set, rbtree, "
   "sorted_vector_map, vector_map) with an element type which registers every construction, use and destruction; after every step the number of live elements is that of "
   "the elements shown, at the end nothing is alive and every block was given back in the way it was obtained. Non-trivial: that of the history (C01 to C12)";
const unsigned pbt_quick_cases = 500000, pbt_thorough_cases = 12000000;
void pbt_reset() { REG().reset(); }
void pbt_property(Src &s) { ALL_CASES }
#include "pbt_main.hpp"
#endif
