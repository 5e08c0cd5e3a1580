// C18: iterators, nodes and storage stay valid across the operations which
// may not move them, over the generated histories of all containers.
#define WATCH 4
#define ELEM Val
#include "all_cases.hpp"
#if IN_PART(0)
const char *const pbt_name = "C18";
const char *const pbt_rule =
   "random operation histories of two containers of each kind (as in C16) in which some iterators, element addresses, nodes and vector storage blocks are held over many steps; after every step each of them "
   "which the operation may not invalidate must still designate the same element, be reached again by the traversal, and read the value the model has for it. Non-trivial: that of the history (C01 to C12)";
const unsigned pbt_quick_cases = 500000, pbt_thorough_cases = 12000000;
void pbt_reset() {  }
void pbt_property(Src &s) { ALL_CASES }
#include "pbt_main.hpp"
#endif
