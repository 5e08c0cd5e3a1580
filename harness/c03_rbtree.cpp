// C03: ttl::rbtree against an ordered multiset of (key, identity) records.
#include "seq_tree.hpp"
const char *const pbt_name = "C03";
const char *const pbt_rule =
   "random histories over two trees (insert_equal, insert_unique, remove of present, duplicate and absent keys, find, bounds, "
   "equal_range, count, assign, clear, traversal by next/prev node) with few or many duplicates; compared with an ordered multimap "
   "from keys to identities. Non-trivial: a tree of at least 8 nodes which held duplicates and a removal of a present key";
const unsigned pbt_quick_cases = 120000, pbt_thorough_cases = 4000000;
void pbt_reset() {}

void pbt_property(Src &s)
{
   typedef ttl::pair<int,int> PI;
   typedef ttl::pair<Val,int> PV;
   switch (s.below(6))
   {
   case 0: TreeCase<int, PI, ttl::select_first<PI>, ttl::less<int>, std::less<int> >(s).run(); break;
   case 1: TreeCase<int, PI, ttl::select_first<PI>, ttl::greater<int>, std::greater<int> >(s).run(); break;
   case 2: TreeCase<Val, PV, ttl::select_first<PV>, ByParity<Val>, ByParity<int> >(s).run(); break;
   case 3: TreeCase<Big, Big, ttl::select_same<Big>, ttl::less<Big>, std::less<int> >(s).run(); break;
   case 5: { typedef ttl::pair<Half,int> PH; TreeCase<Half, PH, ttl::select_first<PH>, ttl::less<Half>, HalfLess<int> >(s).run(); break; }
   default: TreeCase<int, int, ttl::select_same<int>, ByGreater<int>, std::greater<int> >(s).run(); break;
   }
}
#include "pbt_main.hpp"
