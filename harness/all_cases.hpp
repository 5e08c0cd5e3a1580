// The histories of all containers, for the checks which watch something else
// than the contents.  ELEM is the element type, KNOTS the one of the keys.
// Compiled in PARTS translation units to be faster: -DPART=0 .. 3.
#ifndef PART
#define PART -1
#endif
#include "elems.hpp"
using namespace pbt;
#define IN_PART(n) (PART == (n) || PART == -1)
void part0(pbt::Src &, unsigned), part1(pbt::Src &, unsigned), part2(pbt::Src &, unsigned), part3(pbt::Src &, unsigned);

#if IN_PART(0)
#include "ttl/vector.hpp"
#include "ttl/fixed_vector.hpp"
#include "ttl/utility.hpp"
#include "ttl/algorithm.hpp"
#include "seq_vec.hpp"
#include "seq_vmap.hpp"
template<typename T, unsigned N> static void fixed(Src &s) { VecCase<ttl::fixed_vector<T,N>, T, N, true>(s).run(); }
void part0(Src &s, unsigned n)
{
   switch (n)
   {
   case 0: VecCase<ttl::vector<ELEM>, ELEM, (size_t)-1, false>(s).run(); break;
   case 1: fixed<ELEM,1>(s); break;
   case 2: fixed<ELEM,3>(s); break;
   case 3: fixed<ELEM,20>(s); break;
   default: VMapCase<ELEM, ELEM>(s).run(); break;
   }
}
#endif
#if IN_PART(1)
#include "seq_list.hpp"
void part1(Src &s, unsigned) { ListCase<ELEM>(s).run(); }
#endif
#if IN_PART(2)
#include "ttl/forward_list.hpp"
#include "ttl/backward_list.hpp"
#include "ttl/lazy_queue.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/utility.hpp"
#include "seq_slist.hpp"
void part2(Src &s, unsigned n)
{
   switch (n)
   {
   case 0: SlistCase<ttl::forward_list<ELEM>, ELEM, SL_SPLICE | SL_RANGE | SL_REVERSE>(s).run("forward_list"); break;
   case 1: SlistCase<ttl::backward_list<ELEM>, ELEM, SL_BACK | SL_RANGE | SL_REVERSE>(s).run("backward_list"); break;
   default: SlistCase<ttl::lazy_queue<ELEM>, ELEM, SL_LAZY>(s).run("lazy_queue"); break;
   }
}
#endif
#if IN_PART(3)
#include "seq_map.hpp"
#include "seq_set.hpp"
#include "seq_tree.hpp"
#include "seq_svmap.hpp"
void part3(Src &s, unsigned n)
{
   typedef ttl::pair<ELEM,int> PI;
   switch (n)
   {
   case 0: MapCase<ELEM, ELEM, ttl::less<ELEM>, std::less<int> >(s).run(); break;
   case 1: SetCase<ELEM, ttl::less<ELEM>, std::less<int> >(s).run(); break;
   case 2: TreeCase<ELEM, PI, ttl::select_first<PI>, ttl::less<ELEM>, std::less<int> >(s).run(); break;
   case 3: TreeCase<ELEM, ELEM, ttl::select_same<ELEM>, ByParity<ELEM>, ByParity<int> >(s).run(); break;
   default: SvMapCase<ELEM, ELEM, ttl::less<ELEM>, std::less<int> >(s).run(); break;
   }
}
#endif

#if IN_PART(0)
#define ALL_CASES \
   switch (s.below(20)) \
   { \
   case 0: case 1: case 2: part0(s, 0); break; \
   case 3: part0(s, 1); break; \
   case 4: part0(s, 2); break; \
   case 5: part0(s, 3); break; \
   case 6: part0(s, 4); break; \
   case 7: case 8: case 9: part1(s, 0); break; \
   case 10: case 11: part2(s, 0); break; \
   case 12: part2(s, 1); break; \
   case 13: case 14: part2(s, 2); break; \
   case 15: part3(s, 0); break; \
   case 16: part3(s, 1); break; \
   case 17: part3(s, 2); break; \
   case 18: part3(s, 3); break; \
   default: part3(s, 4); break; \
   }
#endif
