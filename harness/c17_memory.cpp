// C17: memory is allocated only when storage for elements is needed, over the
// generated histories of all containers.
#define WATCH 2
#define ELEM Big
#include "all_cases.hpp"
#if IN_PART(1)
#include "ttl/vector.hpp"
#include "ttl/fixed_vector.hpp"
#include "ttl/forward_list.hpp"
#include "ttl/backward_list.hpp"
#include "ttl/lazy_queue.hpp"
#include "ttl/map.hpp"
#include "ttl/set.hpp"
#include "ttl/sorted_vector_map.hpp"
#include "ttl/vector_map.hpp"
#include "ttl/array.hpp"
#include "ttl/bitset.hpp"
#include "ttl/numeric.hpp"
// what never allocates, whatever the contents
#define QUIET(what, ...) do { const uint64_t a_ = pbt::M().lib_allocs; { pbt::LibScope l_; __VA_ARGS__; } \
   CHECK(pbt::M().lib_allocs == a_, "%s allocated %d blocks", what, (int)(pbt::M().lib_allocs - a_)); STEP(); } while (0)
template<typename C> void fresh(const char *name)
{
   TR("%s: construction, destruction, empty()\n", name);
   QUIET(name, C c; CHECK(c.empty(), "a new %s is not empty", name));
}
struct IsEven { bool operator()(const Big &b) const { return b.get() % 2 == 0; } };
struct Inc { Big operator()(const Big &b) const { return Big(b.get() + 1); } };
struct Sum { Big operator()(const Big &a, const Big &b) const { return Big(a.get() + b.get()); } };
struct Next { int *n; Big operator()() const { return Big((*n)++); } };
struct See { void operator()(const Big &) const {} };
template<typename C> void walk(C &c, const char *name)
{
   const C &k = c;
   QUIET(name, int n = 0; for (typename C::iterator i = c.begin(); i != c.end(); ++i) ++n; for (typename C::const_iterator i = k.begin(); i != k.end(); ++i) --n; CHECK(n == 0, "begin to end"));
}
template<typename C> void pair_of(Src &s, const char *name)
{
   C a, b;
   Ints x; for (unsigned n = s.below(10); n--;) x.push_back((int)s.below(20));
   C c(x.begin(), x.end()), d(x.begin(), x.end());
   TR("%s: ==, != of %s\n", name, show(x).c_str());
   QUIET("==", CHECK(c == d && !(c != d) && a == b, "%s: ==", name));
   QUIET("!=", CHECK((a != c) == !x.empty(), "%s: !=", name));
   walk(c, name);
   QUIET("swap", c.swap(a));
   QUIET("swap", a.swap(d));
   QUIET("clear", a.clear());
   CNT("comparison, traversal, swap, clear");
}
void quiet(Src &s)
{
   switch (s.below(9))
   {
   case 0:
      fresh<ttl::vector<Big> >("vector"); fresh<ttl::fixed_vector<Big,9> >("fixed_vector"); fresh<ttl::list<Big> >("list"); fresh<ttl::forward_list<Big> >("forward_list");
      fresh<ttl::backward_list<Big> >("backward_list"); fresh<ttl::lazy_queue<Big> >("lazy_queue"); fresh<ttl::map<Big,int> >("map"); fresh<ttl::set<Big> >("set");
      fresh<ttl::sorted_vector_map<Big,int> >("sorted_vector_map"); fresh<ttl::vector_map<Big,int> >("vector_map");
      QUIET("rbtree", ttl::rbtree<Big,Big,ttl::select_same<Big>,ttl::less<Big> > t; CHECK(!t.get_root(), "a new rbtree has a root"));
      CNT("default construction");
      break;
   case 1: pair_of<ttl::vector<int> >(s, "vector"); break;
   case 2: pair_of<ttl::list<int> >(s, "list"); break;
   case 3: pair_of<ttl::forward_list<int> >(s, "forward_list"); break;
   case 4: pair_of<ttl::backward_list<int> >(s, "backward_list"); break;
   case 5:
      {
         ttl::map<int,Big> a, b; ttl::set<int> c, d;
         for (unsigned n = s.below(20); n--;)
         {
            int k = (int)s.below(30);
            a[k] = Big(k); b[k] = Big(k); c.insert(k); d.insert(k);
         }
         TR("map, set: comparison, traversal, lookups\n");
         QUIET("== of maps", CHECK(a == b && !(a != b), "map: =="));
         QUIET("== of sets", CHECK(c == d && !(c != d), "set: =="));
         walk(a, "map"); walk(c, "set");
         int k = (int)s.below(30);
         QUIET("lookups", (void)a.find(k); (void)a.count(k); (void)a.lower_bound(k); (void)a.upper_bound(k); (void)a.equal_range(k); (void)c.find(k); (void)c.lower_bound(k));
         CNT("comparison, traversal, lookups of trees");
         break;
      }
   case 6:
      {
         TR("bitset and array\n");
         const unsigned long v = (unsigned long)s.below(1u << 30) * s.below(1u << 30);
         const unsigned p = s.below(150);
         QUIET("bitset", ttl::bitset<150> a(v); ttl::bitset<150> b(a), c("101101"); b <<= p; c = a | b; c ^= ~a; a.set(p); a.flip(); b = a << p % 7; (void)a.count(); (void)b.any(); (void)(a == b);
            a.reset(p); ttl::bitset<64> d(a); (void)d.to_ulong(); (void)a[p]; a[p] = true);
         QUIET("array", ttl::array<Big,7> a; a.fill(Big((int)p)); ttl::array<Big,7> b(a); b[p % 7] = Big(3); a.swap(b); (void)(a == b); b = a; ttl::array<Big,0> z; (void)z.size());
         QUIET("pair", ttl::pair<Big,int> a(Big(1), 2); ttl::pair<Big,int> b = ttl::make_pair(Big(3), 4); a.swap(b); (void)(a == b); a = b; ttl::pair<Big,long> c(a); c = a);
         CNT("bitset, array, pair");
         break;
      }
   default:
      {
         Big x[24], y[24], z[48];
         const int n = (int)s.below(24), m = (int)s.below(24);
         for (int i = 0; i < 24; ++i) { x[i] = Big((int)s.below(5)); y[i] = Big((int)s.below(5)); }
         Big *b = x, *e = x + n, *c = y, *d = y + m;
         const Big k((int)s.below(5));
         TR("algorithms on %d and %d elements\n", n, m);
         QUIET("a reading algorithm", ttl::for_each(b, e, See()); (void)ttl::find(b, e, k); (void)ttl::find_if(b, e, IsEven()); (void)ttl::count(b, e, k); (void)ttl::count_if(b, e, IsEven()); (void)ttl::all_of(b, e, IsEven());
            (void)ttl::any_of(b, e, IsEven()); (void)ttl::none_of(b, e, IsEven()); (void)ttl::equal(b, e, c, d); (void)ttl::mismatch(b, e, c, d); (void)ttl::adjacent_find(b, e); (void)ttl::search(b, e, c, d); (void)ttl::search_n(b, e, 2, k));
         int g = 0; Next next = { &g };
         QUIET("a writing algorithm", ttl::copy(b, e, z); ttl::copy_backward(b, e, z + 48); ttl::copy_n(b, n, z); ttl::copy_if(b, e, z, IsEven()); ttl::fill(b, e, k); ttl::fill_n(z, n, k); ttl::generate(b, e, next); ttl::generate_n(z, n, next);
            ttl::replace(b, e, k, Big(9)); ttl::replace_if(b, e, IsEven(), Big(4)); ttl::replace_copy(b, e, z, k, Big(9)); ttl::remove_copy(b, e, z, k); ttl::remove_copy_if(b, e, z, IsEven()); ttl::remove(c, d, k); ttl::remove_if(c, d, IsEven());
            ttl::transform(b, e, z, Inc()); ttl::transform(b, e, z, z, Sum()); ttl::reverse(b, e); ttl::reverse_copy(b, e, z); ttl::swap_ranges(b, e, z); if (n > 1) ttl::iter_swap(b, b + 1));
         int i[24]; QUIET("iota", ttl::iota(i, i + n, 3); (void)ttl::accumulate(i, i + n, 0));
         std::sort(x, x + 24); std::sort(y, y + 24);
         QUIET("a searching or merging algorithm", (void)ttl::lower_bound(b, e, k); (void)ttl::upper_bound(b, e, k); (void)ttl::equal_range(b, e, k); (void)ttl::binary_search(b, e, k); (void)ttl::is_sorted(b, e); ttl::merge(b, e, c, d, z);
            (void)ttl::min(x[0], x[1]); (void)ttl::max(x[0], x[1]); (void)ttl::minmax(x[0], x[1]); (void)ttl::min_element(b, e); (void)ttl::max_element(b, e); (void)ttl::minmax_element(b, e));
         CNT("algorithms");
         break;
      }
   }
   // what the case made is released by the harness, outside of QUIET
}
#else
void quiet(Src &);
#endif
#if IN_PART(0)
const char *const pbt_name = "C17";
const char *const pbt_rule =
   "random operation histories of two containers of each kind (as in C16) with calls of operator new and the blocks held counted: after every step the containers hold the number of blocks "
   "their elements need, and the step made no more calls than new storage needs; and random uses of what never allocates (default construction, comparison, traversal, lookups, swap, bitset, array, pair, all "
   "algorithms). Non-trivial: that of the history (C01 to C12)";
const unsigned pbt_quick_cases = 500000, pbt_thorough_cases = 12000000;
void pbt_reset() {}
void pbt_property(Src &s)
{
   if (s.below(10) == 9) quiet(s);
   else { ALL_CASES }
}
#include "pbt_main.hpp"
#endif
