// C04: search trees stay balanced, whatever the history.
//  - the height (longest path, through the public node links) is at most
//    2*log2(n+1);
//  - a lookup in a map, set or rbtree costs at most 2*log2(n+1) + 2 calls of
//    the comparison (+ as many of ==);
//  - the links are consistent: every child points back at its parent.
#include "elems.hpp"
#include "ttl/types.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/rbtree.hpp"
#include "ttl/map.hpp"
#include "ttl/set.hpp"
#include <map>
#include <math.h>
const char *const pbt_name = "C04";
const char *const pbt_rule =
   "histories of insertions (sorted, reversed, zigzag, random, with duplicates) and removals (random, one-sided, of absent keys) on "
   "rbtree, map and set of up to some thousand elements; after the steps: height and number of comparisons of lookups against "
   "2*log2(n+1), parent links, depth-first reachability of all elements. Non-trivial: at least 32 elements at some point";
const unsigned pbt_quick_cases = 100000, pbt_thorough_cases = 1500000;
static uint64_t ncmp;
void pbt_reset() { ncmp = 0; }
using pbt::Src;

struct Key
{
   int v;
   Key(int x): v(x) {}
   bool operator==(const Key &o) const { ++ncmp; return v == o.v; }
};
inline int val(const Key &k) { return k.v; }
struct KeyLess { bool operator()(const Key &a, const Key &b) const { ++ncmp; return a.v < b.v; } };

static unsigned bound(size_t n) { return (unsigned)floor(2 * log2((double)n + 1) + 1e-9); }

struct Shape { size_t n; unsigned height; };
static unsigned depth_of(const ttl::rbnode *root)
{
   // iterative, with a guard against cycles
   std::vector<std::pair<const ttl::rbnode *, unsigned> > st;
   unsigned h = 0; size_t seen = 0;
   if (root) st.push_back(std::make_pair(root, 1u));
   while (!st.empty())
   {
      const ttl::rbnode *n = st.back().first; unsigned d = st.back().second;
      st.pop_back();
      CHECK(++seen < 1000000, "the tree links form a cycle");
      h = std::max(h, d);
      CHECK(!n->left || n->left->parent == n, "a left child does not point back at its parent");
      CHECK(!n->right || n->right->parent == n, "a right child does not point back at its parent");
      if (n->left) st.push_back(std::make_pair((const ttl::rbnode *)n->left, d + 1));
      if (n->right) st.push_back(std::make_pair((const ttl::rbnode *)n->right, d + 1));
   }
   return h;
}
static size_t count_of(const ttl::rbnode *root)
{
   std::vector<const ttl::rbnode *> st;
   size_t c = 0;
   if (root) st.push_back(root);
   while (!st.empty())
   {
      const ttl::rbnode *n = st.back();
      st.pop_back();
      CHECK(++c < 1000000, "the tree links form a cycle");
      if (n->left) st.push_back(n->left);
      if (n->right) st.push_back(n->right);
   }
   return c;
}

struct TreeA
{
   typedef ttl::pair<Key,int> KV;
   typedef ttl::rbtree<Key,KV,ttl::select_first<KV>,KeyLess> C;
   static const char *name() { return "rbtree"; }
   static void insert(C &c, int k) { LIB(c.insert_equal(KV(Key(k), k))); }
   static void insert_u(C &c, int k) { LIB(c.insert_unique(KV(Key(k), k))); }
   static void erase(C &c, int k) { C::node *n = LIB(c.remove(Key(k))); LIB(delete n, 0); }
   static bool find(C &c, int k) { return LIB(c.find(Key(k))) != c.end(); }
   static bool lower(C &c, int k) { C::node *n = LIB(c.lower_bound(Key(k))); return n != c.end(); }
   static bool upper(C &c, int k) { C::node *n = LIB(c.upper_bound(Key(k))); return n != c.end(); }
   static const ttl::rbnode *root(C &c) { return c.get_root(); }
   static void copy(C &to, C &from) { LIB(to.assign(from), 0); }
   static const bool multi = true;
};
struct MapA
{
   typedef ttl::map<Key,int,KeyLess> C;
   static const char *name() { return "map"; }
   static void insert(C &c, int k) { LIB(c.insert(C::value_type(Key(k), k))); }
   static void insert_u(C &c, int k) { struct D {}; insert(c, k); }
   static void erase(C &c, int k) { LIB(c.erase(Key(k))); }
   static bool find(C &c, int k) { return LIB(c.find(Key(k))) != c.end(); }
   static bool lower(C &c, int k) { return LIB(c.lower_bound(Key(k))) != c.end(); }
   static bool upper(C &c, int k) { return LIB(c.upper_bound(Key(k))) != c.end(); }
   static const ttl::rbnode *root(C &) { return 0; }
   static void copy(C &to, C &from) { LIB(to = from, 0); }
   static const bool multi = false;
};
struct SetA
{
   typedef ttl::set<Key,KeyLess> C;
   static const char *name() { return "set"; }
   static void insert(C &c, int k) { LIB(c.insert(Key(k))); }
   static void insert_u(C &c, int k) { insert(c, k); }
   static void erase(C &c, int k) { LIB(c.erase(Key(k))); }
   static bool find(C &c, int k) { return LIB(c.find(Key(k))) != c.end(); }
   static bool lower(C &c, int k) { return LIB(c.lower_bound(Key(k))) != c.end(); }
   static bool upper(C &c, int k) { return LIB(c.upper_bound(Key(k))) != c.end(); }
   static const ttl::rbnode *root(C &) { return 0; }
   static void copy(C &to, C &from) { LIB(to = from, 0); }
   static const bool multi = false;
};

template<typename A> void run(Src &s)
{
   typedef typename A::C C;
   C *c = LIB(new C);
   std::multimap<int,int> ref;
   size_t peak = 0, opcount = 0;
   static const unsigned us[] = { 8, 64, 512, 4096 };
   const unsigned U = us[s.below(4)];
   const unsigned runlen = pbt::G().thorough && s.below(8) == 0 ? 600 : s.below(4) == 0 ? 120 : 24;
   TR("%s universe %u\n", A::name(), U);
   struct Chk
   {
      static void full(C &c, std::multimap<int,int> &ref)
      {
         size_t n = ref.size();
         const ttl::rbnode *root = A::root(c);
         if (A::multi)
         {
            unsigned h = depth_of(root);
            CHECK(count_of(root) == n, "%zu nodes can be reached instead of %zu", count_of(root), n);
            CHECK(h <= bound(n), "height %u with %zu elements: more than %u", h, n, bound(n));
         }
      }
      static void lookup(C &c, std::multimap<int,int> &ref, int k, unsigned slack)
      {
         size_t n = ref.size();
         // lookup cost: at most two calls (order and ==) on each node of a path
         uint64_t lim = 2 * (uint64_t)bound(n) + 2 + slack;
         ncmp = 0;
         bool f = A::find(c, k);
         uint64_t cost = ncmp;
         CHECK(f == (ref.count(k) != 0), "find(%d) is %d", k, f);
         CHECK(cost <= lim, "find in %zu elements took %llu comparisons: more than %llu", n, (unsigned long long)cost, (unsigned long long)lim);
         ncmp = 0; A::lower(c, k); cost = ncmp;
         CHECK(cost <= lim, "lower_bound in %zu elements took %llu comparisons: more than %llu", n, (unsigned long long)cost, (unsigned long long)lim);
         ncmp = 0; A::upper(c, k); cost = ncmp;
         CHECK(cost <= lim, "upper_bound in %zu elements took %llu comparisons: more than %llu", n, (unsigned long long)cost, (unsigned long long)lim);
      }
   };
   int k = 0;
   while (s.more(14))
   {
      ++opcount;
      unsigned what = s.below(10);
      unsigned n = 1 + s.below(runlen);
      bool chk = s.below(3) != 0;
      switch (what)
      {
      case 0: case 1: case 2: // a run of insertions
      case 3:
         {
            int mode = s.below(5);
            k = s.below(U);
            TR("insert run of %u from %d, mode %d\n", n, k, mode);
            bool uniq = s.coin();
            for (unsigned i = 0; i < n; ++i)
            {
               STEP();
               switch (mode)
               {
               case 0: ++k; break;
               case 1: --k; break;
               case 2: k = i & 1 ? (int)(U - i / 2) : (int)(i / 2); break; // zigzag
               case 3: break;                                        // the same again
               case 4: k = s.below(U); break;
               }
               bool present = ref.count(k) != 0;
               if (!A::multi || uniq) A::insert_u(*c, k); else A::insert(*c, k);
               if (!present || (A::multi && !uniq)) ref.insert(std::make_pair(k, k));
               if (chk && (i % 8 == 0 || n < 30)) Chk::full(*c, ref);
            }
            CNT_IF(mode < 2, "sorted run inserted");
            break;
         }
      case 4: case 5: case 6: // a run of removals
         {
            int mode = s.below(4);
            TR("remove run of %u, mode %d\n", n, mode);
            for (unsigned i = 0; i < n && !ref.empty(); ++i)
            {
               STEP();
               std::multimap<int,int>::iterator e = ref.begin();
               switch (mode)
               {
               case 0: break;                                 // from the low side
               case 1: e = ref.end(); --e; break;             // from the high side
               default:
                  e = ref.lower_bound(s.below(U));
                  if (e == ref.end()) --e;
               }
               int key = e->first;
               TR(" %d", key);
               A::erase(*c, key);
               ref.erase(ref.find(key));
               if (chk && (i % 8 == 0 || n < 30)) Chk::full(*c, ref);
            }
            TR("\n");
            CNT("removals");
            break;
         }
      case 7: // absent keys, which must not change anything
         for (unsigned i = 0; i < n; ++i)
         {
            STEP();
            int key = s.range(-3, (int)U + 3);
            if (ref.count(key)) continue;
            TR("remove absent %d\n", key);
            A::erase(*c, key);
            Chk::full(*c, ref);
            CNT("remove absent");
         }
         break;
      case 8:
         {
            STEP();
            TR("replaced by a copy\n");
            C *d = LIB(new C);
            A::copy(*d, *c);
            LIB(delete c, 0);
            c = d;
            CNT("copy");
            break;
         }
      case 9:
         TR("lookups\n");
         for (unsigned i = 0; i < n && i < 16; ++i) { STEP(); Chk::lookup(*c, ref, s.range(-1, U), 2); }
         break;
      }
      peak = std::max(peak, ref.size());
      Chk::full(*c, ref);
      // map and set show their shape only by what a lookup costs
      if (!A::multi || s.below(4) == 0)
      {
         if (ref.size() <= 64 || s.below(8) == 0)
         {
            int last = -1000;
            for (std::multimap<int,int>::iterator i = ref.begin(); i != ref.end(); ++i)
               if (i->first != last) Chk::lookup(*c, ref, last = i->first, 2);
         }
         else
            for (unsigned i = 0; i < 12; ++i) Chk::lookup(*c, ref, s.range(-1, U), 2);
      }
   }
   LIB(delete c, 0);
   if (peak >= 32) s.nontrivial();
   CNT_IF(peak >= 256, "case with >= 256 elements");
}
void pbt_property(Src &s)
{
   switch (s.below(4))
   {
   case 0: case 1: run<TreeA>(s); break;
   case 2: run<MapA>(s); break;
   default: run<SetA>(s); break;
   }
}
#include "pbt_main.hpp"
