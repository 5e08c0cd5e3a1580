// C36: operations do the work their size asks for and no more: element
// operations counted, and the time of many operations on large containers.
#include "adapters.hpp"
#include "ttl/numeric.hpp"
#include "ttl/rbtree.hpp"
using namespace pbt;
#include "long.hpp"

// ------------------------------------------------------------- element operations
struct Counts { uint64_t made, assigned, ended, compared; };
static Counts N;
static void zero() { N.made = N.assigned = N.ended = N.compared = 0; }
struct Ct
{
   int v;
   static bool on() { return M().in_lib != 0; }
   Ct(): v(0) { N.made += on(); }
   Ct(int x): v(x) { N.made += on(); }
   Ct(const Ct &o): v(o.v) { N.made += on(); }
   Ct &operator=(const Ct &o) { v = o.v; N.assigned += on(); return *this; }
   ~Ct() { N.ended += on(); *(volatile int *)&v = DEAD_VALUE; }
   static bool cmp(bool r) { N.compared += on(); return r; }
   bool operator==(const Ct &o) const { return cmp(v == o.v); }
   bool operator!=(const Ct &o) const { return cmp(v != o.v); }
   bool operator<(const Ct &o) const { return cmp(v < o.v); }
   bool operator>(const Ct &o) const { return cmp(v > o.v); }
};
static int val(const Ct &x) { return x.v; }
template<> struct Name<Ct> { static const char *s() { return "counted"; } };
static unsigned log2of(size_t n) { unsigned l = 0; while (n) { ++l; n >>= 1; } return l; }

// what an operation may cost: elements made or assigned, comparisons
struct Cost { size_t write, compare; };
static Cost cost(size_t w, size_t c) { Cost r = { w, c }; return r; }
enum { SLACK = 6, PAIR = 12 };   // a few temporaries; those of a pair of key and value

template<class A> struct Work;
template<class C, class T, bool F> struct Work<VecAd<C,T,F> >
{
   static Cost of(const C &c, const Op &o)
   {
      const size_t n = c.size(), p = o.a % (n + 1), q = n ? o.a % n : 0, k = o.b % 5, room = c.capacity() - n;
      // elements behind the place are moved, or all of them to new memory
      #define INS(place, count) cost((count) ? 3 * ((F || (count) <= room ? n - (place) : n) + (count)) + SLACK : SLACK, 0)
      switch (o.kind)
      {
      case 0: case 1: return INS(n, 1);
      case 2: return INS(p, 1);
      case 3: return INS(p, k);
      case 4: return INS(p, o.xs.size());
      case 5: return o.b > n ? INS(n, o.b - n) : cost(SLACK, 0);
      case 6: return cost(0, 0);
      case 7: return cost(3 * (n - q) + SLACK, 0);
      case 8: { const size_t e = p + o.b % (n - p + 1); return cost(e == p ? SLACK : 3 * (n - e) + SLACK, 0); }
      case 9: return cost(SLACK, 0);
      case 10: return cost(SLACK, 0);
      // assign of a range pushes one element after the other, and growing is by one
      case 11: { const size_t m = o.xs.size(), cap = c.capacity(); size_t w = 3 * m; for (size_t j = cap; j < m; ++j) w += j; return cost(w + SLACK, 0); }
      default: return cost(o.b % 4 ? 3 * (o.b % 7) + SLACK : 0, 0);
      }
      #undef INS
   }
};
template<class T> struct Work<ListAd<T> >
{
   static Cost of(const ttl::list<T> &c, const Op &o)
   {
      const size_t n = length(c), k = o.b % 5;
      switch (o.kind)
      {
      case 0: case 1: case 2: case 3: return cost(1 + SLACK, 0);
      case 4: return cost(2 * k + SLACK, 0);
      case 5: return cost(2 * o.xs.size() + SLACK, 0);   // an int of the range becomes an element first
      case 6: return cost(2 * (o.b > n ? o.b - n : 0) + SLACK, 0);
      case 7: case 8: case 9: return cost(SLACK, 0);
      case 10: return cost(SLACK, n + 1);
      case 11: return cost(0, 0);
      case 12: return cost(SLACK, n);
      case 13: case 14: return cost(SLACK, 0);
      case 15: return cost(2 * o.xs.size() + SLACK, 0);
      default: return cost(o.b % 4 ? 2 * (o.b % 7) + SLACK : 0, 0);
      }
   }
};
template<class C, class T, int F> struct Work<SlistAd<C,T,F> >
{
   static Cost of(const C &, const Op &o)
   {
      switch (o.kind)
      {
      case 4: return cost(o.b % 5 + SLACK, 0);
      case 5: return cost(2 * o.xs.size() + SLACK, 0);   // an int of the range becomes an element first
      case 6: return cost(0, 0);
      case 11: return cost(3 * (1 + SLACK), 0);
      default: return cost(1 + SLACK, 0);
      }
   }
};
template<class T, size_t M> struct Work<ArrAd<T,M> > { static Cost of(const ttl::array<T,M> &, const Op &o) { return cost((o.kind ? 1 : M) + SLACK, 0); } };
// a search compares a few times on every level; nothing but the new element is made
template<class C> static Cost keyed(const C &c, bool many, size_t k, bool linear)
{
   const size_t n = length(c), depth = linear ? n + k : 2 * log2of(n + k) + 2;
   return cost((many ? k : 1) * PAIR + SLACK, (many ? k + 1 : 1) * (3 * depth + 8));
}
template<class C, class K> struct Work<MapAd<C,K> >
{
   static Cost of(const C &c, const Op &o)
   {
      if (o.kind >= 5 && o.kind <= 7) { Cost k = keyed(c, false, 1, false); k.write = SLACK; k.compare *= 3; return k; }
      if (o.kind >= 8) return cost(SLACK, 0);
      return keyed(c, o.kind == 4, o.kind == 4 ? o.xs.size() : 1, false);
   }
};
template<class C, class K, bool E> struct Work<SetAd<C,K,E> >
{
   static Cost of(const C &c, const Op &o)
   {
      if (o.kind >= 5 && o.kind <= 7) { Cost k = keyed(c, false, 1, false); k.write = SLACK; k.compare *= 3; return k; }
      if (o.kind >= 8) return cost(SLACK, 0);
      return keyed(c, o.kind == 4, o.kind == 4 ? o.xs.size() : 1, false);
   }
};
template<class K, class P> struct Work<SvMapAd<K,P> >
{
   static Cost of(const ttl::sorted_vector_map<K,K,P> &c, const Op &o)
   {
      if (o.kind >= 5) return cost(SLACK, 0);
      return keyed(c, false, 1, false);
   }
};
template<class K> struct Work<VMapAd<K> >
{
   static Cost of(const ttl::vector_map<K,K> &c, const Op &o)
   {
      const size_t n = c.size(), p = o.a % (n + 1), q = n ? o.a % n : 0, room = c.capacity() - n;
      Cost k = keyed(c, false, 1, true);
      if (o.kind < 6) { k.write += room ? 0 : 4 * n; if (o.kind == 5) k.compare = 0; return k; }
      if (o.kind == 6) return cost(4 * ((room ? n - p : n) + 1) + PAIR, 0);
      if (o.kind < 9) return cost(4 * (n - q) + SLACK, 0);
      return cost(SLACK, 0);
   }
};
// a container is left with elements after operations which do not end them
template<class A> struct Case
{
   typedef typename A::type C;
   Src &s;
   C *c[2];
   unsigned done, busy;
   Case(Src &src): s(src), done(0), busy(0) {}
   static size_t len(const C &k) { return length(k); }
   void within(const char *what, Cost m)
   {
      CHECK(N.made + N.assigned <= m.write, "%s: %s makes %d elements and assigns %d, %zu are enough", A::name(), what, (int)N.made, (int)N.assigned, m.write);
      CHECK(N.compared <= m.compare, "%s: %s compares %d times, %zu times are enough", A::name(), what, (int)N.compared, m.compare);
   }
   template<class F> void count(const char *what, Cost m, F f) { STEP(); zero(); LIB((f(), 0)); within(what, m); }
   void equal(std::true_type)
   {
      const size_t n = std::min(len(*c[0]), len(*c[1]));
      TR("a == b, a != b\n");
      count("==", cost(0, (A::KEYED ? 2 : 1) * n + 1), [&] { (void)(*c[0] == *c[1]); });
      count("!=", cost(0, (A::KEYED ? 2 : 1) * n + 1), [&] { (void)(*c[0] != *c[1]); });
   }
   void equal(std::false_type) {}
   void exchange(std::true_type)
   {
      // ttl::swap has no form of its own for containers: a copy and two assignments
      const size_t n = len(*c[0]) + len(*c[1]);
      const bool flat = !strcmp(A::name(), "array") || !strcmp(A::name(), "fixed_vector");
      if (done & 1) { TR("a.swap(b)\n"); count("swap", cost(flat ? 3 * n + SLACK : 0, 0), [&] { c[0]->swap(*c[1]); }); }
      else { TR("ttl::swap(a, b)\n"); count("ttl::swap", cost(3 * (n * (A::KEYED ? 4 : 2) + SLACK), 0), [&] { ttl::swap(*c[0], *c[1]); }); }
   }
   void exchange(std::false_type) {}
   void assign(std::true_type, int w)
   {
      TR("%c = %c\n", 'a' + w, 'b' - w);
      const size_t n = len(*c[1 - w]) * (A::KEYED ? 4 : 2) + (strcmp(A::name(), "array") ? 0 : len(*c[w]));
      count("assignment", cost(n + SLACK, 0), [&] { *c[w] = *c[1 - w]; });
      TR("%c = %c\n", 'a' + w, 'a' + w);
      const C &self = *c[w];
      count("assignment to itself", cost(len(*c[w]) * (A::KEYED ? 4 : 2) + SLACK, 0), [&] { *c[w] = self; });
   }
   void assign(std::false_type, int) {}
   void run()
   {
      TR("%s\n", A::name());
      for (int i = 0; i < 2; ++i) { c[i] = new C(); A::build(*c[i], Ints()); }
      if (s.below(3) == 0) { Ints x; size_t n = s.below(40); Lcg g(s); while (n--) x.push_back((int)g.below(60)); A::build(*c[0], x); TR("a is filled with %s\n", show(x).c_str()); }
      while (s.more(30))
      {
         const int w = s.below(4) == 0;
         ++done;
         switch (s.below(12))
         {
         default:
            {
               const Op o = draw_op(s, A::KINDS, 60, s.below(3) == 0);
               const Cost m = Work<A>::of(*c[w], o);
               TR("%c.", 'a' + w);
               STEP();
               zero();
               const bool some = !A::KEYED || len(*c[w]) > 2;
               const int r = A::apply(*c[w], o, true, true);
               TR("  -- %d made, %d assigned, %d compared\n", (int)N.made, (int)N.assigned, (int)N.compared);
               if (is_applied(r)) { char b[40]; snprintf(b, sizeof b, "operation %u", o.kind); within(b, m); busy += some; }
               break;
            }
         case 7: exchange(std::integral_constant<bool, A::SWAP>()); break;
         case 8: equal(std::integral_constant<bool, A::EQ>()); break;
         case 9: assign(std::integral_constant<bool, A::ASSIGN>(), w); break;
         case 10:
            {
               TR("copy of %c\n", 'a' + w);
               C *n = 0;
               const size_t k = len(*c[w]);
               count("copying", cost(k * (A::KEYED ? 4 : 2) + SLACK, 0), [&] { n = new C((const C &)*c[w]); });
               count("destruction", cost(0, 0), [&] { delete n; });
               break;
            }
         case 11:
            {
               TR("traversal of %c\n", 'a' + w);
               count("begin, end and traversal", cost(0, 0), [&] { const C &k = *c[w]; for (typename C::const_iterator i = k.begin(); i != k.end(); ++i) (void)*i; (void)k.empty(); });
               break;
            }
         }
      }
      for (int i = 0; i < 2; ++i) delete c[i];
      if (busy > 2) s.nontrivial();
      CNT("histories with counted elements");
   }
};

// ------------------------------------------------------------- algorithms
typedef std::vector<Ct> Cts;
struct Algo
{
   Src &s;
   Cts a, b, out;
   Ct k;
   Algo(Src &src): s(src) {}
   static Ints ints(const Cts &x) { Ints r; for (size_t i = 0; i < x.size(); ++i) r.push_back(x[i].v); return r; }
   struct Is { int v; static uint64_t n; bool operator()(const Ct &x) const { ++n; return x.v % 3 == v; } };
   struct Less { bool operator()(const Ct &x, const Ct &y) const { return x < y; } };
   struct Same { bool operator()(const Ct &x, const Ct &y) const { return x == y; } };
   struct Gen { int n; static uint64_t calls; Ct operator()() { ++calls; return Ct(n); } };
   // most is the number of comparisons or calls of the predicate
   template<class F> void within(const char *what, size_t writes, size_t most, F f)
   {
      STEP();
      TR("%s of %s and %s\n", what, show(ints(a)).c_str(), show(ints(b)).c_str());
      zero(); Is::n = 0; Gen::calls = 0;
      LIB((f(), 0));
      CHECK(N.assigned <= writes, "%s assigns %d times, %zu times are enough", what, (int)N.assigned, writes);
      CHECK(N.made <= writes + SLACK, "%s makes %d elements, %zu are enough", what, (int)N.made, writes + SLACK);
      CHECK(N.compared + Is::n + Gen::calls <= most, "%s compares or calls %d times, %zu times are enough", what, (int)(N.compared + Is::n + Gen::calls), most);
   }
   void run()
   {
      const size_t n = s.below(3) ? s.below(12) : s.below(200), m = s.below(3) ? s.below(5) : s.below(30);
      Lcg g(s);
      const unsigned few = 1 + s.below(s.coin() ? 4 : 100);
      for (size_t i = 0; i < n; ++i) a.push_back(Ct((int)g.below(few)));
      for (size_t i = 0; i < m; ++i) b.push_back(Ct((int)g.below(few)));
      out.resize(n + m + 1);
      k = Ct((int)s.below(few));
      const Is is = { (int)s.below(3) };
      Ct *const A = a.data(), *const E = A + n, *const B = b.data(), *const F = B + m, *const O = out.data();
      const size_t l = log2of(n) + 1;
      unsigned which = s.below(38);
      if (which >= 30) { std::stable_sort(a.begin(), a.end(), [](const Ct &x, const Ct &y) { return x.v < y.v; }); std::stable_sort(b.begin(), b.end(), [](const Ct &x, const Ct &y) { return x.v < y.v; }); }
      switch (which)
      {
      case 0: within("find", 0, n, [&] { ttl::find(A, E, k); }); break;
      case 1: within("find_if", 0, n, [&] { ttl::find_if(A, E, is); }); break;
      case 2: within("find_if_not", 0, n, [&] { ttl::find_if_not(A, E, is); }); break;
      case 3: within("count", 0, n, [&] { ttl::count(A, E, k); }); break;
      case 4: within("count_if", 0, n, [&] { ttl::count_if(A, E, is); }); break;
      case 5: within("all_of", 0, n, [&] { ttl::all_of(A, E, is); }); within("any_of", 0, n, [&] { ttl::any_of(A, E, is); }); within("none_of", 0, n, [&] { ttl::none_of(A, E, is); }); break;
      case 6: within("adjacent_find", 0, n, [&] { ttl::adjacent_find(A, E); }); within("adjacent_find with a predicate", 0, n, [&] { ttl::adjacent_find(A, E, Same()); }); break;
      case 7: within("equal", 0, std::min(n, m), [&] { (void)ttl::equal(A, E, B, F); }); within("equal with a predicate", 0, std::min(n, m), [&] { (void)ttl::equal(A, E, B, F, Same()); }); break;
      case 8: within("mismatch", 0, std::min(n, m), [&] { ttl::mismatch(A, E, B, F); }); within("mismatch with a predicate", 0, std::min(n, m), [&] { ttl::mismatch(A, E, B, F, Same()); }); break;
      case 9: within("search", 0, n * m + m, [&] { ttl::search(A, E, B, F); }); within("search with a predicate", 0, n * m + m, [&] { ttl::search(A, E, B, F, Same()); }); break;
      case 10: { const int c = (int)s.below(5); within("search_n", 0, n, [&] { ttl::search_n(A, E, c, k); }); within("search_n with a predicate", 0, n, [&] { ttl::search_n(A, E, c, k, Same()); }); break; }
      case 11: within("max_element", 0, n, [&] { ttl::max_element(A, E); }); within("min_element", 0, n, [&] { ttl::min_element(A, E); }); within("minmax_element", 0, 2 * n, [&] { ttl::minmax_element(A, E); }); break;
      case 12: within("copy", n, 0, [&] { ttl::copy(A, E, O); }); break;
      case 13: { const size_t c = n ? s.below((uint32_t)n) : 0; within("copy_n", c, 0, [&] { ttl::copy_n(A, c, O); }); within("fill_n", c, 0, [&] { ttl::fill_n(A, c, k); }); break; }
      case 14: within("copy_if", n, n, [&] { ttl::copy_if(A, E, O, is); }); break;
      case 15: within("copy_backward", n, 0, [&] { ttl::copy_backward(A, E, O + n); }); break;
      case 16: within("fill", n, 0, [&] { ttl::fill(A, E, k); }); break;
      case 17: { const Gen gen = { 4 }; within("generate", n, n, [&] { ttl::generate(A, E, gen); }); within("generate_n", n, n, [&] { ttl::generate_n(A, n, gen); }); break; }
      case 18: within("remove", n, n, [&] { ttl::remove(A, E, k); }); break;
      case 19: within("remove_if", n, n, [&] { ttl::remove_if(A, E, is); }); break;
      case 20: within("remove_copy", n, n, [&] { ttl::remove_copy(A, E, O, k); }); within("remove_copy_if", n, n, [&] { ttl::remove_copy_if(A, E, O, is); }); break;
      case 21: within("replace", n, n, [&] { ttl::replace(A, E, k, Ct(1)); }); within("replace_if", n, n, [&] { ttl::replace_if(A, E, is, k); }); break;
      case 22: within("replace_copy", n, n, [&] { ttl::replace_copy(A, E, O, k, Ct(1)); }); within("replace_copy_if", n, n, [&] { ttl::replace_copy_if(A, E, O, is, k); }); break;
      case 23: within("reverse", 3 * (n / 2), 0, [&] { ttl::reverse(A, E); }); break;
      case 24: within("reverse_copy", n, 0, [&] { ttl::reverse_copy(A, E, O); }); break;
      case 25: within("swap_ranges", 3 * n, 0, [&] { ttl::swap_ranges(A, E, O); }); break;
      case 26: { struct Fn { Ct operator()(const Ct &x) const { return x; } }; within("transform", n, 0, [&] { ttl::transform(A, E, O, Fn()); }); break; }
      case 27: { struct Fn { uint64_t *n; void operator()(const Ct &) const { ++*n; } }; const Fn fn = { &Is::n }; within("for_each", 0, n, [&] { ttl::for_each(A, E, fn); }); break; }
      case 28: within("is_sorted", 0, n, [&] { ttl::is_sorted(A, E); }); within("is_sorted_until", 0, n, [&] { ttl::is_sorted_until(A, E); }); break;
      case 29: { struct Pl { Ct operator()(const Ct &x, const Ct &) const { return x; } }; const size_t c = std::min(n, m); within("transform of two ranges", c, 0, [&] { ttl::transform(A, A + c, B, O, Pl()); }); break; }
      case 30: case 31: within("lower_bound", 0, l, [&] { ttl::lower_bound(A, E, k); }); within("lower_bound with a comparison", 0, l, [&] { ttl::lower_bound(A, E, k, Less()); }); break;
      case 32: case 33: within("upper_bound", 0, l, [&] { ttl::upper_bound(A, E, k); }); within("upper_bound with a comparison", 0, l, [&] { ttl::upper_bound(A, E, k, Less()); }); break;
      case 34: within("binary_search", 0, l + 1, [&] { (void)ttl::binary_search(A, E, k); }); within("binary_search with a comparison", 0, l + 1, [&] { (void)ttl::binary_search(A, E, k, Less()); }); break;
      case 35: within("equal_range", 0, 2 * l + 1, [&] { ttl::equal_range(A, E, k); }); within("equal_range with a comparison", 0, 2 * l + 1, [&] { ttl::equal_range(A, E, k, Less()); }); break;
      default: within("merge", n + m, n + m, [&] { ttl::merge(A, E, B, F, O); }); break;
      }
      if (n > 2) s.nontrivial();
      CNT("algorithms with counted elements");
   }
};
uint64_t Algo::Is::n, Algo::Gen::calls;

// members of list which take a function, merge; and trees with equal elements
struct Lists
{
   Src &s;
   typedef ttl::list<Ct> L;
   Lists(Src &src): s(src) {}
   struct Is { int v; uint64_t *n; bool operator()(const Ct &x) const { ++*n; return x.v % 3 == v; } };
   struct Less { uint64_t *n; bool operator()(const Ct &x, const Ct &y) const { ++*n; return x.v < y.v; } };
   struct Same { uint64_t *n; bool operator()(const Ct &x, const Ct &y) const { ++*n; return x.v / 2 == y.v / 2; } };
   Ints numbers(bool sorted)
   {
      Ints x; Lcg g(s);
      const unsigned few = 1 + s.below(s.coin() ? 4 : 40);
      size_t n = s.below(3) ? s.below(12) : s.below(60);
      while (n--) x.push_back((int)g.below(few));
      if (sorted) std::sort(x.begin(), x.end());
      return x;
   }
   template<class F> void within(const char *what, const Ints &a, const Ints &b, size_t most, F f)
   {
      STEP();
      TR("%s of %s and %s\n", what, show(a).c_str(), show(b).c_str());
      L l, k; ListAd<Ct>::build(l, a); ListAd<Ct>::build(k, b);
      uint64_t calls = 0;
      zero();
      LIB((f(l, k, &calls), 0));
      CHECK(N.made + N.assigned <= SLACK, "%s makes and assigns %d elements", what, (int)(N.made + N.assigned));
      CHECK(N.compared + calls <= most, "%s compares or calls %d times, %zu times are enough", what, (int)(N.compared + calls), most);
      TR("   %d times, at most %zu\n", (int)(N.compared + calls), most);
   }
   struct Self { const Ct &operator()(const Ct &x) const { return x; } };
   void tree()
   {
      typedef ttl::rbtree<Ct, Ct, Self, ttl::less<Ct> > T;
      T t;
      TR("rbtree\n");
      Lcg g(s);
      const unsigned few = 1 + s.below(s.coin() ? 4 : 100), size = s.below(2) ? 300 : 20;
      size_t n = 0;
      while (s.more(12))
      {
         STEP();
         const Ct k((int)s.below(few));
         const size_t depth = 2 * log2of(n + 1) + 2;
         size_t most = 3 * depth + 8, made = SLACK;
         const char *what;
         switch (s.below(6))
         {
         case 0:
            { size_t m = s.below(size); what = "insert_equal"; TR("insert_equal of %zu elements of %u\n", m, few);
              most = 0; made = 0; zero();
              for (; m--; ++n) { most += 3 * (2 * log2of(n + 1) + 2) + 8; made += SLACK; const Ct x((int)g.below(few)); LIB((t.insert_equal(x), 0)); }
              break; }
         case 1: what = "find"; TR("find(%d)\n", k.v); zero(); LIB((t.find(k), 0)); break;
         case 2: what = "lower_bound"; TR("lower_bound(%d)\n", k.v); zero(); LIB((t.lower_bound(k), 0)); break;
         case 3: what = "upper_bound"; TR("upper_bound(%d)\n", k.v); zero(); LIB((t.upper_bound(k), 0)); break;
         case 4: what = "equal_range"; TR("equal_range(%d)\n", k.v); most *= 2; zero(); LIB((t.equal_range(k), 0)); break;
         default: { what = "remove"; TR("remove(%d)\n", k.v); most *= 3; zero(); T::node *d = LIB(t.remove(k)); if (d != t.end()) { delete d; --n; } break; }
         }
         CHECK(N.made + N.assigned <= made, "rbtree: %s makes and assigns %d elements, %zu are enough", what, (int)(N.made + N.assigned), made);
         CHECK(N.compared <= most, "rbtree: %s compares %d times with %zu elements, %zu times are enough", what, (int)N.compared, n, most);
      }
      if (n > 2) s.nontrivial();
      CNT("trees of counted elements");
   }
   void run()
   {
      const unsigned which = s.below(7);
      if (which == 6) { tree(); return; }
      const Ints a = numbers(which > 3), b = numbers(which > 3);
      const int v = (int)s.below(3);
      const size_t n = a.size(), m = b.size();
      switch (which)
      {
      case 0: within("remove_if", a, b, n, [v](L &l, L &, uint64_t *c) { const Is f = { v, c }; l.remove_if(f); }); break;
      case 1: within("unique with a predicate", a, b, n, [](L &l, L &, uint64_t *c) { const Same f = { c }; l.unique(f); }); break;
      case 2: within("splice", a, b, 0, [](L &l, L &k, uint64_t *) { l.splice(l.begin(), k); k.splice(k.end(), l); if (!k.empty()) l.splice(l.end(), k, k.begin()); l.splice(l.begin(), k, k.begin(), k.end()); }); break;
      case 3: within("reverse, size, front and back", a, b, 0, [](L &l, L &k, uint64_t *) { l.reverse(); (void)k.size(); if (!l.empty()) { (void)l.front(); (void)l.back(); } }); break;
      case 4: within("merge", a, b, n + 2 * m, [](L &l, L &k, uint64_t *) { l.merge(k); }); break;
      default: within("merge with a comparison", a, b, n + 2 * m, [](L &l, L &k, uint64_t *c) { const Less f = { c }; l.merge(k, f); }); break;
      }
      if (n > 2) s.nontrivial();
      CNT("members of list with counted elements");
   }
};

const char *const pbt_name = "C36";
const char *const pbt_rule =
   "random histories of two containers of elements which count their constructions, assignments and comparisons, each operation within the bound for its parameters; random ranges for every algorithm, within the "
   "counts of the C++ standard; and, for one case in 100, thousands of operations on long containers within a CPU time which only a longer order of work can need. Non-trivial: three operations on containers, "
   "ranges of more than two elements, or any of the long ones";
const unsigned pbt_quick_cases = 200000, pbt_thorough_cases = 8000000;
void pbt_reset() { zero(); }
void pbt_property(Src &s)
{
   if (s.below(100) == 1) { Timed(s).run(); return; }
   switch (s.below(28))
   {
   case 0: case 1: case 2: Case<VectorAd<Ct> >(s).run(); break;
   case 3: Case<FvAd<Ct>::of<9> >(s).run(); break;
   case 4: Case<FvAd<Ct>::of<40> >(s).run(); break;
   case 5: case 6: Case<ListAd<Ct> >(s).run(); break;
   case 7: Case<ForwardAd<Ct> >(s).run(); break;
   case 8: Case<BackwardAd<Ct> >(s).run(); break;
   case 9: Case<LazyAd<Ct> >(s).run(); break;
   case 10: case 11: Case<TtlMapAd<Ct> >(s).run(); break;
   case 12: Case<TtlSetAd<Ct> >(s).run(); break;
   case 13: Case<SvMapAd<Ct> >(s).run(); break;
   case 14: Case<VMapAd<Ct> >(s).run(); break;
   case 15: Case<ArrAd<Ct,6> >(s).run(); break;
   case 16: case 17: case 18: case 19: Lists(s).run(); break;
   default: Algo(s).run(); break;
   }
}
#include "pbt_main.hpp"
