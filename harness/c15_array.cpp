// C15: ttl::array against a plain array.
#include "elems.hpp"
#include "ttl/array.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/utility.hpp"
const char *const pbt_name = "C15";
const char *const pbt_rule =
   "random histories over two arrays of one of 8 sizes (0 to 40) and five element types (one with an == that looks at a part) (brace initialization, fill, writes through every accessor, swap, copy, assignment, ttl::swap); size, the identity and value of every element "
   "through every accessor, == and != compared after every step. Non-trivial: at least two elements, a swap or an assignment of arrays with different contents, and fill";
const unsigned pbt_quick_cases = 1500000, pbt_thorough_cases = 10000000;
void pbt_reset() {}
using pbt::Src;

template<typename T, size_t N>
struct Case
{
   typedef ttl::array<T, N> A;
   A *a[2];
   Ints r[2];
   Src &s;
   bool filled, moved;
   Case(Src &src): s(src), filled(false), moved(false) {}
   void full(int w, const char *after)
   {
      A &m = *a[w]; const A &k = m; const Ints &x = r[w];
      CHECK(k.size() == N && k.max_size() == N && k.empty() == (N == 0), "after %s: size(), max_size() or empty()", after);
      CHECK((size_t)(m.end() - m.begin()) == N && m.begin() == k.begin() && k.begin() == k.cbegin() && m.end() == k.end() && k.end() == k.cend(), "after %s: begin or end", after);
      CHECK(m.data() == k.data() && (!N || m.data() == m.begin()), "after %s: data()", after);
      CHECK((const char *)m.begin() >= (const char *)&m && (const char *)m.end() <= (const char *)(&m + 1), "after %s: the elements are not in the object", after);
      for (size_t i = 0; i < N; ++i)
      {
         CHECK(&m[i] == m.begin() + i && &k[i] == &m[i] && &m.at(i) == &m[i] && &k.at(i) == &m[i], "after %s: [%zu] or at", after, i);
         CHECK(val(k[i]) == x[i], "after %s: element %zu of %c is %d instead of %d", after, i, 'a' + w, val(k[i]), x[i]);
      }
      if (N) CHECK(&m.front() == m.begin() && &k.front() == m.begin() && &m.back() == m.end() - 1 && &k.back() == m.end() - 1, "after %s: front or back", after);
      else
      {
         const T *const all[] = { &m.front(), &k.front(), &m.back(), &k.back() };
         for (const T *p: all) CHECK((const char *)p >= (const char *)&m && (const char *)(p + 1) <= (const char *)(&m + 1), "after %s: front or back of an array without elements is not in the object", after);
      }
   }
   void run()
   {
      a[0] = LIB(new A); a[1] = LIB(new A);
      TR("array<%s,%zu>\n", Name<T>::s(), N);
      for (int w = 0; w < 2; ++w)
      {
         r[w].assign(N, 0);
         for (size_t i = 0; i < N; ++i) (*a[w])[i] = T(0);
      }
      const char *what = "construction";
      full(0, what); full(1, what);
      while (s.more(14))
      {
         int w = s.coin();
         A &m = *a[w]; Ints &x = r[w];
         const char c = 'a' + w;
         STEP();
         //                             fill wr swap cpy asg self braces one near
         static const unsigned wt[] = { 3,   8, 3,   2,  3,  1,   2,     3 };
         switch (s.weighted(wt))
         {
         case 0:
            {
               int e = (int)s.below(2000) - 1000;
               const bool alias = N && s.below(4) == 0;
               what = "fill";
               if (alias)
               {
                  // the value is an element of the array
                  size_t i = s.below(N + (N == 0)); e = x[i];
                  TR("%c.fill(%c[%zu])\n", c, c, i);
                  LIB(m.fill(m[i]), 0);
               }
               else { TR("%c.fill(%d)\n", c, e); T t(e); LIB(m.fill(t), 0); }
               x.assign(N, e); filled = true;
               CNT("fill");
               break;
            }
         case 1:
            if (N)
            {
               size_t i = s.below(N + (N == 0)); int e = (int)s.below(2000) - 1000;
               TR("%c[%zu] = %d\n", c, i, e); what = "a write";
               switch (s.below(6))
               {
               case 0: m[i] = T(e); break;
               case 1: m.at(i) = T(e); break;
               case 2: *(m.begin() + i) = T(e); break;
               case 3: m.data()[i] = T(e); break;
               case 4: i = 0; m.front() = T(e); break;
               default: i = N - 1; m.back() = T(e); break;
               }
               x[i] = e;
               CNT("a write");
            }
            break;
         case 2:
            {
               const bool fn = s.coin();
               TR("a.swap(b)%s\n", fn ? " by ttl::swap" : ""); what = "swap";
               moved |= r[0] != r[1];
               if (fn) LIB(ttl::swap(m, *a[1 - w]), 0); else LIB(m.swap(*a[1 - w]), 0);
               x.swap(r[1 - w]);
               CNT("swap");
               break;
            }
         case 3:
            {
               TR("%c = copy of %c\n", 'a' + (1 - w), c); what = "copy construction";
               A *n = LIB(new A(m));
               LIB(delete a[1 - w], 0);
               a[1 - w] = n; r[1 - w] = x;
               CNT("copy construction");
               break;
            }
         case 4: TR("%c = %c\n", c, 'a' + (1 - w)); what = "assignment"; moved |= r[0] != r[1]; LIB(m = *a[1 - w], 0); x = r[1 - w]; CNT("assignment"); break;
         case 5: TR("%c.swap(%c)\n", c, c); what = "swap with itself"; LIB(m.swap(m), 0); CNT("swap with itself"); break;
         case 6:
            if constexpr (N == 3)
            {
               int e = s.below(100);
               TR("%c = {{ %d, %d, %d }}\n", c, e, e + 1, e - 1); what = "brace initialization";
               A t = {{ T(e), T(e + 1), T(e - 1) }};
               x[0] = e; x[1] = e + 1; x[2] = e - 1;
               m = t;
               CNT("brace initialization");
            }
            break;
         case 7:
            if (N)
            {
               // equal but for at most one element
               const bool differ = s.coin(); size_t i = s.below(N + (N == 0));
               r[1 - w] = x;
               if (differ) r[1 - w][i] = x[i] + 1;
               TR("%c like %c%s %zu\n", 'a' + (1 - w), c, differ ? " but for" : ", not but for", i); what = "writes";
               for (size_t j = 0; j < N; ++j) (*a[1 - w])[j] = T(r[1 - w][j]);
               CNT("nearly equal");
            }
            break;
         }
         full(0, what); full(1, what);
         const A &k0 = *a[0], &k1 = *a[1];
         bool eq = true; for (size_t i = 0; i < N; ++i) eq = eq && same<T>(r[0][i], r[1][i]);
         CHECK(LIB(k0 == k1) == eq && LIB(k1 == k0) == eq && LIB(k0 != k1) == !eq, "after %s: == or != of %s arrays", what, eq ? "equal" : "different");
         CHECK(k0 == k0, "after %s: an array differs from itself", what);
      }
      LIB(delete a[0], 0); LIB(delete a[1], 0);
      if (N > 1 && filled && moved) s.nontrivial();
   }
};
template<typename T> static void sized(Src &s)
{
   switch (s.below(8))
   {
   case 0: Case<T, 3>(s).run(); break;
   case 1: Case<T, 1>(s).run(); break;
   case 2: Case<T, 0>(s).run(); break;
   case 3: Case<T, 2>(s).run(); break;
   case 4: Case<T, 4>(s).run(); break;
   case 5: Case<T, 8>(s).run(); break;
   case 6: Case<T, 17>(s).run(); break;
   default: Case<T, 40>(s).run(); break;
   }
}
void pbt_property(Src &s)
{
   switch (s.below(5))
   {
   case 0: sized<int>(s); break;
   case 4: sized<Half>(s); break;
   case 1: sized<Val>(s); break;
   case 2: sized<Big>(s); break;
   default: sized<Odd>(s); break;
   }
}
#include "pbt_main.hpp"
