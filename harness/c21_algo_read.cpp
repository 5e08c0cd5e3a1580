// C21: the non-modifying algorithms against those of the standard library.
#include "algo.hpp"
const char *const pbt_name = "C21";
const char *const pbt_rule =
   "random ranges of up to 40 elements (keys from universes of 1..6, so that matches, runs and partial matches abound) and patterns (random, or a part of the range, changed or not), "
   "every non-modifying algorithm with and without predicates which are not symmetric, over checked iterators of the weakest category the standard asks for and over pointers into exactly sized blocks; "
   "results, number and order of the calls compared with the standard's. Non-trivial: both ranges have at least 2 elements";
const unsigned pbt_quick_cases = 3000000, pbt_thorough_cases = 40000000;
void pbt_reset() {}

template<typename T> struct Visit
{
   int n; std::vector<T> *seen;
   void operator()(const T &a) { ++n; seen->push_back(a); }
};

template<typename T, bool CHK, typename CT = const T> struct Read
{
   Src &s;
   std::vector<T> x, y;
   Read(Src &src): s(src) {}
#define B1(c) X.template begin<c>()
#define E1(c) X.template end<c>()
#define B2(c) Y.template begin<c>()
#define E2(c) Y.template end<c>()
#define IS(what, got, want) CHECK((size_t)(got) == (size_t)(want), "%s returns position %zu instead of %zu", what, (size_t)(got), (size_t)(want))
   void run()
   {
      const unsigned U = s.below(16) == 1 ? 100 : 1 + s.below(6);
      x = some<T>(s, U);
      if (s.coin() && !x.empty())
      {
         // a part of the first range, with changes
         size_t a = s.below(x.size()), b = a + s.below(std::min<size_t>(x.size() - a, s.below(4) ? 6 : 60) + 1);
         y.assign(x.begin() + a, x.begin() + b);
         if (s.below(3) == 0 && !y.empty()) y[s.below(y.size())] = T((int)s.below(U));
         if (s.below(4) == 0) { std::vector<T> z = some<T>(s, U); y.insert(y.end(), z.begin(), z.end()); }
      }
      else y = some<T>(s, U);
      TR("x = %s\ny = %s%s\n", show(x).c_str(), show(y).c_str(), CHK ? "" : " (pointers)");
      Buf<T> bx(x), by(y);
      Over<CT,CHK> X(bx.lo(), bx.hi(), "the first range"), Y(by.lo(), by.hi(), "the second range");
      typename std::vector<T>::iterator xb = x.begin(), xe = x.end(), yb = y.begin(), ye = y.end();
      unsigned nops = 0;
      while (s.more(10) && nops++ < 40)
      {
         Calls c, d;
         const int k = (int)s.below(U + 1);
         Unary<T> p; p.c = &c; p.m = s.range(1, 3); p.r = s.below(p.m);
         Unary<T> q = p; q.c = &d;
         Binary<T> r; r.c = &c; r.kind = s.below(4);
         Binary<T> t = r; t.c = &d;
         STEP();
         const size_t n = x.size();
         switch (s.below(26))
         {
         case 0:
            {
               std::vector<T> seen; Visit<T> v = { 0, &seen };
               TR("for_each\n");
               v = ttl::for_each(B1(INPUT), E1(INPUT), v);
               CHECK(v.n == (int)n && seen.size() == n, "for_each called its function %zu times and returns one called %d times, instead of %zu", seen.size(), v.n, n);
               for (size_t i = 0; i < n; ++i) CHECK(same(seen[i], x[i]), "for_each visits the elements in another order");
               CNT("for_each");
               break;
            }
         case 1: TR("find %d\n", k); IS("find", X.pos(ttl::find(B1(INPUT), E1(INPUT), T(k))), std::find(xb, xe, T(k)) - xb); CNT("find"); break;
         case 2: TR("find_if %d mod %d\n", p.r, p.m); IS("find_if", X.pos(ttl::find_if(B1(INPUT), E1(INPUT), p)), std::find_if(xb, xe, q) - xb); CHECK(c.n <= n, "find_if calls its predicate %zu times", c.n); CNT("find_if"); break;
         case 3: TR("find_if_not %d mod %d\n", p.r, p.m); IS("find_if_not", X.pos(ttl::find_if_not(B1(INPUT), E1(INPUT), p)), std::find_if_not(xb, xe, q) - xb); CHECK(c.n <= n, "find_if_not calls its predicate %zu times", c.n); CNT("find_if_not"); break;
         case 4: TR("count %d\n", k); CHECK(ttl::count(B1(INPUT), E1(INPUT), T(k)) == std::count(xb, xe, T(k)), "count of %d is %ld", k, (long)ttl::count(B1(INPUT), E1(INPUT), T(k))); CNT("count"); break;
         case 5: TR("count_if %d mod %d\n", p.r, p.m); { long g = ttl::count_if(B1(INPUT), E1(INPUT), p); CHECK(g == std::count_if(xb, xe, q), "count_if is %ld", g); CHECK(c.n == n, "count_if calls its predicate %zu times", c.n); } CNT("count_if"); break;
         case 6: TR("all_of %d mod %d\n", p.r, p.m); CHECK(ttl::all_of(B1(INPUT), E1(INPUT), p) == std::all_of(xb, xe, q), "all_of"); CHECK(c.n <= n, "all_of calls its predicate %zu times", c.n); CNT("all_of"); break;
         case 7: TR("any_of %d mod %d\n", p.r, p.m); CHECK(ttl::any_of(B1(INPUT), E1(INPUT), p) == std::any_of(xb, xe, q), "any_of"); CHECK(c.n <= n, "any_of calls its predicate %zu times", c.n); CNT("any_of"); break;
         case 8: TR("none_of %d mod %d\n", p.r, p.m); CHECK(ttl::none_of(B1(INPUT), E1(INPUT), p) == std::none_of(xb, xe, q), "none_of"); CHECK(c.n <= n, "none_of calls its predicate %zu times", c.n); CNT("none_of"); break;
         case 9: TR("adjacent_find\n"); IS("adjacent_find", X.pos(ttl::adjacent_find(B1(FORWARD), E1(FORWARD))), std::adjacent_find(xb, xe) - xb); CNT("adjacent_find"); break;
         case 10: TR("adjacent_find, predicate %d\n", r.kind); IS("adjacent_find", X.pos(ttl::adjacent_find(B1(FORWARD), E1(FORWARD), r)), std::adjacent_find(xb, xe, t) - xb); CNT("adjacent_find with a predicate"); break;
         case 11:
            if (y.size() < n) break;
            TR("equal(3)\n"); CHECK(ttl::equal(B1(INPUT), E1(INPUT), B2(INPUT)) == std::equal(xb, xe, yb), "equal with 3 iterators"); CNT("equal(3)"); break;
         case 12:
            if (y.size() < n) break;
            TR("equal(3), predicate %d\n", r.kind); CHECK(ttl::equal(B1(INPUT), E1(INPUT), B2(INPUT), r) == std::equal(xb, xe, yb, t), "equal with 3 iterators and a predicate"); CNT("equal(3) with a predicate"); break;
         case 13: TR("equal(4)\n"); CHECK(ttl::equal(B1(INPUT), E1(INPUT), B2(INPUT), E2(INPUT)) == std::equal(xb, xe, yb, ye), "equal with 4 iterators"); CNT("equal(4)"); break;
         case 14: TR("equal(4), predicate %d\n", r.kind); CHECK(ttl::equal(B1(INPUT), E1(INPUT), B2(INPUT), E2(INPUT), r) == std::equal(xb, xe, yb, ye, t), "equal with 4 iterators and a predicate"); CNT("equal(4) with a predicate"); break;
         case 15: case 16: case 17: case 18:
            {
               const bool four = s.coin(), pred = s.coin();
               if (!four && y.size() < n) break;
               TR("mismatch(%d), predicate %d\n", four ? 4 : 3, pred ? r.kind : -1);
               size_t i = 0;
               for (; i < n && i < y.size(); ++i)
                  if (pred ? !t(x[i], y[i]) : !(x[i] == y[i])) break;
               if (four && pred) { auto m = ttl::mismatch(B1(INPUT), E1(INPUT), B2(INPUT), E2(INPUT), r); IS("mismatch first", X.pos(m.first), i); IS("mismatch second", Y.pos(m.second), i); }
               else if (four) { auto m = ttl::mismatch(B1(INPUT), E1(INPUT), B2(INPUT), E2(INPUT)); IS("mismatch first", X.pos(m.first), i); IS("mismatch second", Y.pos(m.second), i); }
               else if (pred) { auto m = ttl::mismatch(B1(INPUT), E1(INPUT), B2(INPUT), r); IS("mismatch first", X.pos(m.first), i); IS("mismatch second", Y.pos(m.second), i); }
               else { auto m = ttl::mismatch(B1(INPUT), E1(INPUT), B2(INPUT)); IS("mismatch first", X.pos(m.first), i); IS("mismatch second", Y.pos(m.second), i); }
               CNT("mismatch");
               break;
            }
         case 19: case 20:
            {
               auto g = ttl::search(B1(FORWARD), E1(FORWARD), B2(FORWARD), E2(FORWARD));
               TR("search\n"); IS("search", X.pos(g), std::search(xb, xe, yb, ye) - xb);
               CNT("search");
               CNT_IF(y.size() > n, "search for a longer pattern");
               CNT_IF(!y.empty() && X.pos(g) != n, "search which finds");
               break;
            }
         case 21: TR("search, predicate %d\n", r.kind); IS("search", X.pos(ttl::search(B1(FORWARD), E1(FORWARD), B2(FORWARD), E2(FORWARD), r)), std::search(xb, xe, yb, ye, t) - xb); CNT("search with a predicate"); break;
         case 22: case 23:
            {
               const int m = s.range(-1, s.below(4) ? 5 : U == 1 ? 150 : 12);
               TR("search_n %d of %d\n", m, k);
               int is;
               const size_t g = with_count(s, m, true, is, [&](auto count) { return X.pos(ttl::search_n(B1(FORWARD), E1(FORWARD), count, T(k))); });
               IS("search_n", g, std::search_n(xb, xe, is, T(k)) - xb);
               CNT("search_n");
               CNT_IF(is != m, "search_n of another type of number");
               break;
            }
         case 24:
            {
               const int m = s.range(-1, s.below(4) ? 5 : U == 1 ? 150 : 12);
               TR("search_n %d of %d, predicate %d\n", m, k, r.kind);
               int is;
               const size_t g = with_count(s, m, true, is, [&](auto count) { return X.pos(ttl::search_n(B1(FORWARD), E1(FORWARD), count, T(k), r)); });
               IS("search_n", g, std::search_n(xb, xe, is, T(k), t) - xb);
               CNT("search_n with a predicate");
               break;
            }
         default: other(X, xb, xe, k); break;
         }
      }
      for (size_t i = 0; i < x.size(); ++i) CHECK(same(bx.lo()[i], x[i]), "an element changed");
      for (size_t i = 0; i < y.size(); ++i) CHECK(same(by.lo()[i], y[i]), "an element of the second range changed");
      if (x.size() > 1 && y.size() > 1) s.nontrivial();
   }
   // values of a type other than that of the elements
   template<typename O, typename I> void other(O &X, I xb, I xe, int k)
   {
      TR("find and count of a value of another type %d\n", k);
      if constexpr (std::is_same<T,int>::value)
      {
         IS("find", X.pos(ttl::find(B1(INPUT), E1(INPUT), (signed char)k)), std::find(xb, xe, k) - xb);
         IS("find", X.pos(ttl::find(B1(INPUT), E1(INPUT), k + 0x100000000ll)), xe - xb);
         CHECK(ttl::count(B1(INPUT), E1(INPUT), (long long)k) == std::count(xb, xe, k), "count");
         CHECK(ttl::count(B1(INPUT), E1(INPUT), k + 0.5) == 0, "count of %d.5", k);
      }
      else if constexpr (std::is_arithmetic<T>::value)
      {
         IS("find", X.pos(ttl::find(B1(INPUT), E1(INPUT), (long)k)), std::find(xb, xe, (long)k) - xb);
         IS("find", X.pos(ttl::find(B1(INPUT), E1(INPUT), (long)k + 256)), xe - xb); // no element is as large
         IS("find", X.pos(ttl::find(B1(INPUT), E1(INPUT), (int)k)), std::find(xb, xe, (int)k) - xb);
         IS("find", X.pos(ttl::find(B1(INPUT), E1(INPUT), (int)k + 256)), xe - xb);
         IS("find", X.pos(ttl::find(B1(INPUT), E1(INPUT), (int)k + 65536)), xe - xb);
         CHECK(ttl::count(B1(INPUT), E1(INPUT), (int)k) == std::count(xb, xe, (int)k) && ttl::count(B1(INPUT), E1(INPUT), (int)k + 256) == 0 && ttl::count(B1(INPUT), E1(INPUT), k - 256) == 0, "count");
         IS("search_n", X.pos(ttl::search_n(B1(FORWARD), E1(FORWARD), 2, (int)k + 256)), xe - xb);
         CHECK(ttl::count(B1(INPUT), E1(INPUT), (long)k) == std::count(xb, xe, (long)k), "count");
      }
      else
      {
         IS("find", X.pos(ttl::find(B1(INPUT), E1(INPUT), Pat(k))), std::find(xb, xe, Pat(k)) - xb);
         CHECK(ttl::count(B1(INPUT), E1(INPUT), Pat(k)) == std::count(xb, xe, Pat(k)), "count");
         IS("search_n", X.pos(ttl::search_n(B1(FORWARD), E1(FORWARD), (size_t)2, Pat(k))), std::search_n(xb, xe, 2, T(k)) - xb);
      }
      CNT("values of another type");
   }
};

// truth values are found as values of the type asked for: 2 is none of them
void truths(Src &s)
{
   bool x[24];
   const size_t n = s.below(25);
   for (size_t i = 0; i < n; ++i) x[i] = s.coin();
   static const int values[] = { 0, 1, 2, -1, 256, 257, 0x10000, (int)0x80000000 };
   const int v = values[s.below(8)];
   TR("find, count and search_n of %d among %zu truth values\n", v, n);
   STEP();
   const bool *b = x, *e = x + n;
   CHECK(ttl::find(b, e, v) == std::find(b, e, v) && ttl::find(x, x + n, v) == std::find(x, x + n, v), "find of %d among truth values", v);
   CHECK(ttl::count(b, e, v) == std::count(b, e, v) && ttl::count(x, x + n, (long)v) == std::count(x, x + n, (long)v), "count of %d among truth values", v);
   CHECK(ttl::find(b, e, v != 0) == std::find(b, e, v != 0) && ttl::count(b, e, v != 0) == std::count(b, e, v != 0), "find or count of a truth value");
   CHECK(ttl::search_n(b, e, 2, v) == std::search_n(b, e, 2, v), "search_n of %d among truth values", v);
   const double d = v + 0.5;
   CHECK(ttl::find(b, e, d) == e && ttl::count(b, e, d) == 0, "find or count of %g among truth values", d);
   bool y[3] = { s.coin(), s.coin(), s.coin() };
   int z[3] = { y[0], y[1], s.coin() ? 2 : (int)y[2] };
   const size_t m = s.below(4);
   CHECK(ttl::search(b, e, y, y + m) == std::search(b, e, y, y + m) && ttl::search(b, e, z, z + m) == std::search(b, e, z, z + m), "search among truth values");
   const size_t l = std::min(n, m);
   CHECK(ttl::equal(b, b + l, z) == std::equal(b, b + l, z) && ttl::mismatch(b, b + l, z).first == std::mismatch(b, b + l, z).first, "equal or mismatch of truth values and numbers");
   CNT("truth values");
   if (n > 1) s.nontrivial();
}
void pbt_property(Src &s)
{
   if (s.below(40) == 1) { truths(s); return; }
   if (s.below(5) == 1)
      switch (s.below(8))
      {
      case 0: Read<char,false>(s).run(); return;
      case 1: Read<unsigned char,false>(s).run(); return;
      case 2: Read<unsigned short,false>(s).run(); return;
      case 3: Read<unsigned,false>(s).run(); return;
      case 4: Read<long,false>(s).run(); return;
      case 5: Read<float,false>(s).run(); return;
      case 6: Read<char,false,char>(s).run(); return;
      default: Read<int,false,int>(s).run(); return;
      }
   switch (s.below(6))
   {
   case 0: case 1: Read<Tag,true>(s).run(); break;
   case 2: Read<int,true>(s).run(); break;
   case 3: Read<signed char,false>(s).run(); break;
   case 4: Read<double,false>(s).run(); break;
   default: Read<int,false>(s).run(); break;
   }
}
#include "pbt_main.hpp"
