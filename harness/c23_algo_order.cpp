// C23: searching, merging and min/max follow the order they are given.
#include "algo.hpp"
const char *const pbt_name = "C23";
const char *const pbt_rule =
   "random ranges sorted or only partitioned by one of four orders (by key up or down, by halves and by thirds of the key, under which different keys are equivalent), sometimes of thousands of elements (virtual ones up to 2^61), "
   "values of the element type and of another one, with < and with comparisons; positions and identities compared with the standard's, comparisons counted. "
   "Non-trivial: at least 3 elements and a run of equivalent ones";
const unsigned pbt_quick_cases = 700000, pbt_thorough_cases = 30000000;
void pbt_reset() {}

enum { UP, DOWN, HALVES, THIRDS };
static int rank(int kind, int k) { return kind == UP ? k : kind == DOWN ? -k : kind == HALVES ? (k + 1000) / 2 : -((k + 1000) / 3); }
struct Cmp
{
   Calls *c; int kind;
   bool operator()(const Tag &a, const Tag &b) const { ++c->n; return rank(kind, a.k) < rank(kind, b.k); }
};
struct Low { Calls *c; int kind; bool operator()(const Tag &a, const Pat &b) const { ++c->n; return rank(kind, a.k) < rank(kind, b.k); } };
struct Upp { Calls *c; int kind; bool operator()(const Pat &a, const Tag &b) const { ++c->n; return rank(kind, a.k) < rank(kind, b.k); } };
struct Both
{
   Calls *c; int kind;
   bool operator()(const Tag &a, const Pat &b) const { ++c->n; return rank(kind, a.k) < rank(kind, b.k); }
   bool operator()(const Pat &a, const Tag &b) const { ++c->n; return rank(kind, a.k) < rank(kind, b.k); }
};
template<typename T> struct By { int kind; bool operator()(const T &a, const T &b) const { return rank(kind, key_of(a)) < rank(kind, key_of(b)); } };

// elements whose < is counted
struct Counted
{
   Tag v;
   static size_t &n() { static size_t x; return x; }
   Counted(const Tag &t = Tag()): v(t) {}
   Counted(int k): v(k) {}
   bool operator<(const Counted &o) const { ++n(); return v < o.v; }
   bool operator<(int k) const { ++n(); return v.k < k; }
};
inline bool operator<(int k, const Counted &o) { ++Counted::n(); return k < o.v.k; }

static size_t log2of(size_t n) { size_t l = 0; while (n >>= 1) ++l; return l; }
#define IS(what, got, want) CHECK((size_t)(got) == (size_t)(want), "%s returns position %zu instead of %zu", what, (size_t)(got), (size_t)(want))

struct Order
{
   Src &s;
   Order(Src &src): s(src) {}
   void run()
   {
      const unsigned U = 1 + s.below(8);
      bool big = false;
      unsigned nops = 0;
      while (s.more(8) && nops++ < 40)
      {
         STEP();
         switch (s.below(11))
         {
         case 10:
            switch (s.below(9))
            {
            case 0: numbers<signed char>(); break;
            case 1: numbers<unsigned char>(); break;
            case 2: numbers<short>(); break;
            case 3: numbers<unsigned>(); break;
            case 4: numbers<long>(); break;
            case 5: numbers<unsigned long long>(); break;
            case 6: numbers<float>(); break;
            case 7: numbers<double>(); break;
            default: numbers<int>(); break;
            }
            break;
         case 0: case 1: case 2: case 3: big |= bounds(U); break;
         case 4: if (s.coin()) counted(); else big |= far(); break;
         case 5: merging(U); break;
         case 6: sorted(U); break;
         case 7: pairs(U); break;
         default: extremes(U); break;
         }
      }
      if (big) s.nontrivial();
   }
   // elements sorted by the order, or only partitioned by the value
   Tags arranged(unsigned U, int kind, int k)
   {
      Tags x;
      static const unsigned most[] = { 3, 10, 40, 3000 };
      size_t n = s.below(16) == 0 ? s.below(most[3]) : s.below(most[s.below(3)] + 1);
      if (n > 64)
      {
         // few choices for many elements
         int a = s.below(7), b = s.below(100) + 1;
         for (size_t i = 0; i < n; ++i) x.push_back(Tag((int)((i * a + i / b) % (U * 4))));
      }
      else
         for (size_t i = 0; i < n; ++i) x.push_back(Tag((int)s.below(U)));
      By<Tag> by = { kind };
      if (s.coin()) std::stable_sort(x.begin(), x.end(), by);
      else
      {
         // less, equivalent, greater; any order in each part
         const int r = rank(kind, k);
         std::stable_partition(x.begin(), x.end(), [&](const Tag &t) { return rank(kind, t.k) <= r; });
         std::stable_partition(x.begin(), x.end(), [&](const Tag &t) { return rank(kind, t.k) < r; });
         CNT("partitioned range");
      }
      for (size_t i = 0; i < x.size(); ++i) x[i].t = (int)i;
      return x;
   }
   bool bounds(unsigned U)
   {
      const int k = s.range(-1, (int)U);
      const bool plain = s.coin(), other = s.coin(), ptr = s.below(4) == 0;
      const int kind = plain ? (int)UP : (int)s.below(4);
      Tags x = arranged(U, kind, k);
      const size_t n = x.size();
      const int r = rank(kind, k);
      size_t lo = 0, up = 0;
      for (size_t i = 0; i < n; ++i) { lo += rank(kind, x[i].k) < r; up += rank(kind, x[i].k) <= r; }
      TR("range %s, order %d%s, value %d%s%s\n", show(x).c_str(), kind, plain ? " (<)" : "", k, other ? " of another type" : "", ptr ? " (pointers)" : "");
      Buf<Tag> bx(x);
      Over<const Tag,true> X(bx.lo(), bx.hi(), "the range");
      const Tag t(k); const Pat p(k);
      Calls c;
      Cmp cmp = { &c, kind }; Low lc = { &c, kind }; Upp uc = { &c, kind }; Both bc = { &c, kind };
      const size_t most = 2 * log2of(n) + 4;
#define ON(call) (ptr ? (size_t)([&] { const Tag *b = bx.lo(), *e = bx.hi(); return call - b; }()) : X.pos([&] { It<const Tag,RANDOM> b = X.begin<RANDOM>(), e = X.end<RANDOM>(); return call; }()))
      if (plain)
      {
         if (other)
         {
            IS("lower_bound", ON(ttl::lower_bound(b, e, p)), lo);
            IS("upper_bound", ON(ttl::upper_bound(b, e, p)), up);
            IS("equal_range first", ON(ttl::equal_range(b, e, p).first), lo);
            IS("equal_range second", ON(ttl::equal_range(b, e, p).second), up);
         }
         else
         {
            IS("lower_bound", ON(ttl::lower_bound(b, e, t)), lo);
            IS("upper_bound", ON(ttl::upper_bound(b, e, t)), up);
            IS("equal_range first", ON(ttl::equal_range(b, e, t).first), lo);
            IS("equal_range second", ON(ttl::equal_range(b, e, t).second), up);
         }
         bool f = other ? ttl::binary_search(X.begin<RANDOM>(), X.end<RANDOM>(), p) : ttl::binary_search(X.begin<RANDOM>(), X.end<RANDOM>(), t);
         CHECK(f == (lo < up), "binary_search of %d is %d", k, f);
         CNT("bounds with <");
      }
      else
      {
#define COUNTED(name, m) do { CHECK(c.n <= (m), "%s takes %zu comparisons for %zu elements", name, c.n, n); c.n = 0; } while (0)
         if (other)
         {
            IS("lower_bound", ON(ttl::lower_bound(b, e, p, lc)), lo); COUNTED("lower_bound", most);
            IS("upper_bound", ON(ttl::upper_bound(b, e, p, uc)), up); COUNTED("upper_bound", most);
            IS("equal_range first", ON(ttl::equal_range(b, e, p, bc).first), lo); COUNTED("equal_range", 2 * most + 2);
            IS("equal_range second", ON(ttl::equal_range(b, e, p, bc).second), up); COUNTED("equal_range", 2 * most + 2);
            CHECK(ttl::binary_search(X.begin<RANDOM>(), X.end<RANDOM>(), p, bc) == (lo < up), "binary_search of %d", k); COUNTED("binary_search", most + 1);
         }
         else
         {
            IS("lower_bound", ON(ttl::lower_bound(b, e, t, cmp)), lo); COUNTED("lower_bound", most);
            IS("upper_bound", ON(ttl::upper_bound(b, e, t, cmp)), up); COUNTED("upper_bound", most);
            IS("equal_range first", ON(ttl::equal_range(b, e, t, cmp).first), lo); COUNTED("equal_range", 2 * most + 2);
            IS("equal_range second", ON(ttl::equal_range(b, e, t, cmp).second), up); COUNTED("equal_range", 2 * most + 2);
            CHECK(ttl::binary_search(X.begin<RANDOM>(), X.end<RANDOM>(), t, cmp) == (lo < up), "binary_search of %d", k); COUNTED("binary_search", most + 1);
         }
         CNT("bounds with a comparison");
      }
      for (size_t i = 0; i < n; ++i) CHECK(bx.lo()[i].same(x[i]), "an element changed");
      CNT_IF(n > 500, "bounds of a long range");
      CNT_IF(lo == up, "bounds of an absent value");
      CNT_IF(up - lo > 1, "bounds of a run");
      return n >= 3 && up - lo > 1;
   }
   // the number of uses of <
   void counted()
   {
      const size_t n = s.below(2500);
      const int k = s.range(-1, (int)n / 2 + 1);
      TR("numbers i / 2 for i < %zu, value %d, with a counted <\n", n, k);
      std::vector<Counted> x; for (size_t i = 0; i < n; ++i) x.push_back(Counted((int)i / 2));
      Buf<Counted> bx(x);
      const size_t lo = k < 0 ? 0 : std::min<size_t>(n, 2 * k), up = k < 0 ? 0 : std::min<size_t>(n, 2 * k + 2), most = 2 * log2of(n) + 4;
      size_t &c = Counted::n();
      c = 0; IS("lower_bound", ttl::lower_bound(bx.lo(), bx.hi(), k) - bx.lo(), lo); CHECK(c <= most, "lower_bound takes %zu comparisons for %zu elements", c, n);
      c = 0; IS("upper_bound", ttl::upper_bound(bx.lo(), bx.hi(), k) - bx.lo(), up); CHECK(c <= most, "upper_bound takes %zu comparisons for %zu elements", c, n);
      c = 0; CHECK(ttl::binary_search(bx.lo(), bx.hi(), k) == (lo < up), "binary_search"); CHECK(c <= most + 1, "binary_search takes %zu comparisons for %zu elements", c, n);
      c = 0; IS("equal_range", ttl::equal_range(bx.lo(), bx.hi(), k).second - bx.lo(), up); CHECK(c <= 2 * most + 2, "equal_range takes %zu comparisons for %zu elements", c, n);
      CNT("counted comparisons");
   }
   // ranges which have no elements in memory: the value at i is i / run
   struct Far
   {
      typedef long long value_type, reference; typedef long long difference_type;
      long long at, run;
      Far(long long a = 0, long long r = 1): at(a), run(r) {}
      long long operator*() const { CHECK(at >= 0 && at < limit(), "a bound reads position %lld of %lld", at, limit()); ++reads(); return at / run; }
      Far &operator++() { ++at; return *this; }
      Far operator++(int) { Far t(*this); ++at; return t; }
      Far &operator--() { --at; return *this; }
      Far operator--(int) { Far t(*this); --at; return t; }
      Far &operator+=(long long d) { at += d; return *this; }
      Far &operator-=(long long d) { at -= d; return *this; }
      Far operator+(long long d) const { return Far(at + d, run); }
      Far operator-(long long d) const { return Far(at - d, run); }
      long long operator-(const Far &o) const { return at - o.at; }
      long long operator[](long long d) const { return *(*this + d); }
      bool operator==(const Far &o) const { return at == o.at; }
      bool operator!=(const Far &o) const { return at != o.at; }
      bool operator<(const Far &o) const { return at < o.at; }
      static size_t &reads() { static size_t n; return n; }
      static long long &limit() { static long long n; return n; }
   };
   struct LessFar { bool operator()(long long a, long long b) const { return a < b; } };
   uint64_t wide() { const uint64_t h = s.below(0xffffffffu); return h << 32 | s.below(0xffffffffu); }
   bool far()
   {
      const int bits = 1 + (int)s.below(61);
      const long long n = (long long)(wide() & ((1ull << bits) - 1)), run = 1 + (long long)s.below(1u << s.below(20));
      const long long k = s.coin() ? (long long)(wide() % (uint64_t)(n / run + 2)) : n / run - (long long)s.below(3);
      const long long lo = std::max(0ll, std::min(n, k * run)), up = std::max(0ll, std::min(n, (k + 1) * run));
      TR("numbers i / %lld for i < %lld, value %lld\n", run, n, k);
      Far b(0, run), e(n, run); Far::limit() = n; Far::reads() = 0;
      IS("lower_bound", ttl::lower_bound(b, e, k).at, lo); IS("lower_bound", ttl::lower_bound(b, e, k, LessFar()).at, lo);
      IS("upper_bound", ttl::upper_bound(b, e, k).at, up); IS("upper_bound", ttl::upper_bound(b, e, k, LessFar()).at, up);
      const ttl::pair<Far,Far> p = ttl::equal_range(b, e, k), q = ttl::equal_range(b, e, k, LessFar());
      IS("equal_range", p.first.at, lo); IS("equal_range", p.second.at, up); IS("equal_range", q.first.at, lo); IS("equal_range", q.second.at, up);
      CHECK(ttl::binary_search(b, e, k) == (lo < up) && ttl::binary_search(b, e, k, LessFar()) == (lo < up), "binary_search");
      CHECK(Far::reads() <= 10 * (2 * log2of(n) + 4) + 16, "bounds of %lld elements read %zu times", n, Far::reads());
      CNT("bounds of a virtual range");
      CNT_IF(n > 65536, "bounds of a virtual range above 65536");
      CNT_IF(n > INT_MAX, "bounds of a virtual range above INT_MAX");
      return n >= 3 && up - lo > 1;
   }
   void merging(unsigned U)
   {
      Tags x = some<Tag>(s, U), y = some<Tag>(s, U);
      By<Tag> by = { UP };
      std::stable_sort(x.begin(), x.end(), by); std::stable_sort(y.begin(), y.end(), by);
      for (size_t i = 0; i < x.size(); ++i) x[i].t = (int)i;
      for (size_t i = 0; i < y.size(); ++i) y[i].t = 1000 + (int)i;
      TR("merge %s with %s\n", show(x).c_str(), show(y).c_str());
      Tags want(x.size() + y.size());
      std::merge(x.begin(), x.end(), y.begin(), y.end(), want.begin());
      Buf<Tag> bx(x), by_(y), bd(Tags(want.size(), Tag(-5)));
      Over<const Tag,true> X(bx.lo(), bx.hi(), "the first range"), Y(by_.lo(), by_.hi(), "the second range");
      Over<Tag,true> D(bd.lo(), bd.hi(), "the destination");
      IS("merge", D.pos(ttl::merge(X.begin<INPUT>(), X.end<INPUT>(), Y.begin<INPUT>(), Y.end<INPUT>(), D.begin<FORWARD>())), want.size());
      for (size_t i = 0; i < want.size(); ++i) CHECK(bd.lo()[i].same(want[i]), "merge: element %zu is %d #%d instead of %d #%d", i, bd.lo()[i].k, bd.lo()[i].t, want[i].k, want[i].t);
      CNT("merge");
      CNT_IF(x.empty() != y.empty(), "merge with an empty range");
   }
   void sorted(unsigned U)
   {
      Tags x = some<Tag>(s, U);
      if (s.below(3)) { size_t m = s.below(x.size() + 1); By<Tag> by = { UP }; std::stable_sort(x.begin(), x.begin() + m, by); }
      TR("is_sorted %s\n", show(x).c_str());
      Buf<Tag> bx(x); Over<const Tag,true> X(bx.lo(), bx.hi(), "the range");
      size_t want = std::is_sorted_until(x.begin(), x.end()) - x.begin();
      IS("is_sorted_until", X.pos(ttl::is_sorted_until(X.begin<FORWARD>(), X.end<FORWARD>())), want);
      CHECK(ttl::is_sorted(X.begin<FORWARD>(), X.end<FORWARD>()) == (want == x.size()), "is_sorted");
      if (want == x.size()) CNT("is_sorted, sorted"); else CNT("is_sorted, not sorted");
   }
   template<typename T> struct GreaterOf { bool operator()(const T &a, const T &b) const { return a > b; } };
   // numbers and plain pointers to them
   template<typename T> void numbers()
   {
      std::vector<T> x, y, w;
      for (unsigned n = s.below(s.coin() ? 6 : 30); n--; ) x.push_back(number<T>(s));
      for (unsigned n = s.below(6); n--; ) y.push_back(number<T>(s));
      const bool down = s.coin();
      const T k = x.size() && s.coin() ? x[s.below(x.size())] : number<T>(s), l = number<T>(s);
      const GreaterOf<T> g = GreaterOf<T>();
      TR("numbers of %zu bytes, %zu of them%s\n", sizeof(T), x.size(), down ? ", descending" : "");
      for (size_t i = 0; i < x.size(); ++i) TR(" %g", (double)x[i]);
      TR(" with %g, %g\n", (double)k, (double)l);
      {
         Buf<T> b(x); const T *f = b.lo(), *e = b.hi();
         IS("is_sorted_until of numbers", ttl::is_sorted_until(f, e) - f, std::is_sorted_until(x.begin(), x.end()) - x.begin());
         IS("min_element of numbers", ttl::min_element(f, e) - f, std::min_element(x.begin(), x.end()) - x.begin());
         IS("max_element of numbers", ttl::max_element(b.lo(), b.hi()) - b.lo(), std::max_element(x.begin(), x.end()) - x.begin());
         if (!x.empty())
         {
            const ttl::pair<const T *, const T *> m = ttl::minmax_element(f, e);
            CHECK(*m.first == *std::min_element(x.begin(), x.end()) && *m.second == *std::max_element(x.begin(), x.end()), "minmax_element of numbers");
         }
      }
      CHECK(&ttl::min(k, l) == &std::min(k, l) && &ttl::max(k, l) == &std::max(k, l), "min or max of numbers");
      CHECK(&ttl::min(k, l, g) == &std::min(k, l, g) && &ttl::max(k, l, g) == &std::max(k, l, g), "min or max of numbers with a comparison");
      const ttl::pair<const T &, const T &> mm = ttl::minmax(k, l);
      CHECK(&mm.first == &std::minmax(k, l).first && &mm.second == &std::minmax(k, l).second, "minmax of numbers");
      if (down) std::stable_sort(x.begin(), x.end(), g), std::stable_sort(y.begin(), y.end(), g);
      else std::stable_sort(x.begin(), x.end()), std::stable_sort(y.begin(), y.end());
      Buf<T> b(x), c(y), d(std::vector<T>(x.size() + y.size(), T()));
      const T *f = b.lo(), *e = b.hi();
      T *fm = b.lo(), *em = b.hi();
      if (down)
      {
         const size_t lo = std::lower_bound(x.begin(), x.end(), k, g) - x.begin(), up = std::upper_bound(x.begin(), x.end(), k, g) - x.begin();
         IS("lower_bound of numbers", ttl::lower_bound(f, e, k, g) - f, lo); IS("upper_bound of numbers", ttl::upper_bound(f, e, k, g) - f, up);
         IS("lower_bound of numbers", ttl::lower_bound(fm, em, k, ttl::greater<T>()) - f, lo); IS("upper_bound of numbers", ttl::upper_bound(fm, em, k, ttl::greater<T>()) - f, up);
         IS("equal_range of numbers", ttl::equal_range(f, e, k, g).first - f, lo); IS("equal_range of numbers", ttl::equal_range(fm, em, k, g).second - f, up);
         CHECK(ttl::binary_search(f, e, k, g) == (lo < up), "binary_search of numbers");
         CHECK(ttl::is_sorted(f, e) == std::is_sorted(x.begin(), x.end()), "is_sorted of numbers");
         CNT("numbers, descending");
      }
      else
      {
         const size_t lo = std::lower_bound(x.begin(), x.end(), k) - x.begin(), up = std::upper_bound(x.begin(), x.end(), k) - x.begin();
         IS("lower_bound of numbers", ttl::lower_bound(f, e, k) - f, lo); IS("upper_bound of numbers", ttl::upper_bound(f, e, k) - f, up);
         IS("lower_bound of numbers", ttl::lower_bound(fm, em, k) - f, lo); IS("upper_bound of numbers", ttl::upper_bound(fm, em, k) - f, up);
         IS("lower_bound of numbers", ttl::lower_bound(f, e, k, ttl::less<T>()) - f, lo); IS("upper_bound of numbers", ttl::upper_bound(f, e, k, ttl::less<T>()) - f, up);
         IS("equal_range of numbers", ttl::equal_range(fm, em, k).first - f, lo); IS("equal_range of numbers", ttl::equal_range(f, e, k).second - f, up);
         CHECK(ttl::binary_search(f, e, k) == (lo < up), "binary_search of numbers");
         CHECK(ttl::is_sorted(f, e), "is_sorted of sorted numbers");
         w.resize(x.size() + y.size());
         std::merge(x.begin(), x.end(), y.begin(), y.end(), w.begin());
         IS("merge of numbers", ttl::merge(f, e, c.lo(), c.hi(), d.lo()) - d.lo(), w.size());
         for (size_t i = 0; i < w.size(); ++i) CHECK(same(d.lo()[i], w[i]), "merge of numbers: element %zu", i);
         CNT("numbers, ascending");
      }
   }
   void pairs(unsigned U)
   {
      const Tag a((int)s.below(U), 1), b((int)s.below(U), 2);
      Calls c; Cmp cmp = { &c, (int)s.below(4) };
      const bool less = cmp(b, a), more = cmp(a, b);
      TR("min, max, minmax of %d and %d, order %d\n", a.k, b.k, cmp.kind);
      CHECK(&ttl::min(a, b) == (b.k < a.k ? &b : &a), "min(%d, %d)", a.k, b.k);
      CHECK(&ttl::max(a, b) == (a.k < b.k ? &b : &a), "max(%d, %d)", a.k, b.k);
      CHECK(&ttl::min(a, b, cmp) == (less ? &b : &a), "min(%d, %d) with a comparison", a.k, b.k);
      CHECK(&ttl::max(a, b, cmp) == (more ? &b : &a), "max(%d, %d) with a comparison", a.k, b.k);
      ttl::pair<const Tag &, const Tag &> m = ttl::minmax(a, b), n = ttl::minmax(a, b, cmp);
      CHECK(&m.first == (b.k < a.k ? &b : &a) && &m.second == (b.k < a.k ? &a : &b), "minmax(%d, %d)", a.k, b.k);
      CHECK(&n.first == (less ? &b : &a) && &n.second == (less ? &a : &b), "minmax(%d, %d) with a comparison", a.k, b.k);
      CHECK(ttl::min(a.k, b.k) == std::min(a.k, b.k) && ttl::max(a.k, b.k) == std::max(a.k, b.k), "min or max of ints");
      const double d = a.k / 3.0, e = -b.k / 7.0;
      CHECK(ttl::min(d, e) == std::min(d, e) && ttl::max(d, e) == std::max(d, e), "min or max of doubles");
      const unsigned u = (unsigned)-1 - a.k, v = b.k;
      CHECK(ttl::min(u, v) == v && ttl::max(u, v) == u, "min or max of unsigned");
      CNT("min, max, minmax");
      CNT_IF(!less && !more, "min, max, minmax of equivalent ones");
   }
   void extremes(unsigned U)
   {
      Tags x = some<Tag>(s, U);
      TR("min_element, max_element, minmax_element of %s\n", show(x).c_str());
      Buf<Tag> bx(x); Over<const Tag,true> X(bx.lo(), bx.hi(), "the range");
      IS("min_element", X.pos(ttl::min_element(X.begin<FORWARD>(), X.end<FORWARD>())), std::min_element(x.begin(), x.end()) - x.begin());
      IS("max_element", X.pos(ttl::max_element(X.begin<FORWARD>(), X.end<FORWARD>())), std::max_element(x.begin(), x.end()) - x.begin());
      ttl::pair<It<const Tag,FORWARD>, It<const Tag,FORWARD> > m = ttl::minmax_element(X.begin<FORWARD>(), X.end<FORWARD>());
      if (x.empty())
         CHECK(m.first == X.end<FORWARD>() && m.second == X.end<FORWARD>(), "minmax_element of nothing");
      else
         CHECK((*m.first).k == std::min_element(x.begin(), x.end())->k && (*m.second).k == std::max_element(x.begin(), x.end())->k, "minmax_element");
      CNT("min_element, max_element, minmax_element");
   }
};
void pbt_property(Src &s) { Order(s).run(); }
#include "pbt_main.hpp"
