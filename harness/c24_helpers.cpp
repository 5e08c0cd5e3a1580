// C24: pair, function objects, numeric and size helpers compute their definitions.
#include <sys/mman.h>
#include "elems.hpp"
#include "ttl/type_traits.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/numeric.hpp"
#include "ttl/vector.hpp"
#include "ttl/list.hpp"
#include "ttl/forward_list.hpp"
#include <list>
#include <limits>
#include <type_traits>
using namespace pbt;

// every operator has a truth table of its own
struct Table { unsigned char t[6][4][4]; unsigned calls[6]; };
static Table tab;
struct Sym
{
   int v;
   bool ask(int op, const Sym &o) const { ++tab.calls[op]; return tab.t[op][v][o.v]; }
   bool operator<(const Sym &o) const { return ask(0, o); }
   bool operator>(const Sym &o) const { return ask(1, o); }
   bool operator==(const Sym &o) const { return ask(2, o); }
   bool operator!=(const Sym &o) const { return ask(3, o); }
   bool operator<=(const Sym &o) const { return ask(4, o); }
   bool operator>=(const Sym &o) const { return ask(5, o); }
};
// a type with == only
struct OnlyEq
{
   int v;
   OnlyEq(int x = 0): v(x) {}
   bool operator==(const OnlyEq &o) const { return v == o.v; }
};
inline int val(const OnlyEq &x) { return x.v; }
inline int val(long x) { return (int)x; }
inline int val(short x) { return x; }
inline int val(signed char x) { return x; }
// composition of x -> a*x + b, neither commutative nor with an inverse
struct Affine
{
   unsigned a, b;
   Affine(unsigned x = 1, unsigned y = 0): a(x), b(y) {}
};
static unsigned sums;
inline Affine operator+(const Affine &f, const Affine &g) { ++sums; return Affine(f.a * g.a, f.a * g.b + f.b); }
// positions in a range which has no elements in memory
struct Far
{
   typedef long long difference_type;
   long long at;
   explicit Far(long long x): at(x) {}
   long long operator-(const Far &o) const { return at - o.at; }
   Far &operator+=(long long d) { at += d; return *this; }
};
// an iterator which can be read once
struct Once
{
   const int *p; int *reads;
   int operator*() const { ++reads[0]; return *p; }
   Once &operator++() { ++p; return *this; }
   bool operator!=(const Once &o) const { return p != o.p; }
   bool operator==(const Once &o) const { return p == o.p; }
};

template<class A, class B> bool holds(const ttl::pair<A,B> &p, int x, int y) { return val(p.first) == x && val(p.second) == y; }
template<class A, class B, class U, class W> void pairs(Src &s)
{
   typedef ttl::pair<A,B> P; typedef ttl::pair<U,W> Q;
   STEP();
   const int x = (int)s.below(5), y = (int)s.below(5), z = (int)s.below(5), w = (int)s.below(5);
   TR("pairs of (%d, %d) and (%d, %d)\n", x, y, z, w);
   LibScope lib;
   {
      alignas(16) unsigned char raw[sizeof(P) + 16]; memset(raw, 0xA5, sizeof raw);
      P *d = new(raw) P();
      CHECK(holds(*d, 0, 0), "pair: a default pair is not value-initialized");
      d->~P();
   }
   A a((A(x))); B b((B(y)));
   const P p(a, b);
   CHECK(holds(p, x, y) && val(a) == x && val(b) == y, "pair: construction from two values");
   P q(p);
   CHECK(holds(q, x, y) && holds(p, x, y), "pair: copy construction");
   const Q o((U(z)), (W(w)));
   P r(o);
   CHECK(holds(r, z, w) && holds(o, z, w), "pair: construction from another pair");
   P &back = q = r;
   CHECK(&back == &q && holds(q, z, w) && holds(r, z, w), "pair: assignment");
   q = p;
   P &back2 = q = o;
   CHECK(&back2 == &q && holds(q, z, w) && holds(o, z, w), "pair: assignment of another pair");
   P &self = q;
   q = self;
   CHECK(holds(q, z, w), "pair: self-assignment");
   q = p;
   q.swap(r);
   CHECK(holds(q, z, w) && holds(r, x, y), "pair: swap");
   q.swap(self);
   CHECK(holds(q, z, w), "pair: swap with itself");
   ttl::swap(q, r);
   CHECK(holds(q, x, y) && holds(r, z, w), "ttl::swap of pairs");
   const P m = ttl::make_pair(a, b);
   CHECK(holds(m, x, y) && val(a) == x && val(b) == y, "make_pair");
   const bool equal = same<A>(x, z) && same<B>(y, w);
   CHECK((q == r) == equal && (r == q) == equal, "pair: == of (%d, %d) and (%d, %d)", x, y, z, w);
   CHECK((q != r) == !equal && (r != q) == !equal, "pair: != of (%d, %d) and (%d, %d)", x, y, z, w);
   CHECK(q == p && !(q != p) && holds(q, x, y) && holds(r, z, w), "pair: comparison");
   ttl::select_first<P> f1; ttl::select_second<P> f2; ttl::select_same<P> f3;
   CHECK(&f1(q) == &q.first && &f1(p) == &p.first, "select_first does not refer to the object");
   CHECK(&f2(q) == &q.second && &f2(p) == &p.second, "select_second does not refer to the object");
   CHECK(&f3(q) == &q && &f3(p) == &p, "select_same does not refer to the object");
   f1(q) = A(w); f2(q) = B(z);
   CHECK(holds(q, w, z), "select_first, select_second: writing through them");
   if (x != z && y == w) { s.nontrivial(); CNT("pairs which differ in the first"); }
   if (x == z && y != w) { s.nontrivial(); CNT("pairs which differ in the second"); }
   CNT("pairs");
}
template<class T> void swaps(Src &s)
{
   STEP();
   const int n = 1 + (int)s.below(4);
   std::vector<T> v; Ints r;
   for (int i = 0; i < n; ++i) { r.push_back((int)s.below(9)); v.push_back(T(r[i])); }
   TR("swaps in %s\n", show(r).c_str());
   while (s.more(5))
   {
      int i = (int)s.below(n), j = (int)s.below(n);
      TR("swap %d %d\n", i, j);
      LIB(ttl::swap(v[i], v[j]), 0); std::swap(r[i], r[j]);
      for (int k = 0; k < n; ++k) CHECK(val(v[k]) == r[k], "ttl::swap of %d and %d: element %d is %d instead of %d", i, j, k, val(v[k]), r[k]);
      if (i != j && r[i] != r[j]) s.nontrivial();
   }
   CNT("swaps");
}
void functors(Src &s)
{
   STEP();
   for (int o = 0; o < 6; ++o) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) tab.t[o][i][j] = (unsigned char)s.below(2);
   const Sym a = { (int)s.below(4) }, b = { (int)s.below(4) };
   TR("functions of %d and %d\n", a.v, b.v);
   bool got[4];
   unsigned calls[4][6];
   for (int k = 0; k < 4; ++k)
   {
      memset(tab.calls, 0, sizeof tab.calls);
      LibScope lib;
      const ttl::less<Sym> f0 = ttl::less<Sym>(); const ttl::greater<Sym> f1 = ttl::greater<Sym>(); const ttl::equal_to<Sym> f2 = ttl::equal_to<Sym>(); const ttl::not_equal_to<Sym> f3 = ttl::not_equal_to<Sym>();
      got[k] = k == 0 ? f0(a, b) : k == 1 ? f1(a, b) : k == 2 ? f2(a, b) : f3(a, b);
      memcpy(calls[k], tab.calls, sizeof tab.calls);
   }
   static const char *const names[] = { "less", "greater", "equal_to", "not_equal_to" };
   for (int k = 0; k < 4; ++k)
      CHECK(got[k] == (bool)tab.t[k][a.v][b.v], "%s does not return what its operator returns", names[k]);
   bool distinct = tab.t[0][a.v][b.v] != tab.t[0][b.v][a.v] || tab.t[1][a.v][b.v] != tab.t[1][b.v][a.v];
   if (distinct) s.nontrivial();
   // fundamental types
   static const double d[] = { -1.5, 0.0, -0.0, 1e300, 3, 1.0 / 3, -1e300, 2 };
   const double x = d[s.below(8)], y = d[s.below(8)];
   CHECK(ttl::less<double>()(x, y) == (x < y) && ttl::greater<double>()(x, y) == (x > y) && ttl::equal_to<double>()(x, y) == (x == y) && ttl::not_equal_to<double>()(x, y) == (x != y), "functions of %g and %g", x, y);
   static const unsigned u[] = { 0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu };
   const unsigned e = u[s.below(5)], f = u[s.below(5)];
   CHECK(ttl::less<unsigned>()(e, f) == (e < f) && ttl::greater<unsigned>()(e, f) == (e > f) && ttl::less<int>()((int)e, (int)f) == ((int)e < (int)f) && ttl::greater<int>()((int)e, (int)f) == ((int)e > (int)f) &&
         ttl::equal_to<unsigned>()(e, f) == (e == f) && ttl::not_equal_to<int>()((int)e, (int)f) == (e != f), "functions of %u and %u", e, f);
   CNT("functions");
}
template<class T> struct Lim { static T of(unsigned i) { switch (i) { case 0: return 0; case 1: return (T)-1; case 2: return 1; case 3: return std::numeric_limits<T>::max(); case 4: return std::numeric_limits<T>::lowest(); case 5: return (T)(std::numeric_limits<T>::max() - 1); case 6: return (T)100; case 7: return (T)(std::numeric_limits<T>::max() / 2 + 1); case 8: return (T)0x1000100000000ll; case 9: return std::numeric_limits<T>::has_quiet_NaN ? std::numeric_limits<T>::quiet_NaN() : (T)3; case 10: return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : (T)5; case 11: return (T)0x7fffffffffffffffll; case 12: return (T)1.0000001; default: return (T)-0.0; } } };
template<class T> void compared(Src &s, const char *name)
{
   STEP();
   const unsigned i = s.below(14), j = s.below(14);
   const T a = Lim<T>::of(i), b = Lim<T>::of(j);
   TR("functions of %s: limits %u and %u\n", name, i, j);
   CHECK(ttl::less<T>()(a, b) == (a < b), "less<%s>", name);
   CHECK(ttl::greater<T>()(a, b) == (a > b), "greater<%s>", name);
   CHECK(ttl::equal_to<T>()(a, b) == (a == b), "equal_to<%s>", name);
   CHECK(ttl::not_equal_to<T>()(a, b) == (a != b), "not_equal_to<%s>", name);
   T x = a, y = b;
   ttl::swap(x, y);
   CHECK(!memcmp(&x, &b, sizeof x <= 8 ? sizeof x : 10) && !memcmp(&y, &a, sizeof y <= 8 ? sizeof y : 10), "swap of %s", name);
   ttl::swap(x, x);
   CHECK(!memcmp(&x, &b, sizeof x <= 8 ? sizeof x : 10), "swap of %s with itself", name);
   if (a != b) s.nontrivial();
   CNT("functions of fundamental types");
}
static char place[5000000];
enum Colour { RED = -7, GREEN = 0, BLUE = 0x7fffffff };
void fundamental(Src &s)
{
   switch (s.below(18))
   {
   case 0: compared<signed char>(s, "signed char"); break;
   case 1: compared<unsigned char>(s, "unsigned char"); break;
   case 2: compared<char>(s, "char"); break;
   case 3: compared<short>(s, "short"); break;
   case 4: compared<unsigned short>(s, "unsigned short"); break;
   case 5: compared<int>(s, "int"); break;
   case 6: compared<unsigned>(s, "unsigned"); break;
   case 7: compared<long>(s, "long"); break;
   case 8: compared<unsigned long>(s, "unsigned long"); break;
   case 9: compared<long long>(s, "long long"); break;
   case 10: compared<unsigned long long>(s, "unsigned long long"); break;
   case 11: compared<float>(s, "float"); break;
   case 12: compared<double>(s, "double"); break;
   case 13: compared<long double>(s, "long double"); break;
   case 14: compared<bool>(s, "bool"); break;
   case 15: compared<wchar_t>(s, "wchar_t"); break;
   case 16:
   {
      STEP();
      // pointers into one array, and the numbers of an enumeration
      const size_t i = s.below(2) ? s.below(5000000) : s.below(30), j = s.below(2) ? s.below(5000000) : s.below(30);
      char *p = place + i, *q = place + j; const short *u = (const short *)place + i / 2, *v = (const short *)place + j / 2;
      TR("functions of pointers %zu and %zu\n", i, j);
      CHECK(ttl::less<char *>()(p, q) == (i < j) && ttl::greater<char *>()(p, q) == (i > j) && ttl::equal_to<char *>()(p, q) == (i == j) && ttl::not_equal_to<char *>()(p, q) == (i != j), "functions of char *");
      CHECK(ttl::less<const char *>()(p, q) == (i < j) && ttl::equal_to<const char *>()(p, q) == (i == j) && ttl::not_equal_to<const char *>()(p, q) == (i != j) && ttl::greater<const char *>()(p, q) == (i > j), "functions of const char *");
      // as well in an array of more than 2^32 elements, of which none exists in memory
      static char *const space = (char *)mmap(nullptr, (size_t)1 << 36, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (space != (char *)MAP_FAILED)
      {
         const size_t k = ((size_t)s.below(16) << 32) + (s.coin() ? i : ((size_t)1 << 31) + i - 4), l = (s.coin() ? k & ~(size_t)0xffffffff : (size_t)s.below(16) << 32) + (s.coin() ? j : ((size_t)1 << 31) + j - 4);
         const char *f = space + k, *g = space + l;
         CHECK(ttl::less<const char *>()(f, g) == (k < l) && ttl::greater<const char *>()(f, g) == (k > l) && ttl::equal_to<const char *>()(f, g) == (k == l) && ttl::not_equal_to<const char *>()(f, g) == (k != l), "functions of pointers to the elements %zu and %zu", k, l);
      }
      CHECK(ttl::less<const short *>()(u, v) == (i / 2 < j / 2) && ttl::equal_to<const short *>()(u, v) == (i / 2 == j / 2), "functions of const short *");
      ttl::swap(p, q);
      CHECK(p == place + j && q == place + i, "swap of pointers");
      CNT("functions of pointers");
      break;
   }
   default:
   {
      STEP();
      static const Colour c[] = { RED, GREEN, BLUE };
      const unsigned i = s.below(3), j = s.below(3);
      TR("functions of an enumeration\n");
      CHECK(ttl::less<Colour>()(c[i], c[j]) == (i < j) && ttl::greater<Colour>()(c[i], c[j]) == (i > j) && ttl::equal_to<Colour>()(c[i], c[j]) == (i == j) && ttl::not_equal_to<Colour>()(c[i], c[j]) == (i != j), "functions of an enumeration");
      CNT("functions of an enumeration");
      break;
   }
   }
}
void numbers(Src &s)
{
   STEP();
   const unsigned n = s.below(12);
   Ints x; for (unsigned i = 0; i < n; ++i) x.push_back((int)s.below(1u << 31) - (1 << 30));
   std::vector<Affine> f; for (unsigned i = 0; i < n; ++i) f.push_back(Affine(s.below(7), s.below(7)));
   TR("accumulate %s\n", show(x).c_str());
   const Affine f0(s.below(7), s.below(7));
   Affine want = f0;
   for (unsigned i = 0; i < n; ++i) want = want + f[i];
   sums = 0;
   const Affine got = LIB(ttl::accumulate(f.data(), f.data() + n, f0));
   CHECK(got.a == want.a && got.b == want.b, "accumulate: not the fold from the left");
   CHECK(sums == n, "accumulate: %u sums of %u elements", sums, n);
   // the sum has the type of the initial value
   const long long big = (long long)s.below(1u << 30) << 20;
   long long w = big; double d = 0.5; unsigned char c = 7;
   for (unsigned i = 0; i < n; ++i) { w = w + x[i]; d = d + x[i]; c = (unsigned char)(c + x[i]); }
   CHECK(LIB(ttl::accumulate(x.begin(), x.end(), big)) == w, "accumulate: a sum with an initial value of a wider type");
   CHECK(LIB(ttl::accumulate(x.data(), x.data() + n, 0.5)) == d, "accumulate: a sum with an initial value of type double");
   CHECK(LIB(ttl::accumulate(x.data(), x.data() + n, (unsigned char)7)) == c, "accumulate: a sum with an initial value of type unsigned char");
   // where the order of the sums matters
   {
      static const double ds[] = { 1, 1e16, -1e16, 0.1, 1e-9, 3, -0.0, 1e300 };
      std::vector<double> v; std::vector<float> u; std::vector<unsigned char> t; std::vector<long> z;
      for (unsigned i = 0; i < n; ++i) { v.push_back(ds[s.below(8)]); u.push_back((float)ds[s.below(7)]); t.push_back((unsigned char)s.below(256)); z.push_back((long)s.below(0xffffffffu) << 24); }
      const double d0 = ds[s.below(8)]; const float f0 = (float)ds[s.below(7)];
      double dw = d0; float fw = f0; double mw = d0; unsigned tw = 3; long zw = -5;
      for (unsigned i = 0; i < n; ++i) { dw = dw + v[i]; fw = fw + u[i]; mw = mw + u[i]; tw = tw + t[i]; zw = zw + z[i]; }
      const double *vb = v.data(), *ve = v.data() + n; const float *ub = u.data(), *ue = u.data() + n;
      CHECK(LIB(ttl::accumulate(vb, ve, d0)) == dw && LIB(ttl::accumulate(v.data(), v.data() + n, d0)) == dw, "accumulate of doubles");
      CHECK(LIB(ttl::accumulate(ub, ue, f0)) == fw && LIB(ttl::accumulate(ub, ue, d0)) == mw, "accumulate of floats");
      CHECK(LIB(ttl::accumulate((const unsigned char *)t.data(), (const unsigned char *)t.data() + n, 3u)) == tw, "accumulate of bytes");
      CHECK(LIB(ttl::accumulate((const long *)z.data(), (const long *)z.data() + n, -5l)) == zw, "accumulate of longs");
   }
   int reads = 0;
   const Once b = { x.data(), &reads }, e = { x.data() + n, &reads };
   CHECK(LIB(ttl::accumulate(b, e, big)) == w && reads == (int)n, "accumulate: %d reads of %u elements", reads, n);
   std::list<int> l(x.begin(), x.end());
   CHECK(LIB(ttl::accumulate(l.begin(), l.end(), big)) == w, "accumulate of a list");
   if (n >= 2) s.nontrivial();
   CNT("accumulate");
}
template<class D> void moves(Src &s)
{
   const long long lo = std::is_signed<D>::value ? -100 : 0;
   D d = (D)(lo + (long long)s.below(201));
   int a[512]; int *p = a + 200;
   LIB(ttl::advance(p, d), 0);
   CHECK(p - a == 200 + (long long)d, "advance by %lld moves by %td", (long long)d, p - a - 200);
   CHECK(LIB(ttl::distance(a + 200, p)) == (long long)d && LIB(ttl::distance(p, a + 200)) == -(long long)d, "distance after advance by %lld", (long long)d);
}
void sizes(Src &s)
{
   STEP();
   TR("distance and advance\n");
   switch (s.below(7))
   {
   case 0: moves<int>(s); break;
   case 1: moves<short>(s); break;
   case 2: moves<long>(s); break;
   case 3: moves<size_t>(s); break;
   case 4: moves<signed char>(s); break;
   case 5: moves<unsigned char>(s); break;
   default: moves<long long>(s); break;
   }
   // ranges which have no elements in memory
   const int bits = 1 + (int)s.below(61);
   const uint64_t high = s.below(0xffffffffu);
   const long long from = (long long)s.below(1u << 30) << 10, len = (long long)((high << 32 | s.below(0xffffffffu)) & ((1ull << bits) - 1));
   Far f(from); const Far g(from);
   LIB(ttl::advance(f, len), 0);
   CHECK(f.at == from + len, "advance by %lld", len);
   CHECK(LIB(ttl::distance(g, f)) == len && LIB(ttl::distance(f, g)) == -len && LIB(ttl::distance(f, f)) == 0, "distance of %lld elements", len);
   LIB(ttl::advance(f, -len), 0);
   CHECK(f.at == from, "advance by %lld", -len);
   std::vector<Big> v(s.below(40));
   CHECK(LIB(ttl::distance(v.begin(), v.end())) == (long)v.size() && LIB(ttl::distance(v.cbegin(), v.cend())) == (long)v.size(), "distance of a vector");
   if (len > 255) s.nontrivial();
   CNT("distance, advance");
   CNT_IF(len > 65535, "distance above 65535");
   CNT_IF(len > INT_MAX, "distance above INT_MAX");
}
static char c1[1]; static char c255[255], c256[256], c257[257]; static short s65536[65536]; static char c70000[70000]; static Odd o7[7]; static const long cl3[3] = { 1, 2, 3 };
static int two[5][9];
void counts(Src &s)
{
   STEP();
   const unsigned i = s.below(9);
   TR("countof %u\n", i);
   static_assert(countof(c257) == 257 && ttl_countof(cl3) == 3, "countof is not a constant");
   unsigned long n = 0, want = 0;
   switch (i)
   {
   case 0: n = countof(c1); want = 1; break;
   case 1: n = countof(c255); want = 255; break;
   case 2: n = ttl_countof(c256); want = 256; break;
   case 3: n = countof(s65536); want = 65536; break;
   case 4: n = countof(c70000); want = 70000; break;
   case 5: n = ttl_countof(o7); want = 7; break;
   case 6: n = countof(cl3); want = 3; break;
   case 7: n = countof(two); want = 5; break;
   default: n = countof(two[3]); want = 9; break;
   }
   CHECK(n == want, "countof an array of %lu elements is %lu", want, n);
   CNT("countof");
   // move
   int x = (int)s.below(100); Big b(x); const Big k(x);
   static_assert(std::is_same<decltype(ttl::move(b)), Big &&>::value && std::is_same<decltype(ttl::move(k)), const Big &&>::value && std::is_same<decltype(ttl::move(Big())), Big &&>::value, "type of move");
   Big &&r = ttl::move(b); const Big &&q = ttl::move(k);
   CHECK(&r == &b && &q == &k && val(b) == x, "move does not refer to its argument");
}
template<class P> void addresses(Src &s)
{
   STEP();
   int m[4] = { 1, 2, 3, 4 };
   int *p = m + s.below(4), *q = m + s.below(4);
   TR("pairs of pointers\n");
   ttl::pair<int *, const int *> a(p, q), b = ttl::make_pair(q, (const int *)p);
   CHECK(a.first == p && a.second == q && b.first == q && b.second == p, "pair of pointers");
   CHECK((a == b) == (p == q) && (a != b) == (p != q), "== of pairs of pointers");
   a.swap(b);
   CHECK(b.first == p && b.second == q && a.first == q && a.second == p, "swap of pairs of pointers");
   ttl::pair<const int *, const int *> c(a);
   CHECK(c.first == q && c.second == p, "conversion of pairs of pointers");
   ttl::pair<int *, int> d;
   CHECK(d.first == 0 && d.second == 0, "default pair of a pointer and a number");
   ttl::pair<const int, OnlyEq> e(3, OnlyEq(4)), f(e);
   CHECK(e == f && !(e != f) && ttl::make_pair("text", 'c').second == 'c' && !strcmp(ttl::make_pair("text", 'c').first, "text"), "pairs of constants");
   // nested
   ttl::pair<ttl::pair<int, Val>, Big> g(ttl::make_pair(1, Val(2)), Big(*p)), h(ttl::make_pair(1, Val(2)), Big(*q));
   CHECK((g == h) == (p == q) && (g != h) == (p != q), "== of nested pairs");
   CNT("pairs of pointers, constants and pairs");
}
const char *const pbt_name = "C24";
const char *const pbt_rule =
   "random uses of pair (seven combinations of element types and conversions between them, some with an == which looks at a part, values from 0 to 4), swap, the function objects (on a type whose operators answer from independent random truth tables, and on "
   "numbers), select_*, accumulate (a sum which does not commute, initial values of other types, iterators read once), distance and advance (up to 2^61 elements), countof and move, against their definitions, with "
   "calls of operator new counted. Non-trivial: pairs which differ in one member only, swaps of different values, a truth table which is not symmetric at the arguments, at least two elements to add, a distance above 255";
const unsigned pbt_quick_cases = 3000000, pbt_thorough_cases = 60000000;
void pbt_reset() { REG().reset(); }
void pbt_property(Src &s)
{
   switch (s.below(20))
   {
   case 18: case 19: fundamental(s); break;
   case 0: pairs<int, Val, short, int>(s); break;
   case 1: pairs<Big, long, Big, short>(s); break;
   case 2: pairs<Tr, Tr, int, Tr>(s); break;
   case 3: pairs<signed char, OnlyEq, int, int>(s); break;
   case 4: swaps<int>(s); break;
   case 5: swaps<Big>(s); break;
   case 6: swaps<Tr>(s); break;
   case 7: swaps<Odd>(s); break;
   case 8: functors(s); break;
   case 9: case 10: numbers(s); break;
   case 14: pairs<Half, int, Half, short>(s); break;
   case 15: pairs<Val, Half, int, Half>(s); break;
   case 16: pairs<Half, Half, Half, Half>(s); break;
   case 17: swaps<Half>(s); break;
   case 11: sizes(s); break;
   case 12: counts(s); break;
   default: addresses<int>(s); break;
   }
   CHECK(pbt::M().lib_allocs == 0, "a helper allocated memory");
   CHECK(REG().live == 0, "a helper left %zu elements alive", REG().live);
}
#include "pbt_main.hpp"
