// C27: equality operators compare sizes and elements, nothing else.
#include "adapters.hpp"
#include <limits>
using namespace pbt;

// an element which may differ from itself, as a number which is none
struct Nan
{
   int v;
   Nan(): v(0) {}
   Nan(int x): v(x) {}
   bool none() const { return v % 6 == 5; }
   bool operator==(const Nan &o) const { return v == o.v && !none(); }
   bool operator!=(const Nan &o) const { return !(*this == o); }
   bool operator<(const Nan &o) const { return v < o.v; }
   bool operator>(const Nan &o) const { return v > o.v; }
};
inline int val(const Nan &x) { return x.v; }
template<> struct Name<Nan> { static const char *s() { return "Nan"; } };
template<class T> bool elem_eq(int a, int b) { return same<T>(a, b); }
template<> bool elem_eq<Nan>(int a, int b) { return Nan(a) == Nan(b); }
template<class T> bool all_eq(const Ints &x, const Ints &y)
{
   bool eq = x.size() == y.size();
   for (size_t i = 0; eq && i < x.size(); ++i) eq = elem_eq<T>(x[i], y[i]);
   return eq;
}

template<class C> auto wipe(C &c, int) -> decltype(c.clear()) { c.clear(); }
template<class C> auto wipe(C &c, long) -> decltype((void)c.reset()) { c.reset(); }
template<class C> void wipe(C &, ...) {}

template<class A> void history(Src &s, typename A::type &c, const char *who)
{
   for (unsigned n = s.below(9); n--;)
   {
      Op o = draw_op(s, A::KINDS, 12, false);
      TR("%s.", who);
      A::apply(c, o, false, true);
      TR("\n");
      STEP();
   }
}
template<class A> void compare(Src &s, typename A::type &a, typename A::type &b, bool made_equal)
{
   typedef typename A::type C;
   typedef typename A::elem T;
   const Ints oa = observe<A>(a), ob = observe<A>(b);
   Ints x = contents_of<A>(a), y = contents_of<A>(b);
   if (x != contents_part(oa) || y != contents_part(ob)) abandon();
   const bool want = all_eq<T>(x, y), self_p = all_eq<T>(x, x), self_q = all_eq<T>(y, y);
   const C &p = a, &q = b;
   STEP();
   const bool e = LIB(p == q), n = LIB(p != q), f = LIB(q == p), m = LIB(q != p);
   CHECK(e == want && f == want, "%s: == of %s and %s is %d, the other way round %d", A::name(), show(x).c_str(), show(y).c_str(), e, f);
   CHECK(n == !want && m == !want, "%s: != of %s and %s is %d, the other way round %d", A::name(), show(x).c_str(), show(y).c_str(), n, m);
   CHECK(LIB(p == p) == self_p && LIB(q != q) == !self_q, "%s: == of a container and itself", A::name());
   CHECK(observe<A>(a) == oa && observe<A>(b) == ob, "%s: the comparison changed a container", A::name());
   CNT("comparison");
   CNT_IF(want, "equal"); CNT_IF(!want, "not equal");
   if (want && made_equal && x.size()) { s.nontrivial(); CNT("equal by different histories"); }
   if (!want && x.size() == y.size()) CNT("not equal, same size");
   if (!want && x.size() != y.size() && all_eq<T>(Ints(x.begin(), x.begin() + std::min(x.size(), y.size())), Ints(y.begin(), y.begin() + std::min(x.size(), y.size())))) { s.nontrivial(); CNT("one is a prefix of the other"); }
}
// a comparison of the user's own
struct Downward { bool operator()(const Half &a, const Half &b) const { return b < a; } };
template<class A> void run(Src &s)
{
   typedef typename A::type C;
   C *a = LIB(new C()), *b = LIB(new C());
   TR("%s<%s>\n", A::name(), Name<typename A::elem>::s());
   A::build(*a, Ints()); A::build(*b, Ints());
   history<A>(s, *a, "a");
   history<A>(s, *b, "b");
   compare<A>(s, *a, *b, true);
   // bring b to the contents of a (or nearly) by another way
   for (unsigned rounds = 1 + s.below(3); rounds--;)
   {
      Ints x = contents_of<A>(*a);
      switch (s.below(6))
      {
      case 0: if (!x.empty()) x[s.below(x.size())] += 1; break;
      case 1: if (!x.empty()) { x.pop_back(); if (A::KEYED && strcmp(A::name(), "set")) x.pop_back(); } break;
      case 2: x.push_back((int)s.below(12)); x.push_back((int)s.below(12)); break;
      case 3: if (x.size() > 1) { size_t i = s.below(x.size() - 1); std::swap(x[i], x[i + 1]); } break;
      default: break;
      }
      TR("b: clear, filled with %s\n", show(x).c_str());
      wipe(*b, 0);
      A::build(*b, x);
      compare<A>(s, *a, *b, true);
      if (s.coin()) { history<A>(s, *b, "b"); compare<A>(s, *a, *b, false); }
      if (s.coin()) { Op o = draw_op(s, A::KINDS, 12, false); TR("both."); A::apply(*a, o, false, true); TR("\n"); A::apply(*b, o, false, false); compare<A>(s, *a, *b, false); }
   }
   LIB(delete a, 0); LIB(delete b, 0);
}
// numbers: they are compared by ==, not by their bytes, and as a whole
template<class T> T number(unsigned i)
{
   typedef std::numeric_limits<T> L;
   switch (i)
   {
   case 0: return (T)0;
   case 1: return L::is_integer ? (T)1 : (T)-0.0;
   case 2: return L::has_quiet_NaN ? L::quiet_NaN() : (T)2;
   case 3: return L::max();
   case 4: return L::lowest();
   case 5: return L::is_integer ? (T)(L::max() - 1) : L::denorm_min();
   case 6: return L::is_integer ? (T)0x500000001ll : (T)(1 + L::epsilon());
   case 7: return L::is_integer ? (T)(L::max() / 2 + 1) : (T)0.5;
   default: return (T)1;
   }
}
template<class C, class T> auto put(C &c, const std::vector<T> &v, int) -> decltype((void)c.push_back(v[0])) { for (size_t i = 0; i < v.size(); ++i) c.push_back(v[i]); }
template<class C, class T> auto put(C &c, const std::vector<T> &v, long) -> decltype((void)c.push_front(v[0])) { for (size_t i = v.size(); i--;) c.push_front(v[i]); }
template<class C, class T> void put(C &c, const std::vector<T> &v, ...) { size_t i = 0; for (typename C::iterator it = c.begin(); it != c.end(); ++it) *it = v[i++]; }
template<class C, class T> void compare_numbers(Src &s, const char *what, size_t fixed, const T *values, unsigned nvalues)
{
   std::vector<T> x, y;
   const size_t n = fixed != (size_t)-1 ? fixed : s.below(6);
   for (size_t i = 0; i < n; ++i) x.push_back(values[s.below(nvalues)]);
   y = x;
   if (s.coin() && n) y[s.below(n)] = values[s.below(nvalues)];
   if (fixed == (size_t)-1 && s.below(5) == 0) y.push_back(values[s.below(nvalues)]);
   C *a = LIB(new C()), *b = LIB(new C());
   TR("%s of %zu and %zu numbers\n", what, x.size(), y.size());
   STEP();
   LIB(put(*a, x, 0), 0); LIB(put(*b, y, 0), 0);
   bool want = x.size() == y.size(), self = true;
   for (size_t i = 0; want && i < x.size(); ++i) want = x[i] == y[i];
   for (size_t i = 0; i < x.size(); ++i) self = self && x[i] == x[i];
   const C &p = *a, &q = *b;
   STEP();
   CHECK(LIB(p == q) == want && LIB(q == p) == want, "%s: == of numbers, expected %d", what, want);
   CHECK(LIB(p != q) == !want && LIB(q != p) == !want, "%s: != of numbers, expected %d", what, !want);
   CHECK(LIB(p == p) == self && LIB(p != p) == !self, "%s: comparison of numbers with themselves, expected %d", what, self);
   CNT("numbers");
   if (x.size()) s.nontrivial();
   LIB(delete a, 0); LIB(delete b, 0);
}
template<class T> void container_of_numbers(Src &s, const T *v, unsigned n)
{
   const size_t any = (size_t)-1;
   switch (s.below(7))
   {
   case 0: compare_numbers<ttl::vector<T> >(s, "vector", any, v, n); break;
   case 1: compare_numbers<ttl::fixed_vector<T,7> >(s, "fixed_vector", any, v, n); break;
   case 2: compare_numbers<ttl::list<T> >(s, "list", any, v, n); break;
   case 3: compare_numbers<ttl::forward_list<T> >(s, "forward_list", any, v, n); break;
   case 4: compare_numbers<ttl::backward_list<T> >(s, "backward_list", any, v, n); break;
   case 5: compare_numbers<ttl::array<T,3> >(s, "array", 3, v, n); break;
   default:
      {
         const T a = v[s.below(n)], b = v[s.below(n)], c = s.coin() ? a : v[s.below(n)], d = s.coin() ? b : v[s.below(n)];
         const ttl::pair<T,T> p(a, b), q(c, d);
         TR("pairs of numbers\n");
         STEP();
         CHECK(LIB(p == q) == (a == c && b == d) && LIB(p != q) == !(a == c && b == d), "pair: equality of numbers");
         s.nontrivial();
      }
   }
}
template<class T> void numbers_of(Src &s) { T v[9]; for (unsigned i = 0; i < 9; ++i) v[i] = number<T>(i); container_of_numbers<T>(s, v, 9); }
void numbers(Src &s)
{
   static char at[8];
   static char *const pointers[] = { nullptr, at, at + 1, at + 7, (char *)0x100000000ull, (char *)0x200000000ull, (char *)~0ull };
   switch (s.below(9))
   {
   case 0: numbers_of<double>(s); break;
   case 1: numbers_of<float>(s); break;
   case 2: numbers_of<long>(s); break;
   case 3: numbers_of<unsigned long long>(s); break;
   case 4: numbers_of<signed char>(s); break;
   case 5: numbers_of<unsigned short>(s); break;
   case 6: numbers_of<unsigned>(s); break;
   case 7: numbers_of<long double>(s); break; // six of its bytes are padding
   default: container_of_numbers<char *>(s, pointers, sizeof(pointers) / sizeof(*pointers)); break;
   }
}
const char *const pbt_name = "C27";
const char *const pbt_rule =
   "two containers of one kind (all kinds with equality operators; element types among them one whose == is coarser than its bytes, and one with values which do not equal themselves) with random histories, then one brought to the contents of the other or "
   "close to it (one element changed, one less, one more, two exchanged) by another way; ==, != both ways and with itself are compared with the elements read; sequences and pairs of numbers of nine fundamental types (zeros of both signs, NaN, limits, padding) likewise. Non-trivial: non-empty equal contents by different "
   "histories, or one a proper prefix of the other";
const unsigned pbt_quick_cases = 700000, pbt_thorough_cases = 15000000;
void pbt_reset() {}
void pbt_property(Src &s)
{
   switch (s.below(25))
   {
   case 0: run<VectorAd<int> >(s); break;
   case 1: run<VectorAd<Half> >(s); break;
   case 2: run<FvAd<Half>::of<4> >(s); break;
   case 3: run<FvAd<Big>::of<13> >(s); break;
   case 4: case 5: run<ListAd<Half> >(s); break;
   case 6: case 7: run<ForwardAd<Half> >(s); break;
   case 8: case 9: run<BackwardAd<Half> >(s); break;
   case 10: case 11: run<TtlMapAd<Half> >(s); break;
   case 12: if (s.coin()) run<TtlMapAd<int> >(s); else run<MapAd<ttl::map<Half,Half,Downward>,Half> >(s); break;
   case 13: if (s.coin()) run<TtlSetAd<Half> >(s); else run<SetAd<ttl::set<Half,Downward>,Half,true> >(s); break;
   case 14: if (s.coin()) run<TtlSetAd<int> >(s); else run<SetAd<ttl::set<int,ttl::greater<int> >,int,true> >(s); break;
   case 15: run<VMapAd<Half> >(s); break;
   case 16: run<ArrAd<Half,4> >(s); break;
   case 17: if (s.coin()) run<ArrAd<int,1> >(s); else run<ArrAd<Half,0> >(s); break;
   case 20: if (s.coin()) run<VectorAd<Nan> >(s); else run<FvAd<Nan>::of<13> >(s); break;
   case 21: if (s.coin()) run<ListAd<Nan> >(s); else run<ArrAd<Nan,4> >(s); break;
   case 22: if (s.coin()) run<ForwardAd<Nan> >(s); else run<BackwardAd<Nan> >(s); break;
   case 18: run<BitsAd<70> >(s); break;
   case 23: case 24: numbers(s); break;
   default: if (s.coin()) run<BitsAd<5> >(s); else run<BitsAd<64> >(s); break;
   }
}
#include "pbt_main.hpp"
