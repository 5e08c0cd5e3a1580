// C31: element types of every size and alignment.  The history runs on a
// container of them, placed at any address its own alignment allows, and on
// one of a plain element type.
#ifndef PART
#define PART -1
#endif
#include "elems.hpp"
using namespace pbt;
#define IN_PART(n) (PART == (n) || PART == -1)
inline void aligned_at(const void *p, size_t a, const char *what)
{
   void *volatile q = (void *)p; // the compiler takes the alignment for granted
   CHECK((uintptr_t)q % a == 0, "an element aligned to %zu bytes is %s at an address which is %zu beyond a multiple of it", a, what, (size_t)((uintptr_t)q % a));
}
// S bytes aligned to A; a value of -128 .. 127, repeated over all of them
template<size_t A, size_t S> struct alignas(A) Al
{
   unsigned char b[S];
   void put(int x) { for (size_t i = 0; i < S; ++i) b[i] = (unsigned char)(x + 37 * i); }
   int get() const
   {
      aligned_at(this, A, "read");
      for (size_t i = 0; i < S; ++i) if (b[i] != (unsigned char)(b[0] + 37 * i)) return DEAD_VALUE;
      return (signed char)b[0];
   }
   Al() { aligned_at(this, A, "constructed"); put(0); }
   Al(int x) { aligned_at(this, A, "constructed"); put(x); }
   Al(const Al &o) { aligned_at(this, A, "constructed"); put(o.get()); }
   Al &operator=(const Al &o) { aligned_at(this, A, "assigned"); put(o.get()); return *this; }
   ~Al() { aligned_at(this, A, "destroyed"); *(volatile unsigned char *)b = 0x66; if (S > 1) *(volatile unsigned char *)(b + S - 1) = 0x33; }
   bool operator==(const Al &o) const { return get() == o.get(); }
   bool operator!=(const Al &o) const { return get() != o.get(); }
   bool operator<(const Al &o) const { return get() < o.get(); }
   bool operator>(const Al &o) const { return get() > o.get(); }
};
template<size_t A, size_t S> inline int val(const Al<A,S> &x) { return x.get(); }
inline int val(const long double &x) { aligned_at(&x, alignof(long double), "read"); return (int)x; }
inline int val(const double &x) { aligned_at(&x, alignof(double), "read"); return (int)x; }
inline int val(const short &x) { aligned_at(&x, alignof(short), "read"); return x; }
inline int val(const signed char &x) { return x; }
template<size_t A, size_t S> struct Name<Al<A,S> > { static const char *s() { static char b[32]; snprintf(b, sizeof b, "%zu bytes aligned %zu", S, A); return b; } };
template<> struct Name<long double> { static const char *s() { return "long double"; } };
template<> struct Name<double> { static const char *s() { return "double"; } };
template<> struct Name<short> { static const char *s() { return "short"; } };
template<> struct Name<signed char> { static const char *s() { return "signed char"; } };

#include "adapters.hpp"
// X of the type in question, Y of int
template<class X, class Y> struct Case
{
   typedef typename X::type C; typedef typename Y::type D;
   enum { SLOTS = 2, AREA = sizeof(C) + 128 };
   Src &s;
   alignas(64) unsigned char area[SLOTS][(AREA + 63) / 64 * 64];
   unsigned char *place[SLOTS]; C *c[SLOTS]; D *d[SLOTS];
   unsigned changes;
   Case(Src &src): s(src), changes(0) {}
   void room(int i)
   {
      const unsigned k = s.below(64 / alignof(C) < 1 ? 1 : 64 / alignof(C));
      memset(area[i], 0x5C, sizeof area[i]);
      place[i] = area[i] + k * alignof(C);
      if (k % 2) CNT("container at an address aligned no better than it asks for");
      TR("%c at an address %u beyond a multiple of 64\n", 'a' + i, (unsigned)(k * alignof(C)));
   }
   void guards(int i)
   {
      for (unsigned char *p = area[i]; p < area[i] + sizeof area[i]; ++p)
         if (p < place[i] || p >= place[i] + sizeof(C)) CHECK(*p == 0x5C, "%s wrote outside of its object", X::name());
   }
   Ints agree(int i, const char *after)
   {
      const Ints y = observe<Y>(*d[i]), x = observe<X>(*c[i]);
      CHECK(x == y, "%s of %s: after %s %c reads %s, with int elements %s", X::name(), Name<typename X::elem>::s(), after, 'a' + i, show(x).c_str(), show(y).c_str());
      guards(i);
      return y;
   }
   void run()
   {
      TR("%s of %s (size %zu, alignment %zu), sizeof %zu\n", X::name(), Name<typename X::elem>::s(), sizeof(typename X::elem), alignof(typename X::elem), sizeof(C));
      Ints last[SLOTS];
      for (int i = 0; i < SLOTS; ++i)
      {
         room(i);
         c[i] = new(place[i]) C(); d[i] = new D();
         Ints in; if (s.coin()) for (unsigned n = s.below(9); n--;) in.push_back((int)s.below(24));
         TR("%s\n", show(in).c_str());
         LIB(Y::build(*d[i], in), 0); LIB(X::build(*c[i], in), 0);
         last[i] = agree(i, "filling");
      }
      const unsigned len = s.below(4) ? 12 : 40;
      while (s.more(len))
      {
         const int i = s.below(SLOTS);
         if (s.below(8) == 7) extra(i);
         else
         {
            Op o = draw_op(s, X::KINDS, 24, true);
            TR("%c.", 'a' + i);
            const int q = Y::apply(*d[i], o, false, true), r = X::apply(*c[i], o, false, false);
            TR("\n");
            if (!is_applied(q) && !is_applied(r)) continue;
            CHECK(q == r, "%s of %s: the operation on %c returned %d, with int elements %d", X::name(), Name<typename X::elem>::s(), 'a' + i, r, q);
         }
         STEP();
         for (int j = 0; j < SLOTS; ++j) { Ints y = agree(j, "an operation"); if (y != last[j]) ++changes; last[j] = y; }
      }
      for (int i = 0; i < SLOTS; ++i) { c[i]->~C(); guards(i); delete d[i]; }
      if (changes >= 3) s.nontrivial();
   }
   template<class A, int = A::ASSIGN> struct Assign { static void to(typename A::type &x, typename A::type &y) { LIB(x = y, 0); } };
   template<class A> struct Assign<A,0> { static void to(typename A::type &, typename A::type &) {} };
   template<class A, int = A::SWAP> struct Swap { static void of(typename A::type &x, typename A::type &y) { LIB(x.swap(y), 0); } };
   template<class A> struct Swap<A,0> { static void of(typename A::type &, typename A::type &) {} };
   void extra(int i)
   {
      switch (s.below(3))
      {
      case 0: // a copy takes the place
         TR("%c is replaced by a copy of itself\n", 'a' + i);
         {
            C *t = LIB(new C(*c[i])); c[i]->~C(); room(i); c[i] = LIB(new(place[i]) C(*t)); LIB(delete t, 0);
            D *u = LIB(new D(*d[i])); LIB(delete d[i], 0); d[i] = u;
            CNT("copy");
         }
         break;
      case 1:
         TR("%c = %c\n", 'a' + i, 'b' - i);
         Assign<X>::to(*c[i], *c[1 - i]); Assign<Y>::to(*d[i], *d[1 - i]);
         break;
      default:
         TR("%c.swap(%c)\n", 'a' + i, 'b' - i);
         Swap<X>::of(*c[i], *c[1 - i]); Swap<Y>::of(*d[i], *d[1 - i]);
         break;
      }
   }
};
template<class T> void kinds(Src &s)
{
   CNT_IF(alignof(T) > alignof(void *), "element type aligned more than a pointer");
   CNT_IF(alignof(T) < alignof(void *), "element type aligned less than a pointer");
   CNT_IF(alignof(T) == alignof(void *), "element type aligned as a pointer");
   switch (s.below(16))
   {
   case 0: case 1: Case<VectorAd<T>, VectorAd<int> >(s).run(); break;
   case 2: Case<typename FvAd<T>::template of<1>, FvAd<int>::of<1> >(s).run(); break;
   case 3: Case<typename FvAd<T>::template of<5>, FvAd<int>::of<5> >(s).run(); break;
   case 4: Case<typename FvAd<T>::template of<16>, FvAd<int>::of<16> >(s).run(); break;
   case 5: case 6: Case<ListAd<T>, ListAd<int> >(s).run(); break;
   case 7: Case<ForwardAd<T>, ForwardAd<int> >(s).run(); break;
   case 8: Case<BackwardAd<T>, BackwardAd<int> >(s).run(); break;
   case 9: Case<LazyAd<T>, LazyAd<int> >(s).run(); break;
   case 10: Case<ArrAd<T,5>, ArrAd<int,5> >(s).run(); break;
   case 11: Case<TtlMapAd<T>, TtlMapAd<int> >(s).run(); break;
   case 12: Case<TtlSetAd<T>, TtlSetAd<int> >(s).run(); break;
   case 13: Case<SvMapAd<T>, SvMapAd<int> >(s).run(); break;
   default: Case<VMapAd<T>, VMapAd<int> >(s).run(); break;
   }
}
void part0(Src &), part1(Src &), part2(Src &), part3(Src &), part4(Src &), part5(Src &), part6(Src &), part7(Src &);
#define PART_OF(n, T, U) void part##n(Src &s) { if (s.coin()) kinds<T >(s); else kinds<U >(s); }
#if IN_PART(0)
typedef Al<1,1> A1; PART_OF(0, long double, A1)
#endif
#if IN_PART(1)
typedef Al<16,16> A2; typedef Al<1,3> A3; PART_OF(1, A2, A3)
#endif
#if IN_PART(2)
typedef Al<16,48> A4; typedef Al<2,2> A5; PART_OF(2, A4, A5)
#endif
#if IN_PART(3)
typedef Al<8,24> A6; typedef Al<2,6> A7; PART_OF(3, A6, A7)
#endif
#if IN_PART(4)
typedef Al<4,4> A8; typedef Al<1,17> A9; PART_OF(4, A8, A9)
#endif
#if IN_PART(5)
typedef Al<4,12> A10; PART_OF(5, A10, short)
#endif
#if IN_PART(6)
typedef Al<1,200> A11; PART_OF(6, A11, double)
#endif
#if IN_PART(7)
typedef Al<8,8> A12; PART_OF(7, A12, signed char)
#endif
#if IN_PART(0)
const char *const pbt_name = "C31";
const char *const pbt_rule =
   "random histories of two containers of one kind with elements of one of 16 types of sizes 1 to 200 and alignments 1 to 16, the containers placed at every address which their own alignment allows, "
   "together with two of int elements; every object of the element type must lie at an address of its alignment whenever it is constructed, read, assigned or destroyed, everything which can be read must be "
   "that of the containers of int, and nothing may be written around the containers. Non-trivial: at least three operations which changed the contents";
const unsigned pbt_quick_cases = 400000, pbt_thorough_cases = 12000000;
void pbt_reset() {}
void pbt_property(Src &s)
{
   switch (s.below(8))
   {
   case 0: part0(s); break; case 1: part1(s); break; case 2: part2(s); break; case 3: part3(s); break;
   case 4: part4(s); break; case 5: part5(s); break; case 6: part6(s); break; default: part7(s); break;
   }
}
#include "pbt_main.hpp"
#endif
