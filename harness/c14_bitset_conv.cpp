// C14: construction of bitsets from integers, strings and bitsets of other sizes.
#include "elems.hpp"
#include "ttl/bitset.hpp"
const char *const pbt_name = "C14";
const char *const pbt_rule =
   "bitsets of 12 sizes made from random integers (unsigned long, unsigned long long), from random strings (digits, other characters in between, lengths around the size, with and without a length argument, "
   "with other digit characters, unterminated if the length is given), and by construction, conversion and assignment from bitsets of all 12 sizes whose unused bits are set; every bit, count, any, none, all and == compared "
   "with the given bits, also after the result was used further; all objects lie in heap blocks of their own under ASan. Non-trivial: the source has set bits which must be dropped, or a string stops early";
const unsigned pbt_quick_cases = 2500000, pbt_thorough_cases = 20000000;
void pbt_reset() {}
using pbt::Src;
typedef std::vector<bool> Bits;

static std::string show(const Bits &x)
{
   std::string t;
   for (size_t i = x.size(); i--;) t += x[i] ? '1' : '0';
   return t;
}

template<size_t N> static void is(const ttl::bitset<N> &k, const Bits &x, const char *what)
{
   size_t n = 0;
   for (size_t i = 0; i < N; ++i)
   {
      CHECK(k.test(i) == x[i], "%s: bit %zu is %d", what, i, k.test(i));
      n += x[i];
   }
   CHECK(k.count() == n, "%s: count() is %zu instead of %zu", what, (size_t)k.count(), n);
   CHECK(k.any() == (n > 0) && k.none() == (n == 0), "%s: any() or none() with %zu bits", what, n);
   if (N) CHECK(k.all() == (n == N), "%s: all() with %zu bits of %zu", what, n, N);
   CHECK(!k.test(N), "%s: test(%zu)", what, N);
   // what unused bits hold must not show through a later operation either
   if constexpr (N > 0)
   {
      ttl::bitset<N> *p = LIB(new ttl::bitset<N>);
      for (size_t i = 0; i < N; ++i) if (x[i]) p->set(i);
      CHECK(*p == k && k == *p && !(k != *p), "%s: differs from a bitset with the same bits", what);
      ttl::bitset<2 * N + 1> wide(k);
      CHECK(wide.count() == n, "%s: %zu bits when widened instead of %zu", what, (size_t)wide.count(), n);
      CHECK((k >> (N - 1)).count() == (size_t)x[N - 1] && (k << (N - 1)).count() == (size_t)x[0], "%s: shifted to one bit", what);
      LIB(delete p, 0);
   }
}

template<size_t N> static void from_integer(Src &s)
{
   unsigned long v = 0;
   switch (s.below(4))
   {
   case 0: v = s.below(256); break;
   case 1: v = (unsigned long)s.below(0xffffffffu) << 32 | s.below(0xffffffffu); break;
   case 2: v = ~0ul >> s.below(64); break;
   default: v = 1ul << s.below(64); break;
   }
   Bits x(N, false);
   for (size_t i = 0; i < N && i < 64; ++i) x[i] = v >> i & 1;
   if (N < 64 && v >> N) s.nontrivial();
   STEP();
   ttl::bitset<N> *b;
   switch (s.below(3))
   {
   case 0:
      TR("bitset<%zu>(%#lxul)\n", N, v);
      b = LIB(new ttl::bitset<N>(v));
      CNT("from unsigned long");
      break;
   case 1:
      TR("bitset<%zu>(%#lxull)\n", N, v);
      b = LIB(new ttl::bitset<N>((unsigned long long)v));
      CNT("from unsigned long long");
      break;
   default:
      TR("bitset<%zu> = %#lxul\n", N, v);
      b = LIB(new ttl::bitset<N>);
      LIB(b->set());
      LIB(*b = v, 0);
      CNT("assigned from unsigned long");
      break;
   }
   is(*b, x, "from an integer");
   const unsigned long low = N < 64 ? N ? v & ((1ul << N % 64) - 1) : 0 : v;
   CHECK(b->to_ulong() == low && b->to_ullong() == low, "to_ulong() is %#lx, to_ullong() is %#llx instead of %#lx", b->to_ulong(), b->to_ullong(), low);
   LIB(delete b, 0);
}

template<size_t N> static void from_string(Src &s)
{
   static const char digits[][2] = { { '0', '1' }, { 'a', 'b' }, { '.', '#' }, { '1', '0' }, { ' ', '0' }, { '-', (char)0xE9 } };
   const unsigned d = s.coin() ? 0 : s.below(6);
   const char zero = digits[d][0], one = digits[d][1];
   size_t len;
   switch (s.below(4))
   {
   case 0: len = s.below(6); break;
   case 1: len = N ? N - 1 + s.below(3) : s.below(3); break;
   case 2: len = 62 + s.below(6); break;
   default: len = s.below(N + 20); break;
   }
   std::string t;
   for (size_t i = 0; i < len; ++i) t += s.coin() ? one : zero;
   bool stops = false;
   if (len && s.below(3) == 0)
   {
      // something which is no digit
      static const char junk[] = "23xX/2 :";
      char j = junk[s.below(sizeof junk - 1)];
      if (j != zero && j != one) { t[s.below(len)] = j; stops = true; }
   }
   const unsigned form = d ? 3 : s.below(4); // how many of the arguments are given
   size_t n = (size_t)-1;
   bool terminated = true;
   if (form)
      switch (s.below(4))
      {
      case 0: n = len; terminated = false; break;
      case 1: n = s.below(len + 1); break;
      case 2: n = len + s.below(10); break;
      default: break;
      }
   // the digits used
   size_t i = 0;
   while (i < n && i < N && i < len && (t[i] == zero || t[i] == one)) ++i;
   Bits x(N, false);
   for (size_t k = 0; k < i; ++k) x[i - 1 - k] = t[k] == one;
   if (stops || len > N) s.nontrivial();
   TR("bitset<%zu>(\"%s\"", N, t.c_str());
   if (form) TR(", %zd", (ssize_t)n);
   if (form > 1) TR(", '%c'", zero);
   if (form > 2) TR(", '%c'", one);
   TR(")%s\n", terminated ? "" : " not terminated");
   STEP();
   char *p = new char[len + terminated + (len + terminated == 0)];
   memcpy(p, t.data(), len);
   if (terminated) p[len] = 0;
   ttl::bitset<N> *b = form == 0 ? LIB(new ttl::bitset<N>(p)) : form == 1 ? LIB(new ttl::bitset<N>(p, n))
      : form == 2 ? LIB(new ttl::bitset<N>(p, n, zero)) : LIB(new ttl::bitset<N>(p, n, zero, one));
   is(*b, x, "from a string");
   LIB(delete b, 0);
   delete [] p;
   CNT("from a string");
   CNT_IF(stops, "from a string with other characters");
   CNT_IF(len > N, "from a string longer than the size");
}

template<size_t N, size_t M> static void convert(Src &s)
{
   ttl::bitset<M> *o = LIB(new ttl::bitset<M>);
   Bits y(M, false);
   const unsigned kind = s.below(6);
   // the unused bits of the source
   const bool dirty = s.coin();
   if (dirty) { LIB(o->set()); if (kind != 5) for (size_t i = 0; i < M; ++i) o->reset(i); }
   else if (kind == 5) for (size_t i = 0; i < M; ++i) o->set(i);
   if (kind == 5) y.assign(M, true);
   else if (M)
      for (unsigned n = kind == 0 ? 0 : kind == 1 ? 1 : s.below(M) + 1; n--;)
      {
         size_t p = s.coin() ? s.below(M) : M - 1 - s.below(M < 4 ? M : 4);
         o->set(p); y[p] = true;
      }
   Bits x(N, false);
   for (size_t i = 0; i < N && i < M; ++i) x[i] = y[i];
   if (std::find(y.begin() + std::min(N, M), y.end(), true) != y.end() || (dirty && M % 64 && M < N)) s.nontrivial();
   STEP();
   const ttl::bitset<M> &k = *o;
   ttl::bitset<N> *b;
   const unsigned how = s.below(3);
   TR("bitset<%zu> %s bitset<%zu> %s%s\n", N, how == 0 ? "constructed from" : how == 1 ? "converted from" : "assigned from", M, show(y).c_str(), dirty ? " with its unused bits set" : "");
   if (how == 0) { b = LIB(new ttl::bitset<N>(k)); CNT("constructed from another size"); }
   else if (how == 1)
   {
      b = LIB(new ttl::bitset<N>);
      ttl::bitset<N> t = k;
      *b = t;
      CNT("converted from another size");
   }
   else
   {
      b = LIB(new ttl::bitset<N>);
      if (s.coin()) LIB(b->set());
      LIB(*b = k, 0);
      CNT("assigned from another size");
   }
   is(*b, x, "from a bitset");
   is(*o, y, "the source bitset");
   if constexpr (M == 0 || N == 0)
      if (N != M)
      {
         // a bitset without bits equals those without set ones
         bool eq = std::find(x.begin(), x.end(), true) == x.end() && std::find(y.begin(), y.end(), true) == y.end();
         CHECK((*b == *o) == eq && (*o == *b) == eq && (*b != *o) == !eq && (*o != *b) == !eq, "== with bitset<0>");
      }
   LIB(delete b, 0); LIB(delete o, 0);
}
template<size_t N> static void with(Src &s)
{
   switch (s.below(4))
   {
   case 0: from_integer<N>(s); return;
   case 1: from_string<N>(s); return;
   }
   switch (s.below(12))
   {
   case 0: convert<N, 1>(s); break;
   case 1: convert<N, 64>(s); break;
   case 2: convert<N, 63>(s); break;
   case 3: convert<N, 65>(s); break;
   case 4: convert<N, 0>(s); break;
   case 5: convert<N, 8>(s); break;
   case 6: convert<N, 32>(s); break;
   case 7: convert<N, 33>(s); break;
   case 8: convert<N, 100>(s); break;
   case 9: convert<N, 128>(s); break;
   case 10: convert<N, 130>(s); break;
   default: convert<N, 250>(s); break;
   }
}
void pbt_property(Src &s)
{
   switch (s.below(12))
   {
   case 0: with<1>(s); break;
   case 1: with<64>(s); break;
   case 2: with<63>(s); break;
   case 3: with<65>(s); break;
   case 4: with<0>(s); break;
   case 5: with<8>(s); break;
   case 6: with<32>(s); break;
   case 7: with<33>(s); break;
   case 8: with<100>(s); break;
   case 9: with<128>(s); break;
   case 10: with<130>(s); break;
   default: with<250>(s); break;
   }
}
#include "pbt_main.hpp"
