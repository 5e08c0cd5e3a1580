// C13: ttl::bitset against a plain array of bits.
#include "elems.hpp"
#include "ttl/bitset.hpp"
const char *const pbt_name = "C13";
const char *const pbt_rule =
   "random histories over two bitsets of one of 16 sizes around the word boundaries (set, reset and flip of all or one bit, also of a position between the size and the capacity, "
   "writes through references, &, |, ^, ~, shifts by anything, their assignments, also with itself as the other operand, copies); every bit and every summary (count, any, none, all, ==, to_ulong, to_ullong) "
   "compared with an array of bools after every step. Non-trivial: the size is not a multiple of the word size, a shift moved a set bit, and bits beyond the size were set through set(), flip() or ~";
const unsigned pbt_quick_cases = 300000, pbt_thorough_cases = 6000000;
void pbt_reset() {}
using pbt::Src;
typedef std::vector<bool> Bits;

template<size_t N>
struct Case
{
   typedef ttl::bitset<N> B;
   B *b[2];
   Bits r[2];
   Src &s;
   bool shifted, dirty; int cur = 0;
   Case(Src &src): s(src), shifted(false), dirty(false) {}
   void full(int w, const char *after)
   {
      B &m = *b[w]; const B &k = m; const Bits &x = r[w];
      size_t n = 0;
      unsigned long low = 0;
      for (size_t i = 0; i < N; ++i)
      {
         bool t = k.test(i);
         CHECK(t == x[i], "after %s: bit %zu of %c is %d instead of %d", after, i, 'a' + w, t, (bool)x[i]);
         n += x[i];
         if (i < 64 && x[i]) low |= 1ul << i;
      }
      if constexpr (N > 0)
      {
         size_t i = s.below(N);
         CHECK(k[i] == x[i] && (bool)m[i] == x[i] && ~m[i] == !x[i], "after %s: [%zu]", after, i);
      }
      size_t out = N + s.below(300);
      CHECK(!k.test(out), "after %s: test(%zu) is true", after, out);
      if constexpr (N > 0) CHECK(!k[out], "after %s: [%zu] const is true", after, out);
      CHECK(k.count() == n, "after %s: count() is %zu instead of %zu", after, (size_t)k.count(), n);
      CHECK(k.any() == (n > 0), "after %s: any() with %zu bits", after, n);
      CHECK(k.none() == (n == 0), "after %s: none() with %zu bits", after, n);
      if (N) CHECK(k.all() == (n == N), "after %s: all() is %d with %zu bits of %zu", after, k.all(), n, N);
      CHECK(k.size() == N && k.capacity() >= N, "after %s: size() or capacity()", after);
      CHECK(k.to_ulong() == low, "after %s: to_ulong() is %#lx instead of %#lx", after, k.to_ulong(), low);
      CHECK(k.to_ullong() == low, "after %s: to_ullong() is %#llx instead of %#lx", after, k.to_ullong(), low);
   }
   void both(const char *after)
   {
      full(cur, after);
      if (s.below(4) == 0) full(1 - cur, after);
      bool eq = r[0] == r[1];
      CHECK((*b[0] == *b[1]) == eq && (*b[1] == *b[0]) == eq && (*b[0] != *b[1]) == !eq, "after %s: == or != of %s bitsets", after, eq ? "equal" : "different");
      CHECK(*b[0] == *b[0] && !(*b[1] != *b[1]), "after %s: a bitset differs from itself", after);
   }
   static Bits shift(const Bits &x, size_t d, bool left)
   {
      Bits y(N, false);
      for (size_t i = 0; i < N; ++i)
         if (x[i])
         {
            if (left && d < N && i + d < N) y[i + d] = true;
            if (!left && i >= d) y[i - d] = true;
         }
      return y;
   }
   static bool any(const Bits &x) { return std::find(x.begin(), x.end(), true) != x.end(); }
   size_t distance()
   {
      switch (s.below(8))
      {
      case 0: return N;
      case 1: return N + s.below(200);
      case 2: return 64 * s.below(5);
      case 3: return (size_t)-1 - s.below(3);
      default: return s.below(N + 2);
      }
   }
   void run()
   {
      b[0] = LIB(new B); b[1] = LIB(new B);
      r[0].assign(N, false); r[1] = r[0];
      TR("bitset<%zu>\n", N);
      both("construction");
      const unsigned len = s.below(4) == 0 ? 60 : 16;
      while (s.more(len))
      {
         int w = cur = s.coin();
         B &m = *b[w]; Bits &x = r[w];
         const bool self = s.below(8) == 0;
         B &o = self ? m : *b[1 - w]; const Bits y = self ? x : r[1 - w];
         const char c = 'a' + w, d = self ? c : 'a' + (1 - w);
         const char *what = "?";
         STEP();
         const size_t cap = m.capacity();
         //                             sa ra fa s1 s1v r1 f1 ref refc rfl & | ^ ~ << >> copy asg rnd
         static const unsigned wt[] = { 2, 1, 3, 5, 5,  3, 5, 4,  3,   2,  4, 4, 4, 4, 5, 5, 2,   2,  4 };
         unsigned op = s.weighted(wt);
         if (N == 0 && op >= 3 && op <= 9) continue;
         const size_t p = N ? (s.below(8) == 0 ? s.below(cap) : s.below(N)) : 0;
         const bool v = s.coin();
         switch (op)
         {
         case 0: TR("%c.set()\n", c); what = "set()"; CHECK(&LIB(m.set()) == &m, "set() returns something else"); x.assign(N, true); dirty = true; CNT("set all"); break;
         case 1: TR("%c.reset()\n", c); what = "reset()"; CHECK(&LIB(m.reset()) == &m, "reset() returns something else"); x.assign(N, false); CNT("reset all"); break;
         case 2: TR("%c.flip()\n", c); what = "flip()"; CHECK(&LIB(m.flip()) == &m, "flip() returns something else"); x.flip(); dirty = true; CNT("flip all"); break;
         case 3: TR("%c.set(%zu)\n", c, p); what = "set(pos)"; LIB(m.set(p)); if (p < N) x[p] = true; CNT("set(pos)"); break;
         case 4: TR("%c.set(%zu, %d)\n", c, p, v); what = "set(pos, value)"; LIB(m.set(p, v)); if (p < N) x[p] = v; CNT("set(pos, value)"); break;
         case 5: TR("%c.reset(%zu)\n", c, p); what = "reset(pos)"; LIB(m.reset(p)); if (p < N) x[p] = false; CNT("reset(pos)"); break;
         case 6: TR("%c.flip(%zu)\n", c, p); what = "flip(pos)"; LIB(m.flip(p)); if (p < N) x[p] = !x[p]; CNT("flip(pos)"); break;
         case 7: TR("%c[%zu] = %d\n", c, p, v); what = "writing a bit"; LIB(m[p] = v, 0); if (p < N) x[p] = v; CNT("reference = bool"); break;
         case 8:
            {
               size_t q = s.below(N + (N == 0));
               TR("%c[%zu] = %c[%zu]\n", c, p, d, q); what = "writing a bit of another one";
               LIB(m[p] = o[q], 0); if (p < N) x[p] = y[q];
               CNT("reference = reference");
               break;
            }
         case 9: TR("%c[%zu].flip()\n", c, p); what = "flipping a bit"; LIB(m[p].flip(), 0); if (p < N) x[p] = !x[p]; CNT("reference.flip"); break;
         case 10:
            what = "&";
            if (v) { TR("%c &= %c\n", c, d); CHECK(&LIB(m &= o) == &m, "&= returns something else"); }
            else { TR("%c = %c & %c\n", c, c, d); LIB(m = m & o, 0); }
            for (size_t i = 0; i < N; ++i) x[i] = x[i] && y[i];
            CNT("&");
            break;
         case 11:
            what = "|";
            if (v) { TR("%c |= %c\n", c, d); CHECK(&LIB(m |= o) == &m, "|= returns something else"); }
            else { TR("%c = %c | %c\n", c, c, d); LIB(m = m | o, 0); }
            for (size_t i = 0; i < N; ++i) x[i] = x[i] || y[i];
            CNT("|");
            break;
         case 12:
            what = "^";
            if (v) { TR("%c ^= %c\n", c, d); CHECK(&LIB(m ^= o) == &m, "^= returns something else"); }
            else { TR("%c = %c ^ %c\n", c, c, d); LIB(m = m ^ o, 0); }
            for (size_t i = 0; i < N; ++i) x[i] = x[i] != y[i];
            CNT("^");
            break;
         case 13: TR("%c = ~%c\n", c, d); what = "~"; LIB(m = ~o, 0); x = y; x.flip(); dirty = true; CNT("~"); break;
         case 14:
         case 15:
            {
               const bool left = op == 14; const size_t n = distance();
               what = left ? "<<" : ">>";
               if (v)
               {
                  TR("%c %s= %zu\n", c, what, n);
                  B &z = left ? LIB(m <<= n) : LIB(m >>= n);
                  CHECK(&z == &m, "%s= returns something else", what);
                  x = shift(x, n, left);
               }
               else
               {
                  TR("%c = %c %s %zu\n", c, d, what, n);
                  LIB(m = left ? o << n : o >> n, 0);
                  x = shift(y, n, left);
               }
               shifted |= any(x) && n;
               if (left) CNT("<<"); else CNT(">>");
               CNT_IF(n >= N, "shift by the size or more");
               break;
            }
         case 16:
            {
               TR("%c = copy of %c\n", c, d); what = "copy construction";
               B *n = LIB(new B(o));
               LIB(delete b[w], 0); b[w] = n; x = y;
               CNT("copy construction");
               break;
            }
         case 17: TR("%c = %c\n", c, d); what = "assignment"; LIB(m = o, 0); x = y; CNT("assignment"); break;
         case 18:
            {
               // a denser pattern in one step
               unsigned period = 1 + s.below(9), phase = s.below(period);
               TR("%c: every bit %u mod %u set\n", c, phase, period); what = "setting bits";
               for (size_t i = phase; i < N; i += period) { m.set(i); x[i] = true; }
               CNT("pattern");
               break;
            }
         }
         both(what);
      }
      LIB(delete b[0], 0); LIB(delete b[1], 0);
      if (N % 64 && shifted && dirty) s.nontrivial();
   }
};
void pbt_property(Src &s)
{
   switch (s.below(16))
   {
   case 0: Case<1>(s).run(); break;
   case 1: Case<64>(s).run(); break;
   case 2: Case<63>(s).run(); break;
   case 3: Case<65>(s).run(); break;
   case 4: Case<0>(s).run(); break;
   case 5: Case<2>(s).run(); break;
   case 6: Case<31>(s).run(); break;
   case 7: Case<32>(s).run(); break;
   case 8: Case<33>(s).run(); break;
   case 9: Case<127>(s).run(); break;
   case 10: Case<128>(s).run(); break;
   case 11: Case<130>(s).run(); break;
   case 12: Case<10>(s).run(); break;
   case 13: Case<192>(s).run(); break;
   case 14: Case<200>(s).run(); break;
   default: Case<257>(s).run(); break;
   }
}
#include "pbt_main.hpp"
