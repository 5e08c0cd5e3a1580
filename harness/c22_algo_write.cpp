// C22: the modifying algorithms against those of the standard library.
#include "algo.hpp"
const char *const pbt_name = "C22";
const char *const pbt_rule =
   "random ranges of up to 40 elements (keys from universes of 1..6) and every modifying algorithm, over write-once output iterators, checked iterators of the weakest category the standard asks for "
   "and pointers into exactly sized blocks; destinations apart from the source, overlapping it where the standard permits, or the source itself; contents of every block, returned positions and numbers "
   "of calls compared with the standard's. Non-trivial: at least 2 elements";
const unsigned pbt_quick_cases = 3000000, pbt_thorough_cases = 40000000;
void pbt_reset() {}

// write only: every position once, one after the other
template<typename T> struct Out
{
   T *p; Range<T> *r;
   struct Ref
   {
      T *p; Range<T> *r;
      template<typename U> void operator=(const U &v) const
      {
         CHECK(p >= r->lo && p < r->hi, "position %zd of %s is written, which has %zd", (ssize_t)(p - r->lo), r->name, (ssize_t)(r->hi - r->lo));
         CHECK(p == r->lo + r->gen, "position %zd of %s is written instead of %u", (ssize_t)(p - r->lo), r->name, r->gen);
         ++r->gen;
         *p = v;
      }
   };
   Ref operator*() const { Ref x = { p, r }; return x; }
   Out &operator++() { CHECK(p < r->hi, "the output iterator leaves %s", r->name); ++p; return *this; }
   Out operator++(int) { Out o(*this); ++*this; return o; }
};
template<typename T, bool CHK> struct To: Over<T,true>
{
   To(T *lo, T *hi): Over<T,true>(lo, hi, "the destination") {}
   Out<T> out() { Out<T> o = { this->r.lo, &this->r }; return o; }
   size_t pos(const Out<T> &o) const { return o.p - this->r.lo; }
};
template<typename T> struct To<T,false>
{
   T *lo;
   To(T *l, T *) : lo(l) {}
   T *out() { return lo; }
   size_t pos(T *p) const { return p - lo; }
};

template<typename T> struct Gen { int *n; T operator()() { return T((*n)++ * 7 % 11); } };
template<typename T> struct Twice { Calls *c; T operator()(const T &a) const { ++c->n; return T(key_of(a) % 100000 * 2 + 1); } };
template<typename T> struct Minus { Calls *c; T operator()(const T &a, const T &b) const { ++c->n; return T(key_of(a) % 100000 * 10 - key_of(b) % 100000); } };
struct Odder { int operator()(short a) const { return a * 50000; } };

template<typename T, bool CHK> struct Write
{
   Src &s;
   Write(Src &src): s(src) {}
   void compare(const Buf<T> &b, const std::vector<T> &want, const char *what, size_t from = 0, size_t to = (size_t)-1)
   {
      std::vector<T> g = b.now();
      for (size_t i = from; i < std::min(to, g.size()); ++i)
         CHECK(same(g[i], want[i]), "%s leaves %s instead of %s", what, show(g).c_str(), show(want).c_str());
   }
#define IS(what, got, want) CHECK((size_t)(got) == (size_t)(want), "%s returns position %zu instead of %zu", what, (size_t)(got), (size_t)(want))
#define CALLED(what, want) CHECK(c.n == (size_t)(want), "%s calls its function %zu times instead of %zu", what, c.n, (size_t)(want))
   void run()
   {
      const unsigned U = s.below(16) == 1 ? 100 : 1 + s.below(6);
      std::vector<T> x = some<T>(s, U), y = some<T>(s, U);
      bool big = false;
      unsigned nops = 0;
      while (s.more(8) && nops++ < 40)
      {
         const size_t n = x.size();
         big |= n > 1;
         Calls c, d;
         Unary<T> p; p.c = &c; p.m = s.range(1, 3); p.r = s.below(p.m);
         Unary<T> q = p; q.c = &d;
         const T k((int)s.below(U + 1)), v(50 + (int)s.below(U));
         STEP();
         TR("x = %s%s\n", show(x).c_str(), CHK ? "" : " (pointers)");
         Buf<T> bx(x);
         // a source of its own, for the algorithms with a destination
         typedef const T CT;
         Over<CT,CHK> X(bx.lo(), bx.hi(), "the source");
         Over<T,CHK> M(bx.lo(), bx.hi(), "the range");
#define XB(c) X.template begin<c>()
#define XE(c) X.template end<c>()
#define MB(c) M.template begin<c>()
#define ME(c) M.template end<c>()
         // the result, for the ones which write elsewhere
         std::vector<T> want;
#define APART(name, call) do { Buf<T> bd_(std::vector<T>(want.size(), T(-5))); To<T,CHK> D(bd_.lo(), bd_.hi()); TR(name "\n"); size_t r_ = D.pos(call); IS(name, r_, want.size()); \
         compare(bd_, want, name); compare(bx, x, name " (its source)"); CNT(name); } while (0)
         switch (s.below(30))
         {
         case 0: want = x; APART("copy", ttl::copy(XB(INPUT), XE(INPUT), D.out())); break;
         case 1: { const int m = s.range(-1, (int)n); int is; with_count(s, m, false, is, [&](auto count) { want.assign(x.begin(), x.begin() + (count > 0 ? (size_t)count : 0)); APART("copy_n", ttl::copy_n(XB(INPUT), count, D.out())); return 0; }); break; }
         case 2: std::copy_if(x.begin(), x.end(), std::back_inserter(want), q); APART("copy_if", ttl::copy_if(XB(INPUT), XE(INPUT), D.out(), p)); CALLED("copy_if", n); break;
         case 3: { std::vector<T> old(want); std::remove_copy(x.begin(), x.end(), std::back_inserter(want), k); APART("remove_copy", ttl::remove_copy(XB(INPUT), XE(INPUT), D.out(), k)); break; }
         case 4: std::remove_copy_if(x.begin(), x.end(), std::back_inserter(want), q); APART("remove_copy_if", ttl::remove_copy_if(XB(INPUT), XE(INPUT), D.out(), p)); CALLED("remove_copy_if", n); break;
         case 5: want = x; std::replace(want.begin(), want.end(), k, v); APART("replace_copy", ttl::replace_copy(XB(INPUT), XE(INPUT), D.out(), k, v)); break;
         case 6: want = x; std::replace_if(want.begin(), want.end(), q, v); APART("replace_copy_if", ttl::replace_copy_if(XB(INPUT), XE(INPUT), D.out(), p, v)); CALLED("replace_copy_if", n); break;
         case 7: { Twice<T> f = { &c }, g = { &d }; want = x; std::transform(want.begin(), want.end(), want.begin(), g); APART("transform", ttl::transform(XB(INPUT), XE(INPUT), D.out(), f)); CALLED("transform", n); break; }
         case 8:
            {
               std::vector<T> z = y; z.resize(n, T(3));
               Buf<T> bz(z); Over<CT,CHK> Z(bz.lo(), bz.hi(), "the second source");
               Minus<T> f = { &c }, g = { &d };
               want = x; std::transform(x.begin(), x.end(), z.begin(), want.begin(), g);
               APART("transform of two ranges", ttl::transform(XB(INPUT), XE(INPUT), Z.template begin<INPUT>(), D.out(), f));
               compare(bz, z, "transform (its second source)");
               CALLED("transform of two ranges", n);
               break;
            }
         case 9: want.assign(x.rbegin(), x.rend()); APART("reverse_copy", ttl::reverse_copy(XB(BIDIR), XE(BIDIR), D.out())); break;
         case 10: { const int m = s.range(-1, 9); int is; with_count(s, m, false, is, [&](auto count) { want.assign(count > 0 ? (size_t)count : 0, v); APART("fill_n", ttl::fill_n(D.out(), count, v)); return 0; }); break; }
         case 11: { const int m = s.range(-1, 9); int i = 0, j = 0, is; Gen<T> g = { &i }, h = { &j }; with_count(s, m, false, is, [&](auto count) { const int c_ = count > 0 ? (int)count : 0; for (int a = 0; a < c_; ++a) want.push_back(h()); APART("generate_n", ttl::generate_n(D.out(), count, g)); CHECK(i == c_, "generate_n calls its function %d times", i); return 0; }); break; }
         case 12: case 13: // into the same block, downwards
            {
               size_t a = s.below(n + 1), b = a + s.below(n - a + 1), t = a ? s.below(a) : 0;
               if (!a) break;
               const bool cn = s.coin(), from_const = s.coin();
               TR("%s of [%zu, %zu) to %zu\n", cn ? "copy_n" : "copy", a, b, t);
               size_t r = from_const ?
                     (cn ? M.pos(ttl::copy_n(X.template at<FORWARD>(a), b - a, M.template at<FORWARD>(t)))
                         : M.pos(ttl::copy(X.template at<FORWARD>(a), X.template at<FORWARD>(b), M.template at<FORWARD>(t)))) :
                     cn ? M.pos(ttl::copy_n(M.template at<FORWARD>(a), b - a, M.template at<FORWARD>(t)))
                             : M.pos(ttl::copy(M.template at<FORWARD>(a), M.template at<FORWARD>(b), M.template at<FORWARD>(t)));
               want = x; std::copy(x.begin() + a, x.begin() + b, want.begin() + t);
               IS("copy", r, t + (b - a));
               compare(bx, want, "copy downwards");
               x = want;
               CNT("copy downwards");
               CNT_IF(t + (b - a) > a, "copy downwards, overlapping");
               break;
            }
         case 14: case 15: // into the same block, upwards; or apart
            {
               size_t a = s.below(n + 1), b = a + s.below(n - a + 1), t = b + s.below(n - b + 1);
               TR("copy_backward of [%zu, %zu) to the end at %zu\n", a, b, t);
               size_t r = s.coin() ? M.pos(ttl::copy_backward(X.template at<BIDIR>(a), X.template at<BIDIR>(b), M.template at<BIDIR>(t)))
                                   : M.pos(ttl::copy_backward(M.template at<BIDIR>(a), M.template at<BIDIR>(b), M.template at<BIDIR>(t)));
               want = x;
               for (size_t i = 0; i < b - a; ++i) want[t - (b - a) + i] = x[a + i];
               IS("copy_backward", r, t - (b - a));
               compare(bx, want, "copy_backward");
               x = want;
               CNT("copy_backward");
               CNT_IF(t > b && t - b < b - a, "copy_backward, overlapping");
               break;
            }
         case 16: TR("fill\n"); ttl::fill(MB(FORWARD), ME(FORWARD), v); x.assign(n, v); compare(bx, x, "fill"); CNT("fill"); break;
         case 17: { int i = 0, j = 0; Gen<T> g = { &i }, h = { &j }; TR("generate\n"); ttl::generate(MB(FORWARD), ME(FORWARD), g); std::generate(x.begin(), x.end(), h); compare(bx, x, "generate"); CHECK(i == (int)n, "generate calls its function %d times", i); CNT("generate"); break; }
         case 18: TR("replace %d\n", key_of(k)); ttl::replace(MB(FORWARD), ME(FORWARD), k, v); std::replace(x.begin(), x.end(), k, v); compare(bx, x, "replace"); CNT("replace"); break;
         case 19: TR("replace_if %d mod %d\n", p.r, p.m); ttl::replace_if(MB(FORWARD), ME(FORWARD), p, v); std::replace_if(x.begin(), x.end(), q, v); compare(bx, x, "replace_if"); CALLED("replace_if", n); CNT("replace_if"); break;
         case 20: case 21:
            {
               size_t r;
               const bool pred = s.coin();
               want = x;
               if (pred)
               {
                  TR("remove_if %d mod %d\n", p.r, p.m);
                  r = M.pos(ttl::remove_if(MB(FORWARD), ME(FORWARD), p));
                  want.erase(std::remove_if(want.begin(), want.end(), q), want.end());
                  CALLED("remove_if", n);
               }
               else
               {
                  TR("remove %d\n", key_of(k));
                  r = M.pos(ttl::remove(MB(FORWARD), ME(FORWARD), k));
                  want.erase(std::remove(want.begin(), want.end(), k), want.end());
               }
               IS("remove", r, want.size());
               compare(bx, want, "remove", 0, want.size());
               CNT_IF(want.size() < n, "remove of something");
               if (pred) CNT("remove_if"); else CNT("remove");
               x = want;
               break;
            }
         case 22: TR("reverse\n"); ttl::reverse(MB(BIDIR), ME(BIDIR)); std::reverse(x.begin(), x.end()); compare(bx, x, "reverse"); CNT("reverse"); break;
         case 23:
            {
               Buf<T> by(y);
               Over<T,CHK> Y(by.lo(), by.hi(), "the second range");
               size_t m = s.below(std::min(n, y.size()) + 1);
               TR("swap_ranges of %zu with %s\n", m, show(y).c_str());
               size_t r = Y.pos(ttl::swap_ranges(MB(FORWARD), M.template at<FORWARD>(m), Y.template begin<FORWARD>()));
               IS("swap_ranges", r, m);
               std::swap_ranges(x.begin(), x.begin() + m, y.begin());
               compare(bx, x, "swap_ranges"); compare(by, y, "swap_ranges (the second range)");
               CNT("swap_ranges");
               break;
            }
         case 24:
            if (n)
            {
               size_t a = s.below(n), b = s.below(n);
               TR("iter_swap %zu %zu\n", a, b);
               ttl::iter_swap(M.template at<FORWARD>(a), M.template at<FORWARD>(b));
               std::swap(x[a], x[b]);
               compare(bx, x, "iter_swap");
               CNT("iter_swap");
            }
            break;
         case 25: // in place
            {
               Twice<T> f = { &c }, g = { &d };
               TR("transform in place\n");
               size_t r = M.pos(ttl::transform(MB(FORWARD), ME(FORWARD), MB(FORWARD), f));
               IS("transform", r, n);
               std::transform(x.begin(), x.end(), x.begin(), g);
               compare(bx, x, "transform in place"); CALLED("transform", n);
               CNT("transform in place");
               break;
            }
         case 26: // in place of the second one
            {
               Minus<T> f = { &c }, g = { &d };
               std::vector<T> z = y; z.resize(n, T(3));
               Buf<T> bz(z); Over<T,CHK> Z(bz.lo(), bz.hi(), "the second range");
               const bool second = s.coin();
               TR("transform of two in place of the %s\n", second ? "second" : "first");
               if (second)
               {
                  size_t r = Z.pos(ttl::transform(MB(FORWARD), ME(FORWARD), Z.template begin<FORWARD>(), Z.template begin<FORWARD>(), f));
                  IS("transform", r, n);
                  std::transform(x.begin(), x.end(), z.begin(), z.begin(), g);
               }
               else
               {
                  size_t r = M.pos(ttl::transform(MB(FORWARD), ME(FORWARD), Z.template begin<FORWARD>(), MB(FORWARD), f));
                  IS("transform", r, n);
                  std::transform(x.begin(), x.end(), z.begin(), x.begin(), g);
               }
               compare(bx, x, "transform in place"); compare(bz, z, "transform in place"); CALLED("transform", n);
               CNT("transform of two in place");
               break;
            }
         case 27:
            {
               int start = s.range(-5, 5);
               TR("iota %d\n", start);
               ttl::iota(MB(FORWARD), ME(FORWARD), start);
               for (size_t i = 0; i < n; ++i) x[i] = T(start + (int)i);
               compare(bx, x, "iota");
               CNT("iota");
               break;
            }
         case 28: // a destination of another type
            {
               TR("to another type\n");
               std::vector<short> a; for (size_t i = 0; i < n; ++i) a.push_back((short)(key_of(x[i]) - 2));
               Buf<short> ba(a); Buf<int> bi(std::vector<int>(n, -1));
               Over<const short,CHK> A(ba.lo(), ba.hi(), "the source"); To<int,CHK> D(bi.lo(), bi.hi());
               const unsigned op = s.below(3);
               size_t r = op == 0 ? D.pos(ttl::copy(A.template begin<INPUT>(), A.template end<INPUT>(), D.out())) :
                  op == 1 ? D.pos(ttl::copy_n(A.template begin<INPUT>(), n, D.out())) :
                  D.pos(ttl::transform(A.template begin<INPUT>(), A.template end<INPUT>(), D.out(), Odder()));
               IS("copy to another type", r, n);
               for (size_t i = 0; i < n; ++i) CHECK(bi.lo()[i] == (op == 2 ? a[i] * 50000 : a[i]), "copy or transform to another type");
               CNT("to another type");
               break;
            }
         default: // new contents
            x = some<T>(s, U); if (s.coin()) x.swap(y);
            break;
         }
      }
      if (big && nops > 1) s.nontrivial();
   }
};

void pbt_property(Src &s)
{
   if (s.below(5) == 1)
      switch (s.below(6))
      {
      case 0: Write<char,false>(s).run(); return;
      case 1: Write<unsigned char,false>(s).run(); return;
      case 2: Write<unsigned short,false>(s).run(); return;
      case 3: Write<unsigned,false>(s).run(); return;
      case 4: Write<long,false>(s).run(); return;
      default: Write<float,false>(s).run(); return;
      }
   switch (s.below(6))
   {
   case 0: case 1: Write<Tag,true>(s).run(); break;
   case 2: Write<int,true>(s).run(); break;
   case 3: Write<signed char,false>(s).run(); break;
   case 4: Write<double,false>(s).run(); break;
   default: Write<int,false>(s).run(); break;
   }
}
#include "pbt_main.hpp"
