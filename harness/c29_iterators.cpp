// C29: iterators obey the laws of their category in every container.
#include "adapters.hpp"
using namespace pbt;
template<class A> struct Walk
{
   typedef typename A::type C;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   Src &s; C &c;
   std::vector<const void *> addr;
   int n; bool changed; unsigned backs, jumps;
   Walk(Src &src, C &x): s(src), c(x), n(0), backs(0), jumps(0) {}
   // assignment of a value through an iterator
   template<class I> static auto put(I i, int v, int) -> decltype((void)(i->second = typename A::elem(v))) { i->second = typename A::elem(v); }
   template<class I> static auto put(I i, int v, long) -> decltype((void)(*i = typename A::elem(v))) { *i = typename A::elem(v); }
   template<class I> static auto get(I i, int) -> decltype(val(i->second)) { return val(i->second); }
   template<class I> static auto get(I i, long) -> decltype(val(*i)) { return val(*i); }
   static const bool IS_SET = false;
   void write(It i, int p)
   {
      const int v = (int)s.below(24);
      TR("write %d at %d\n", v, p);
      write_(i, p, v, std::integral_constant<bool, std::is_const<typename std::remove_reference<decltype(*i)>::type>::value>());
   }
   void write_(It, int, int, std::true_type) {}
   void write_(It i, int p, int v, std::false_type)
   {
      if (!strcmp(A::name(), "set")) return; // would break the order
      put(i, v, 0);
      const C &k = c;
      CHECK(get(advanced(k.begin(), p), 0) == v && get(advanced(c.cbegin(), p), 0) == v && get(advanced(c.begin(), p), 0) == v && get(i, 0) == v, "%s: the value written at position %d does not show in all views", A::name(), p);
      CNT("write");
   }
   template<class I> static const void *address(I i) { const void *p = &*i, *q = ptr(i); CHECK(p == q, "%s: * and -> denote different elements", A::name()); return p; }
   template<class P> static const void *ptr(P *p) { return p; }
   template<class I> static const void *ptr(const I &i) { return i.operator->(); }
   template<class I> void at(const char *what, I i, int p, I end)
   {
      if (p == n) CHECK(i == end && !(i != end), "%s: after %s the iterator is not at the end", A::name(), what);
      else if (p >= 0) { CHECK(i != end && !(i == end), "%s: after %s the iterator at position %d equals end()", A::name(), what, p); CHECK(address(i) == addr[p], "%s: after %s the iterator is not at the element %d", A::name(), what, p); }
   }
   template<class I> static auto down(I &i, bool post, I &old) -> decltype((void)--i) { if (post) old = i--; else { I &r = --i; CHECK(&r == &i, "%s: -- does not return its operand", A::name()); } }
   static void down(...) {}
   template<class I> void random_access(I *, int, I, I) {}
   template<class T> void jump(T *&i, int &p, T *begin)
   {
      const int q = (int)s.below(n + 1);
      TR("jump from %d to %d\n", p, q);
      switch (s.below(4))
      {
      case 0: i += q - p; break;
      case 1: i = i + (q - p); break;
      case 2: i -= p - q; break;
      default: i = begin + q; break;
      }
      if (q < n) CHECK(&begin[q] == addr[q] && (q == p || (i < begin + p) == (q < p)), "%s: [] or <", A::name());
      p = q; ++jumps;
      CNT("jump");
   }
   template<class I> void jump(I &, int &, I) {}
   template<class X> static auto before(X &c, It &i) -> decltype((void)(i = c.before_begin())) { i = c.before_begin(); }
   static void before(...) {}
   template<class X> static auto cbefore(X &c, CIt &i) -> decltype((void)(i = c.cbefore_begin())) { i = c.cbefore_begin(); }
   static void cbefore(...) {}
   template<class X> static auto has_before(X &c, int) -> decltype((void)c.before_begin(), true) { return true; }
   template<class X> static bool has_before(X &, long) { return false; }
   template<class I> void one(I &i, int &p, I begin, I end, const char *kind)
   {
      STEP();
      I old = i; const int o = p;
      const bool bidi = A::BIDI && p > 0 && s.coin();
      const bool post = s.coin();
      if (bidi)
      {
         TR("%s: %s at %d\n", kind, post ? "i--" : "--i", p);
         down(i, post, old); --p; ++backs;
         CNT("--");
         if (p == n - 1) CNT("-- from the end");
      }
      else
      {
         if (p >= n) return;
         TR("%s: %s at %d\n", kind, post ? "i++" : "++i", p);
         if (post) old = i++; else { I &r = ++i; CHECK(&r == &i, "%s: ++ does not return its operand", A::name()); }
         ++p;
         CNT("++");
      }
      if (post) at("a postfix step (its result)", old, o, end);
      at("a step", i, p, end);
      if (p == 0) CHECK(i == begin, "%s: position 0 is not begin()", A::name());
   }
   void run()
   {
      const C &k = c;
      addr.clear();
      for (CIt i = k.begin(); i != k.end(); ++i) { addr.push_back(&*i); CHECK(addr.size() < 100000, "%s: the traversal does not end", A::name()); }
      n = (int)addr.size();
      for (int a = 0; a < n; ++a) for (int b = 0; b < a; ++b) CHECK(addr[a] != addr[b], "%s: the traversal shows an element twice", A::name());
      CHECK(contents_of<A>(c).size() == (A::KEYED && strcmp(A::name(), "set") ? 2 : 1) * (size_t)n, "%s: length of the traversal", A::name());
      CHECK(c.begin() == k.begin() && k.begin() == c.cbegin() && c.end() == k.end() && k.end() == c.cend() && k.cbegin() == c.cbegin() && k.cend() == c.cend(), "%s: begin/cbegin or end/cend differ", A::name());
      CHECK((c.begin() == c.end()) == (n == 0) && (k.begin() != k.end()) == (n != 0), "%s: begin() against end() with %d elements", A::name(), n);
      It i[2] = { c.begin(), c.end() }; int p[2] = { 0, n };
      CIt j[2] = { k.begin(), k.end() }; int q[2] = { 0, n };
      if (has_before(c, 0))
      {
         if (s.coin()) { before(c, i[0]); p[0] = -1; }
         if (s.coin()) { cbefore(c, j[1]); q[1] = -1; }
      }
      while (s.more(14))
      {
         const unsigned w = s.below(2), v = s.below(2);
         switch (s.below(10))
         {
         case 0: case 1: case 2: one(i[w], p[w], c.begin(), c.end(), "iterator"); break;
         case 3: case 4: case 5: one(j[w], q[w], k.begin(), k.end(), "const_iterator"); break;
         case 6: if (p[w] >= 0) { if (s.coin()) jump(i[w], p[w], c.begin()); else if (q[w] >= 0) jump(j[w], q[w], k.begin()); } break;
         case 7:
            TR("const_iterator from iterator at %d\n", p[w]);
            if (s.coin()) { CIt x(i[w]); at("conversion", x, p[w], k.end()); j[v] = x; }
            else j[v] = i[w];
            q[v] = p[w]; at("conversion", j[v], q[v], k.end());
            CNT("conversion");
            break;
         case 8: { It x(i[w]); i[v] = x; p[v] = p[w]; at("copying", i[v], p[v], c.end()); CIt y(j[w]); j[v] = y; q[v] = q[w]; at("copying", j[v], q[v], k.end()); break; }
         default: if (p[w] >= 0 && p[w] < n) write(i[w], p[w]); break;
         }
         for (unsigned a = 0; a < 2; ++a)
         {
            at("other steps", i[a], p[a], c.end()); at("other steps", j[a], q[a], k.end());
            for (unsigned b = 0; b < 2; ++b)
            {
               CHECK((i[a] == i[b]) == (p[a] == p[b]) && (i[a] != i[b]) == (p[a] != p[b]), "%s: == of iterators at %d and %d", A::name(), p[a], p[b]);
               CHECK((j[a] == j[b]) == (q[a] == q[b]) && (j[a] != j[b]) == (q[a] != q[b]), "%s: == of const_iterators at %d and %d", A::name(), q[a], q[b]);
               CHECK((i[a] == j[b]) == (p[a] == q[b]) && (i[a] != j[b]) == (p[a] != q[b]), "%s: == of an iterator at %d and a const_iterator at %d", A::name(), p[a], q[b]);
               CHECK((j[b] == i[a]) == (p[a] == q[b]) && (j[b] != i[a]) == (p[a] != q[b]), "%s: == of a const_iterator at %d and an iterator at %d", A::name(), q[b], p[a]);
            }
         }
      }
      s.end_span();
   }
};
template<class A> void run(Src &s)
{
   typedef typename A::type C;
   C *c = LIB(new C());
   TR("%s<%s>\n", A::name(), Name<typename A::elem>::s());
   A::build(*c, Ints());
   unsigned backs = 0, jumps = 0; int longest = 0;
   for (unsigned rounds = 1 + s.below(4); rounds--;)
   {
      Ints in; for (unsigned n = s.below(10); n--;) in.push_back((int)s.below(24));
      TR("%s\n", show(in).c_str());
      if (length(*c) < 20) A::build(*c, in);
      for (unsigned n = s.below(6); n--;)
      {
         Op o = draw_op(s, A::KINDS, 24, false);
         A::apply(*c, o, false, true);
         TR("\n");
      }
      Walk<A> w(s, *c);
      w.run();
      backs += w.backs; jumps += w.jumps; longest = std::max(longest, w.n);
   }
   LIB(delete c, 0);
   if (longest >= 3 && (backs >= 2 || !A::BIDI)) s.nontrivial();
}
const char *const pbt_name = "C29";
const char *const pbt_rule =
   "containers of all kinds with random histories; two iterators and two const_iterators are moved by random steps (++ and -- both ways, jumps where offered, conversions, copies) from begin, end and before_begin "
   "and must be at the element and compare as their positions say after every step; values are written through them. Non-trivial: at least three elements, and steps backwards where the category has them";
const unsigned pbt_quick_cases = 1000000, pbt_thorough_cases = 12000000;
void pbt_reset() {}
void pbt_property(Src &s)
{
   switch (s.below(18))
   {
   case 0: run<VectorAd<Val> >(s); break;
   case 1: run<FvAd<Val>::of<4> >(s); break;
   case 2: run<FvAd<Big>::of<13> >(s); break;
   case 3: case 4: run<ListAd<Val> >(s); break;
   case 5: case 6: run<ForwardAd<Val> >(s); break;
   case 7: case 8: run<BackwardAd<Val> >(s); break;
   case 9: case 10: run<LazyAd<Val> >(s); break;
   case 11: case 12: run<TtlMapAd<Val> >(s); break;
   case 13: case 14: run<TtlSetAd<Val> >(s); break;
   case 15: run<SvMapAd<Val> >(s); break;
   case 16: run<VMapAd<Val> >(s); break;
   default: if (s.coin()) run<ArrAd<Big,6> >(s); else run<ArrAd<int,0> >(s); break;
   }
}
#include "pbt_main.hpp"
