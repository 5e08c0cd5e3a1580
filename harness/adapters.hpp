// One face for all containers: operations drawn once and applied to several
// containers, and everything which can be read from one as a list of numbers.
// Used where containers are compared with each other and not with a model.
#ifndef ADAPTERS_HPP
#define ADAPTERS_HPP
#include "elems.hpp"
#include "ttl/types.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/vector.hpp"
#include "ttl/fixed_vector.hpp"
#include "ttl/list.hpp"
#include "ttl/forward_list.hpp"
#include "ttl/backward_list.hpp"
#include "ttl/lazy_queue.hpp"
#include "ttl/map.hpp"
#include "ttl/set.hpp"
#include "ttl/sorted_vector_map.hpp"
#include "ttl/vector_map.hpp"
#include "ttl/array.hpp"
#include "ttl/bitset.hpp"
using pbt::Src;

struct Op
{
   unsigned kind;      // reduced by the container
   uint32_t a, b;      // positions, counts; reduced by the container
   int v;
   Ints xs;
   bool al; uint32_t i; // the value is that of the element i of the container
};
inline Op draw_op(Src &s, unsigned kinds, int values, bool aliases)
{
   Op o;
   o.kind = s.below(kinds); o.a = s.below(48); o.b = s.below(48); o.v = (int)s.below(values);
   for (unsigned n = s.below(6); n--;) o.xs.push_back((int)s.below(values));
   o.al = aliases && s.below(4) != 0; o.i = o.al ? s.below(48) : 0;
   return o;
}
enum { NOT_APPLIED = -1000, LARGE = 40 };
inline bool is_applied(int r) { return r != NOT_APPLIED; }

// the value argument of an operation
template<typename T> struct Arg
{
   T own; const T *p;
   Arg(const Op &o, const T *elem, bool alias): own(o.al && elem ? T(*elem) : T(o.v)), p(o.al && elem && alias ? elem : &own) {}
   operator const T &() const { return *p; }
};
template<typename T> int val(const Arg<T> &a) { return val((const T &)a); }
template<typename It> It advanced(It i, size_t n) { while (n--) ++i; return i; }
template<typename C> size_t length(const C &c)
{
   size_t n = 0;
   for (typename C::const_iterator i = c.begin(); i != c.end(); ++i)
      if (++n > 100000) pbt::fail("the traversal of a container does not end");
   return n;
}
template<typename C, typename I> int index_of(C &c, I i)
{
   int n = 0;
   for (typename C::iterator j = c.begin(); ; ++j, ++n)
   {
      if (j == i) return n;
      if (j == c.end()) return -2;
   }
}
#define OPTR(...) do { if (tr) TR(__VA_ARGS__); } while (0)

// ------------------------------------------------------------- sequences
template<class C, class T, bool FIXED>
struct VecAd
{
   typedef C type; typedef T elem;
   enum { KINDS = 13, SWAP = 1, EQ = 1, RANGE = 1, ASSIGN = 1, BIDI = 1, KEYED = 0 };
   static const char *name() { return FIXED ? "fixed_vector" : "vector"; }
   static void contents(const C &c, Ints &d) { for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) d.push_back(val(*i)); }
   static void build(C &c, const Ints &x) { for (size_t i = 0; i < x.size(); ++i) c.push_back(T(x[i])); }
   static C *range(const C &c) { return new C(c.begin(), c.end()); }
   static void obs(C &c, Ints &d)
   {
      const C &k = c;
      contents(c, d);
      const size_t n = d.size();
      d.push_back(-7001); d.push_back((int)k.size()); d.push_back(k.empty()); d.push_back((int)(c.end() - c.begin())); d.push_back(k.capacity() >= n);
      if (!n) return;
      for (size_t i = 0; i < n; ++i) { d.push_back(val(k[i])); d.push_back(val(c.at(i))); }
      d.push_back(val(k.front())); d.push_back(val(c.back())); d.push_back(val(*(c.end() - 1)));
      d.push_back(val(*k.data()));
   }
   static int apply(C &c, const Op &o, bool alias, bool tr)
   {
      const size_t n = c.size(), p = o.a % (n + 1), q = n ? o.a % n : 0;
      Arg<T> x(o, n ? &c[o.i % n] : 0, alias);
      if (n > LARGE && o.kind < 6) return NOT_APPLIED;
      switch (o.kind)
      {
      case 0: case 1: OPTR("push_back(%d)", val(x)); LIB(c.push_back(x), 0); return 0;
      case 2: OPTR("insert(%zu, %d)", p, val(x)); return LIB(c.insert(c.cbegin() + p, x)) - c.begin();
      case 3: OPTR("insert(%zu, %d, %d)", p, (int)o.b % 5, val(x)); return LIB(c.insert(c.cbegin() + p, (size_t)(o.b % 5), x)) - c.begin();
      case 4: OPTR("insert(%zu, %s)", p, show(o.xs).c_str()); return LIB(c.insert(c.cbegin() + p, o.xs.data(), o.xs.data() + o.xs.size())) - c.begin();
      case 5: OPTR("resize(%d, %d)", (int)o.b, val(x)); LIB(c.resize((size_t)o.b, x), 0); return 0;
      case 6: if (!n) break; OPTR("pop_back()"); LIB(c.pop_back(), 0); return 0;
      case 7: if (!n) break; OPTR("erase(%zu)", q); return LIB(c.erase(c.cbegin() + q)) - c.begin();
      case 8: { size_t e = p + o.b % (n - p + 1); OPTR("erase(%zu, %zu)", p, e); return LIB(c.erase(c.cbegin() + p, c.cbegin() + e)) - c.begin(); }
      case 9: OPTR("resize(%zu)", p); LIB(c.resize(p), 0); return 0;
      case 10: if (!n) break; OPTR("[%zu] = %d", q, o.v); c[q] = T(o.v); return 0;
      case 11: OPTR("assign(%s)", show(o.xs).c_str()); LIB(c.assign(o.xs.data(), o.xs.data() + o.xs.size()), 0); return 0;
      default:
         if (o.b % 4 == 0) { OPTR("clear()"); LIB(c.clear(), 0); return 0; }
         OPTR("assign(%d, %d)", (int)o.b % 7, o.v); { T t(o.v); LIB(c.assign((size_t)(o.b % 7), t), 0); } return 0;
      }
      return NOT_APPLIED;
   }
};
template<class T> struct ListAd
{
   typedef ttl::list<T> C; typedef C type; typedef T elem;
   enum { KINDS = 17, SWAP = 1, EQ = 1, RANGE = 1, ASSIGN = 1, BIDI = 1, KEYED = 0 };
   static const char *name() { return "list"; }
   static void contents(const C &c, Ints &d) { for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { d.push_back(val(*i)); CHECK(d.size() < 100000, "a list does not end"); } }
   static void build(C &c, const Ints &x) { for (size_t i = 0; i < x.size(); ++i) c.push_back(T(x[i])); }
   static C *range(const C &c) { return new C(c.begin(), c.end()); }
   static void obs(C &c, Ints &d)
   {
      const C &k = c;
      contents(c, d);
      const size_t n = d.size();
      d.push_back(-7001); d.push_back((int)k.size()); d.push_back(k.empty());
      typename C::iterator i = c.end();
      for (size_t j = 0; j < n; ++j) d.push_back(val(*--i));
      d.push_back(i == c.begin());
      if (!n) return;
      d.push_back(val(k.front())); d.push_back(val(c.back()));
   }
   static int apply(C &c, const Op &o, bool alias, bool tr)
   {
      typedef typename C::iterator It;
      const size_t n = length(c), p = o.a % (n + 1), q = n ? o.a % n : 0;
      Arg<T> x(o, n ? &*advanced(c.begin(), o.i % n) : 0, alias);
      if (n > LARGE && o.kind < 7) return NOT_APPLIED;
      It at = advanced(c.begin(), p);
      switch (o.kind)
      {
      case 0: case 1: OPTR("push_back(%d)", val(x)); LIB(c.push_back(x), 0); return 0;
      case 2: OPTR("push_front(%d)", val(x)); LIB(c.push_front(x), 0); return 0;
      case 3: { OPTR("insert(%zu, %d)", p, val(x)); It i = LIB(c.insert(at, x)); return index_of(c, i); }
      case 4: OPTR("insert(%zu, %d, %d)", p, (int)o.b % 5, val(x)); LIB(c.insert(at, (size_t)(o.b % 5), x), 0); return 0;
      case 5: OPTR("insert(%zu, %s)", p, show(o.xs).c_str()); LIB(c.insert(at, o.xs.data(), o.xs.data() + o.xs.size()), 0); return 0;
      case 6: OPTR("resize(%d, %d)", (int)o.b, val(x)); LIB(c.resize((size_t)o.b, x), 0); return 0;
      case 7: if (!n) break; OPTR("pop_back()"); LIB(c.pop_back(), 0); return 0;
      case 8: if (!n) break; OPTR("pop_front()"); LIB(c.pop_front(), 0); return 0;
      case 9: { if (!n) break; OPTR("erase(%zu)", q); It i = LIB(c.erase(advanced(c.begin(), q))); return index_of(c, i); }
      case 10: OPTR("remove(%d)", val(x)); LIB(c.remove(x), 0); return 0;
      case 11: OPTR("reverse()"); LIB(c.reverse(), 0); return 0;
      case 12: OPTR("unique()"); LIB(c.unique(), 0); return 0;
      case 13: OPTR("resize(%zu)", p); LIB(c.resize(p), 0); return 0;
      case 14: if (!n) break; OPTR("*(begin + %zu) = %d", q, o.v); *advanced(c.begin(), q) = T(o.v); return 0;
      case 15: OPTR("assign(%s)", show(o.xs).c_str()); LIB(c.assign(o.xs.data(), o.xs.data() + o.xs.size()), 0); return 0;
      default:
         if (o.b % 4 == 0) { OPTR("clear()"); LIB(c.clear(), 0); return 0; }
         OPTR("assign(%d, %d)", (int)o.b % 7, o.v); { T t(o.v); LIB(c.assign((size_t)(o.b % 7), t), 0); } return 0;
      }
      return NOT_APPLIED;
   }
};
// forward_list, backward_list and lazy_queue
enum { HAS_BACK = 1, HAS_RANGE = 2, HAS_REVERSE = 4, HAS_EQ = 8 };
template<class Cn, class T, int F> struct SlistAd
{
   typedef Cn C; typedef C type; typedef T elem;
   enum { KINDS = 13, SWAP = 1, EQ = (F & HAS_EQ) != 0, RANGE = 1, ASSIGN = 1, BIDI = 0, KEYED = 0 };
   static const char *name() { return !(F & HAS_BACK) ? "forward_list" : F & HAS_RANGE ? "backward_list" : "lazy_queue"; }
   static void contents(const C &c, Ints &d) { for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { d.push_back(val(*i)); CHECK(d.size() < 100000, "a list does not end"); } }
   template<class X> static auto push_back(X &c, const T &t, int) -> decltype(c.push_back(t)) { c.push_back(t); }
   template<class X> static void push_back(X &c, const T &t, long)
   {
      typename C::const_iterator i = c.cbefore_begin(), j = c.cbegin();
      for (; j != c.cend(); ++j) ++i;
      c.insert_after(i, t);
   }
   static void build(C &c, const Ints &x) { for (size_t i = x.size(); i--;) c.push_front(T(x[i])); }
   template<class X> static auto range_(const X &c, int) -> decltype(new X(c.begin(), c.end())) { return new X(c.begin(), c.end()); }
   template<class X> static X *range_(const X &c, long) { X *n = new X; n->insert_after(n->cbefore_begin(), c.begin(), c.end()); return n; }
   static C *range(const C &c)
   {
      if (F & HAS_RANGE) return range_(c, 0);
      return range_(c, 0L);
   }
   template<class X> static auto back(X &c, Ints &d, int) -> decltype((void)c.back())
   {
      const X &k = c;
      if (!c.empty()) { d.push_back(val(c.back())); d.push_back(val(k.back())); d.push_back(&c.back() == &*c.before_end() && &c.back() == &*k.cbefore_end()); }
      d.push_back((c.before_end() == c.before_begin()) == c.empty());
   }
   template<class X> static void back(X &, Ints &, long) {}
   template<class X> static auto reverse(X &c, int) -> decltype(c.reverse()) { c.reverse(); }
   template<class X> static void reverse(X &, long) {}
   static void obs(C &c, Ints &d)
   {
      const C &k = c;
      contents(c, d);
      const size_t n = d.size();
      d.push_back(-7001); d.push_back(k.empty());
      d.push_back(++c.before_begin() == c.begin());
      back(c, d, 0);
      if (n) d.push_back(val(k.front()));
   }
   static int after(C &c, typename C::iterator i) { return index_of(c, i); }
   static int apply(C &c, const Op &o, bool alias, bool tr)
   {
      typedef typename C::iterator It;
      const size_t n = length(c), p = o.a % (n + 1), q = n ? o.a % n : 0;
      Arg<T> x(o, n ? &*advanced(c.begin(), o.i % n) : 0, alias);
      if (n > LARGE && o.kind < 7) return NOT_APPLIED;
      It at = advanced(c.before_begin(), p);
      switch (o.kind)
      {
      case 0: case 1: OPTR("push_back(%d)", val(x)); LIB(push_back(c, x, 0), 0); return 0;
      case 2: OPTR("push_front(%d)", val(x)); LIB(c.push_front(x), 0); return 0;
      case 3: { OPTR("insert_after(%d, %d)", (int)p - 1, val(x)); It i = LIB(c.insert_after(at, x)); return index_of(c, i); }
      case 4: OPTR("insert_after(%d, %d, %d)", (int)p - 1, (int)o.b % 5, val(x)); LIB(c.insert_after(at, (size_t)(o.b % 5), x), 0); return 0;
      case 5: OPTR("insert_after(%d, %s)", (int)p - 1, show(o.xs).c_str()); LIB(c.insert_after(at, o.xs.data(), o.xs.data() + o.xs.size()), 0); return 0;
      case 6: if (!(F & HAS_REVERSE)) break; OPTR("reverse()"); LIB(reverse(c, 0), 0); return 0;
      case 7: if (!n) break; OPTR("pop_front()"); LIB(c.pop_front(), 0); return 0;
      case 8: { if (!n) break; OPTR("erase_after(%d)", (int)q - 1); It i = LIB(c.erase_after(advanced(c.before_begin(), q))); return index_of(c, i); }
      case 9: { size_t e = p + o.b % (n - p + 1); OPTR("erase_after(%d, %zu)", (int)p - 1, e); It i = LIB(c.erase_after(at, advanced(c.begin(), e))); return index_of(c, i); }
      case 10: if (!n) break; OPTR("*(begin + %zu) = %d", q, o.v); *advanced(c.begin(), q) = T(o.v); return 0;
      case 11: OPTR("pops and pushes"); for (int i = 0; i < 3; ++i) { T t(o.v + i); if (!c.empty()) LIB(c.pop_front(), 0); LIB(push_back(c, t, 0), 0); } return 0;
      default:
         if (o.b % 4 == 0) { OPTR("clear()"); LIB(c.clear(), 0); return 0; }
         if (n < 2) break;
         OPTR("erase_after(-1, end)"); LIB(c.erase_after(c.before_begin(), c.end()), 0); return 0;
      }
      return NOT_APPLIED;
   }
};
template<class T, size_t N> struct ArrAd
{
   typedef ttl::array<T,N> C; typedef C type; typedef T elem;
   enum { KINDS = 3, SWAP = 1, EQ = 1, RANGE = 0, ASSIGN = 1, BIDI = 1, KEYED = 0 };
   static const char *name() { return "array"; }
   static void contents(const C &c, Ints &d) { for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) d.push_back(val(*i)); }
   static void build(C &c, const Ints &x) { for (size_t i = 0; i < N; ++i) c[i] = T(i < x.size() ? x[i] : 0); }
   static C *range(const C &) { return 0; }
   static void obs(C &c, Ints &d) { contents(c, d); d.push_back(-7001); d.push_back((int)c.size()); d.push_back(c.empty()); }
   static int apply(C &c, const Op &o, bool, bool tr)
   {
      if (o.kind == 0) { OPTR("fill(%d)", o.v); T t(o.v); LIB(c.fill(t), 0); return 0; }
      if (!N) return NOT_APPLIED;
      OPTR("[%zu] = %d", (size_t)(o.a % N), o.v); c[o.a % (N ? N : 1)] = T(o.v);
      return 0;
   }
};
template<size_t N> struct BitsAd
{
   typedef ttl::bitset<N> C; typedef C type; typedef int elem;
   enum { KINDS = 12, SWAP = 0, EQ = 1, RANGE = 0, ASSIGN = 1, BIDI = 0, KEYED = 0 };
   static const char *name() { return "bitset"; }
   static void contents(const C &c, Ints &d) { for (size_t i = 0; i < N; ++i) d.push_back(c.test(i)); }
   static void build(C &c, const Ints &x) { for (size_t i = 0; i < N && i < x.size(); ++i) c.set(i, x[i] != 0); }
   static C *range(const C &) { return 0; }
   static void obs(C &c, Ints &d) { contents(c, d); d.push_back(-7001); d.push_back((int)c.count()); d.push_back(c.any()); d.push_back(c.none()); d.push_back(c.all()); d.push_back((int)c.to_ulong()); }
   static int apply(C &c, const Op &o, bool, bool tr)
   {
      const size_t p = (o.a * 48 + o.b) % N;
      switch (o.kind)
      {
      case 0: OPTR("set(%zu, %d)", p, o.v & 1); c.set(p, o.v & 1); break;
      case 1: OPTR("flip(%zu)", p); c.flip(p); break;
      case 2: OPTR("reset(%zu)", p); c.reset(p); break;
      case 3: OPTR("flip()"); c.flip(); break;
      case 4: OPTR("set()"); c.set(); break;
      case 5: OPTR("reset()"); c.reset(); break;
      case 6: OPTR("<<= %u", o.b); c <<= o.b; break;
      case 7: OPTR(">>= %u", o.b); c >>= o.b; break;
      case 8: OPTR("= ~"); c = ~c; break;
      case 9: OPTR("|= %u", o.b); c |= C((unsigned long)o.b); break;
      case 10: OPTR("^= ~%u", o.b); c ^= ~C((unsigned long)o.b); break;
      default: OPTR("= %d", -o.v); c = C((unsigned long)-o.v); break;
      }
      return 0;
   }
};
// ------------------------------------------------------------- dictionaries
// K is the type of the keys, values are of the same type
template<class C, class K> struct MapAd
{
   typedef C type; typedef K elem;
   enum { KINDS = 10, SWAP = 0, EQ = 1, RANGE = 1, ASSIGN = 1, BIDI = 1, KEYED = 1 };
   static const char *name() { return "map"; }
   static void contents(const C &c, Ints &d) { for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { d.push_back(val(i->first)); d.push_back(val(i->second)); CHECK(d.size() < 100000, "a map does not end"); } }
   static void build(C &c, const Ints &x) { for (size_t i = 0; i + 1 < x.size(); i += 2) c.insert(typename C::value_type(K(x[i]), K(x[i + 1]))); }
   static C *range(const C &c) { return new C(c.begin(), c.end()); }
   static void obs(C &c, Ints &d)
   {
      const C &k = c;
      contents(c, d);
      const size_t n = d.size() / 2;
      d.push_back(-7001); d.push_back(k.empty());
      typename C::iterator i = c.end();
      for (size_t j = 0; j < n; ++j) d.push_back(val((--i)->first));
      d.push_back(i == c.begin());
      for (size_t j = 0; j < n; ++j) { K key(d[2 * j]); d.push_back(c.find(key) == c.end() ? -1 : val(k.find(key)->second)); d.push_back((int)k.count(key)); d.push_back(k.lower_bound(key) == k.find(key)); }
   }
   static int apply(C &c, const Op &o, bool alias, bool tr)
   {
      const size_t n = length(c);
      typedef typename C::iterator It;
      It at = n ? advanced(c.begin(), o.i % n) : c.end();
      Arg<K> x(o, n ? o.a & 1 ? &at->second : &at->first : 0, alias); // the mapped value of an element as a key, too
      if (n > LARGE && o.kind < 5) return NOT_APPLIED;
      switch (o.kind)
      {
      case 0: case 1: { OPTR("[%d] = %d", val(x), (int)o.b); K &r = LIB(c[x]); r = K((int)o.b); return 0; }
      case 2: case 3:
         {
            typedef typename C::value_type P;
            if (o.al && n) { const P own(*at); const P &p = alias ? *at : own; OPTR("insert((%d, %d))", val(p.first), val(p.second)); ttl::pair<It,bool> r = LIB(c.insert(p)); return index_of(c, r.first) * 2 + r.second; }
            const P p(x, K((int)o.b)); OPTR("insert((%d, %d))", val(p.first), val(p.second)); ttl::pair<It,bool> r = LIB(c.insert(p)); return index_of(c, r.first) * 2 + r.second;
         }
      case 4: OPTR("insert of a range %s", show(o.xs).c_str()); { std::vector<ttl::pair<const K,K> > v; for (size_t i = 0; i < o.xs.size(); ++i) v.push_back(ttl::pair<const K,K>(K(o.xs[i]), K(o.v))); LIB(c.insert(v.data(), v.data() + v.size()), 0); } return 0;
      case 5: case 6: case 7: OPTR("erase(%d)", val(x)); return (int)LIB(c.erase(x));
      case 8: if (!n) break; OPTR("[%d] = %d", val(at->first), o.v); at->second = K(o.v); return 0;
      default: if (o.b % 4) break; OPTR("clear()"); LIB(c.clear(), 0); return 0;
      }
      return NOT_APPLIED;
   }
};
template<class C, class K, bool E> struct SetAd
{
   typedef C type; typedef K elem;
   enum { KINDS = 9, SWAP = 0, EQ = E, RANGE = 1, ASSIGN = 1, BIDI = 1, KEYED = 1 };
   static const char *name() { return "set"; }
   static void contents(const C &c, Ints &d) { for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { d.push_back(val(*i)); CHECK(d.size() < 100000, "a set does not end"); } }
   static void build(C &c, const Ints &x) { for (size_t i = 0; i < x.size(); ++i) c.insert(K(x[i])); }
   static C *range(const C &c) { return new C(c.begin(), c.end()); }
   static void obs(C &c, Ints &d)
   {
      const C &k = c;
      contents(c, d);
      const size_t n = d.size();
      d.push_back(-7001); d.push_back(k.empty());
      typename C::iterator i = c.end();
      for (size_t j = 0; j < n; ++j) d.push_back(val(*--i));
      d.push_back(i == c.begin());
      for (size_t j = 0; j < n; ++j) { K key(d[j]); d.push_back(c.find(key) == c.end() ? -1 : val(*k.find(key))); d.push_back((int)k.count(key)); d.push_back(k.lower_bound(key) == k.find(key)); }
   }
   static int apply(C &c, const Op &o, bool alias, bool tr)
   {
      const size_t n = length(c);
      typedef typename C::iterator It;
      Arg<K> x(o, n ? &*advanced(c.begin(), o.i % n) : 0, alias);
      if (n > LARGE && o.kind < 5) return NOT_APPLIED;
      switch (o.kind)
      {
      case 0: case 1: case 2: case 3: { OPTR("insert(%d)", val(x)); ttl::pair<It,bool> r = LIB(c.insert(x)); return index_of(c, r.first) * 2 + r.second; }
      case 4: OPTR("insert of a range %s", show(o.xs).c_str()); { std::vector<K> v(o.xs.begin(), o.xs.end()); LIB(c.insert(v.data(), v.data() + v.size()), 0); } return 0;
      case 5: case 6: case 7: OPTR("erase(%d)", val(x)); return (int)LIB(c.erase(x));
      default: if (o.b % 4) break; OPTR("clear()"); LIB(c.clear(), 0); return 0;
      }
      return NOT_APPLIED;
   }
};
template<class K, class Cmp = ttl::less<K> > struct SvMapAd
{
   typedef ttl::sorted_vector_map<K,K,Cmp> C; typedef C type; typedef K elem;
   enum { KINDS = 7, SWAP = 0, EQ = 0, RANGE = 0, ASSIGN = 0, BIDI = 1, KEYED = 1 };
   static const char *name() { return "sorted_vector_map"; }
   static void contents(const C &c, Ints &d) { for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { d.push_back(val(i->first)); d.push_back(val(i->second)); } }
   static void build(C &c, const Ints &x) { for (size_t i = 0; i + 1 < x.size(); i += 2) c.insert(typename C::value_type(K(x[i]), K(x[i + 1]))); }
   static C *range(const C &) { return 0; }
   static void obs(C &c, Ints &d)
   {
      const C &k = c;
      contents(c, d);
      const size_t n = d.size() / 2;
      d.push_back(-7001); d.push_back(k.empty()); d.push_back((int)k.size());
      typename C::iterator i = c.end();
      for (size_t j = 0; j < n; ++j) d.push_back(val((--i)->first));
      d.push_back(i == c.begin());
      for (size_t j = 0; j < n; ++j) { K key(d[2 * j]); d.push_back(c.find(key) == c.end() ? -1 : val(k.find(key)->second)); d.push_back((int)k.count(key)); }
   }
   static int apply(C &c, const Op &o, bool alias, bool tr)
   {
      const size_t n = length(c);
      typedef typename C::iterator It; typedef typename C::value_type P;
      It at = n ? advanced(c.begin(), o.i % n) : c.end();
      Arg<K> x(o, n ? o.a & 1 ? &at->second : &at->first : 0, alias); // the mapped value of an element as a key, too
      if (n > LARGE && o.kind < 5) return NOT_APPLIED;
      switch (o.kind)
      {
      case 0: case 1: { OPTR("[%d] = %d", val(x), (int)o.b); K &r = LIB(c[x]); r = K((int)o.b); return 0; }
      case 2: case 3: case 4:
         {
            if (o.al && n) { const P own(*at); const P &p = alias ? *at : own; OPTR("insert((%d, %d))", val(p.first), val(p.second)); ttl::pair<It,bool> r = LIB(c.insert(p)); return index_of(c, r.first) * 2 + r.second; }
            const P p(x, K((int)o.b)); OPTR("insert((%d, %d))", val(p.first), val(p.second)); ttl::pair<It,bool> r = LIB(c.insert(p)); return index_of(c, r.first) * 2 + r.second;
         }
      case 5: if (!n) break; OPTR("[%d] = %d", val(at->first), o.v); at->second = K(o.v); return 0;
      default: if (o.b % 4) break; OPTR("clear()"); LIB(c.clear(), 0); return 0;
      }
      return NOT_APPLIED;
   }
};
template<class K> struct VMapAd
{
   typedef ttl::vector_map<K,K> C; typedef C type; typedef K elem;
   enum { KINDS = 12, SWAP = 0, EQ = 1, RANGE = 0, ASSIGN = 0, BIDI = 1, KEYED = 1 };
   static const char *name() { return "vector_map"; }
   static void contents(const C &c, Ints &d) { for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { d.push_back(val(i->first)); d.push_back(val(i->second)); } }
   static void build(C &c, const Ints &x) { for (size_t i = 0; i + 1 < x.size(); i += 2) c.push_back(typename C::value_type(K(x[i]), K(x[i + 1]))); }
   static C *range(const C &) { return 0; }
   static void obs(C &c, Ints &d)
   {
      const C &k = c;
      contents(c, d);
      const size_t n = d.size() / 2;
      d.push_back(-7001); d.push_back(k.empty()); d.push_back((int)k.size());
      for (size_t j = 0; j < n; ++j) { K key(d[2 * j]); d.push_back(c.find(key) == c.end() ? -1 : val(k.find(key)->second)); d.push_back((int)k.count(key)); d.push_back(val(k.begin()[j].first)); }
   }
   static int apply(C &c, const Op &o, bool alias, bool tr)
   {
      const size_t n = length(c);
      typedef typename C::iterator It; typedef typename C::value_type P;
      It at = n ? c.begin() + o.i % n : c.end();
      Arg<K> x(o, n ? o.a & 1 ? &at->second : &at->first : 0, alias); // the mapped value of an element as a key, too
      const P own = o.al && n ? P(*at) : P(K(o.v), K((int)o.b));
      const P &p = o.al && n && alias ? *at : own;
      if (n > LARGE && o.kind < 7) return NOT_APPLIED;
      switch (o.kind)
      {
      case 0: case 1: { OPTR("[%d] = %d", val(x), (int)o.b); K &r = LIB(c[x]); r = K((int)o.b); return 0; }
      case 2: case 3: case 4: { OPTR("insert((%d, %d))", val(p.first), val(p.second)); ttl::pair<It,bool> r = LIB(c.insert(p)); return index_of(c, r.first) * 2 + r.second; }
      case 5: OPTR("push_back((%d, %d))", val(p.first), val(p.second)); LIB(c.push_back(p), 0); return 0;
      case 6: { size_t q = o.a % (n + 1); OPTR("vector's insert(%zu, (%d, %d))", q, val(p.first), val(p.second)); ttl::vector<P> &v = c; return LIB(v.insert(v.cbegin() + q, p)) - v.begin(); }
      case 7: case 8: { if (!n) break; size_t q = o.a % n; OPTR("erase(%zu)", q); return LIB(c.erase(c.cbegin() + q)) - c.begin(); }
      case 9: if (!n) break; OPTR("pop_back()"); LIB(c.pop_back(), 0); return 0;
      case 10: if (!n) break; OPTR("[%d] = %d", val(at->first), o.v); at->second = K(o.v); return 0;
      default: if (o.b % 4) break; OPTR("clear()"); LIB(c.clear(), 0); return 0;
      }
      return NOT_APPLIED;
   }
};
template<class A> Ints observe(typename A::type &c) { Ints d; A::obs(c, d); return d; }
template<class A> Ints contents_of(const typename A::type &c) { Ints d; A::contents(c, d); return d; }
// what an observation begins with
inline Ints contents_part(const Ints &d) { return Ints(d.begin(), std::find(d.begin(), d.end(), -7001)); }

template<class T> struct FvAd { template<size_t N> using of = VecAd<ttl::fixed_vector<T,N>, T, true>; };
template<class T> using VectorAd = VecAd<ttl::vector<T>, T, false>;
template<class T> using ForwardAd = SlistAd<ttl::forward_list<T>, T, HAS_RANGE | HAS_REVERSE | HAS_EQ>;
template<class T> using BackwardAd = SlistAd<ttl::backward_list<T>, T, HAS_BACK | HAS_RANGE | HAS_REVERSE | HAS_EQ>;
template<class T> using LazyAd = SlistAd<ttl::lazy_queue<T>, T, HAS_BACK>;
template<class K> using TtlMapAd = MapAd<ttl::map<K,K>, K>;
template<class K> using TtlSetAd = SetAd<ttl::set<K>, K, true>;
#endif
