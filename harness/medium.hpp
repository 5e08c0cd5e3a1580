// Sequences and dictionaries of sizes around the limits of narrow counters,
// compared element by element with a reference (C38).
#ifndef MEDIUM_HPP
#define MEDIUM_HPP
#include <algorithm>
#include <iterator>
#include <map>
#include "ttl/vector_map.hpp"
struct Medium
{
   typedef std::vector<int> V;
   enum Kind { VEC, FVEC, LIST, FWD, BWD, QUEUE };
   enum { CAP = 140001 };
   Src &s;
   unsigned salt;
   Medium(Src &x): s(x), salt((unsigned)x.below(1000)) {}
   size_t some()
   {
      static const size_t n[] = { 1, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 65545, 66000, 70001 };
      return n[s.below(20)];
   }
   V values(size_t n)
   {
      V v(n);
      const unsigned how = s.below(3), base = s.below(100);
      for (size_t i = 0; i < n; ++i) v[i] = how == 0 ? (int)(base + i) : how == 1 ? (int)(base + i / 3) : (int)((i * 2654435761u + salt) >> 20);
      return v;
   }
   static void insert(V &m, size_t p, const V &v) { m.insert(m.begin() + p, v.begin(), v.end()); }
   template<Kind K, class C> void same(const C &c, const V &m, const char *name, const char *what)
   {
      size_t i = 0;
      for (typename C::const_iterator p = c.begin(); p != c.end(); ++p, ++i)
         CHECK(i < m.size() && *p == m[i], "%s: after %s element %zu of %zu differs", name, what, i, m.size());
      CHECK(i == m.size(), "%s: after %s %zu elements, expected %zu", name, what, i, m.size());
      CHECK(c.empty() == m.empty(), "%s: after %s empty()", name, what);
      if constexpr (K == VEC || K == FVEC || K == LIST) CHECK(c.size() == m.size(), "%s: after %s size() is %zu, expected %zu", name, what, (size_t)c.size(), m.size());
      if (m.empty()) return;
      CHECK(c.front() == m.front(), "%s: after %s front()", name, what);
      if constexpr (K != FWD) CHECK(c.back() == m.back(), "%s: after %s back()", name, what);
      if constexpr (K == LIST) { i = m.size(); for (typename C::const_iterator p = c.end(); p != c.begin(); ) CHECK(*--p == m[--i], "%s: after %s element %zu differs, backwards", name, what, i); }
      if constexpr (K == VEC || K == FVEC) for (size_t k = 0; k < m.size(); k += 251) CHECK(c[k] == m[k], "%s: after %s [%zu]", name, what, k);
   }
   // the place before element i, or after element i - 1
   template<Kind K, class C> typename C::iterator at(C &c, size_t i)
   {
      if constexpr (K == VEC || K == FVEC) return c.begin() + i;
      else if constexpr (K == LIST) { typename C::iterator p = c.begin(); while (i--) ++p; return p; }
      else { typename C::iterator p = c.before_begin(); while (i--) ++p; return p; }
   }
   template<Kind K, class C> void seq(const char *name)
   {
      const bool fixed = K == FVEC;
      V m = values(some());
      C *cp;
      const int *f = m.data(), *l = f + m.size();
      unsigned how = s.below(3);
      TR("%s of %zu elements, made by %u\n", name, m.size(), how);
      STEP();
      if constexpr (K != QUEUE) { if (how == 0) cp = new C(f, l); }
      if (K == QUEUE && how == 0) how = 1;
      if (how == 1) { m.assign(m.size(), 77); cp = new C((size_t)m.size(), 77); }
      else if (how == 2)
      {
         cp = new C();
         if constexpr (K == VEC || K == FVEC) cp->insert(cp->end(), f, l);
         else if constexpr (K == LIST) cp->insert(cp->end(), f, l);
         else cp->insert_after(cp->before_begin(), f, l);
      }
      C &c = *cp;
      same<K>(c, m, name, "construction");
      for (unsigned ops = 2 + s.below(6); ops--;)
      {
         const char *what = "";
         STEP();
         switch (s.below(14))
         {
         case 0:
         {
            const size_t n = some();
            TR("assign(%zu, 5)\n", n); what = "assign of a number of elements";
            if constexpr (K != QUEUE) { c.assign((size_t)n, 5); m.assign(n, 5); }
            break;
         }
         case 1:
         {
            const V v = values(some());
            TR("assign of a range of %zu\n", v.size()); what = "assign of a range";
            if constexpr (K == VEC) { if (v.size() > 5000) c.reserve(v.size()); } // which is not told the number, and grows by one
            if constexpr (K != QUEUE) { c.assign(v.data(), v.data() + v.size()); m = v; }
            break;
         }
         case 2: case 3:
         {
            const bool range = s.coin();
            const V v = range ? values(some()) : V(some(), 9);
            if (!fixed && m.size() + v.size() > CAP) break;
            const size_t p = s.below(3) == 0 ? 0 : s.coin() ? m.size() : s.below(m.size() + 1);
            TR("insert %s%zu at %zu\n", range ? "a range of " : "", v.size(), p); what = "insert";
            const typename C::iterator i = at<K>(c, p);
            if constexpr (K == VEC || K == FVEC || K == LIST) { if (range) c.insert(i, v.data(), v.data() + v.size()); else c.insert(i, (size_t)v.size(), 9); }
            else { if (range) c.insert_after(i, v.data(), v.data() + v.size()); else c.insert_after(i, (size_t)v.size(), 9); }
            insert(m, p, v);
            if (m.size() > CAP) m.resize(CAP);
            break;
         }
         case 4: case 5:
         {
            size_t p = s.below(m.size() + 1), q = s.below(3) ? std::min(m.size(), p + some()) : m.size();
            TR("erase %zu to %zu\n", p, q); what = "erase";
            if constexpr (K == VEC || K == FVEC) c.erase(c.begin() + p, c.begin() + q);
            else if constexpr (K == LIST)
            {
               // element by element
               typename C::iterator i = at<K>(c, p);
               for (size_t k = p; k < q; ++k) i = c.erase(i);
            }
            else
            {
               typename C::iterator i = at<K>(c, p), j = i;
               for (size_t k = p; k < q; ++k) ++j;
               c.erase_after(i, ++j);
            }
            m.erase(m.begin() + p, m.begin() + q);
            break;
         }
         case 6:
            if constexpr (K == VEC || K == FVEC || K == LIST)
            {
               const size_t n = some();
               TR("resize %zu\n", n); what = "resize";
               if (s.coin()) { c.resize(n); m.resize(n); } else { c.resize(n, 6); m.resize(n, 6); }
            }
            break;
         case 7:
            if constexpr (K == LIST || K == FWD || K == BWD) { TR("reverse\n"); what = "reverse"; c.reverse(); std::reverse(m.begin(), m.end()); }
            else if constexpr (K == QUEUE) { const size_t n = s.below(m.size() + 1); TR("roll_head %zu\n", n); what = "roll_head"; for (size_t i = 0; i < n; ++i) c.roll_head(); std::rotate(m.begin(), m.begin() + n, m.end()); }
            break;
         case 8:
         {
            TR("copy and comparison\n"); what = "copy construction";
            C *d = new C(c);
            same<K>(*d, m, name, "copy construction (the copy)");
            if constexpr (K != QUEUE)
            {
               CHECK(c == *d && !(c != *d), "%s: a copy of %zu is not equal", name, m.size());
               if (!m.empty())
               {
                  const size_t p = s.coin() ? m.size() - 1 : s.below(m.size());
                  typename C::iterator i = d->begin(); for (size_t k = 0; k < p; ++k) ++i;
                  ++*i;
                  CHECK(c != *d && !(c == *d), "%s: equal though element %zu of %zu differs", name, p, m.size());
               }
            }
            delete d;
            break;
         }
         case 9: case 10:
         {
            const V v = values(some());
            C *d = new C();
            if constexpr (K == VEC || K == FVEC || K == LIST) d->insert(d->end(), v.data(), v.data() + v.size()); else d->insert_after(d->before_begin(), v.data(), v.data() + v.size());
            if (s.coin()) { TR("= one of %zu\n", v.size()); what = "assignment"; c = *d; same<K>(*d, v, name, "assignment (the source)"); m = v; }
            else { TR("swap with one of %zu\n", v.size()); what = "swap"; c.swap(*d); same<K>(*d, m, name, "swap (the other)"); m = v; }
            delete d;
            break;
         }
         case 11: case 13:
            if constexpr (K == LIST)
               switch (s.below(5))
               {
               case 0: TR("unique\n"); what = "unique"; c.unique(); m.erase(std::unique(m.begin(), m.end()), m.end()); break;
               case 1: TR("remove\n"); what = "remove"; c.remove(5); m.erase(std::remove(m.begin(), m.end(), 5), m.end()); break;
               case 2: TR("remove_if\n"); what = "remove_if"; c.remove_if([](int x) { return x % 5 == 1; }); m.erase(std::remove_if(m.begin(), m.end(), [](int x) { return x % 5 == 1; }), m.end()); break;
               case 3:
               {
                  V v = values(some());
                  if (!std::is_sorted(m.begin(), m.end()) || !std::is_sorted(v.begin(), v.end()) || m.size() + v.size() > CAP) break;
                  TR("merge\n"); what = "merge";
                  C d(v.data(), v.data() + v.size());
                  c.merge(d);
                  V r; std::merge(m.begin(), m.end(), v.begin(), v.end(), std::back_inserter(r)); m.swap(r);
                  same<K>(d, V(), name, "merge (the other)");
                  break;
               }
               default:
               {
                  V v = values(some());
                  if (m.size() + v.size() > CAP) break;
                  C d(v.data(), v.data() + v.size());
                  const size_t p = s.below(m.size() + 1), a = s.coin() ? 0 : s.below(v.size() + 1), b = s.coin() ? v.size() : a + s.below(v.size() - a + 1);
                  TR("splice\n"); what = "splice";
                  c.splice(at<K>(c, p), d, at<K>(d, a), at<K>(d, b));
                  insert(m, p, V(v.begin() + a, v.begin() + b));
                  v.erase(v.begin() + a, v.begin() + b);
                  same<K>(d, v, name, "splice (the other)");
               }
               }
            else if constexpr (K == FWD)
            {
               V v = values(some());
               if (m.size() + v.size() > CAP) break;
               C d(v.data(), v.data() + v.size());
               const size_t p = s.below(m.size() + 1), a = s.coin() ? 0 : s.below(v.size() + 1), b = s.coin() ? v.size() : a + s.below(v.size() - a + 1);
               TR("splice_after\n"); what = "splice_after";
               typename C::iterator j = at<K>(d, b);
               c.splice_after(at<K>(c, p), d, at<K>(d, a), ++j);
               insert(m, p, V(v.begin() + a, v.begin() + b));
               v.erase(v.begin() + a, v.begin() + b);
               same<K>(d, v, name, "splice_after (the other)");
            }
            break;
         default:
            if constexpr (K != VEC && K != FVEC)
            {
               const size_t n = s.below(m.size() + 1), k = some();
               TR("pop_front %zu, push_front %zu\n", n, k); what = "pops and pushes at the front";
               for (size_t i = 0; i < n; ++i) c.pop_front();
               m.erase(m.begin(), m.begin() + n);
               for (size_t i = 0; m.size() + k <= CAP && i < k; ++i) c.push_front((int)(k - 1 - i));
               if (m.size() + k <= CAP) { V v(k); for (size_t i = 0; i < k; ++i) v[i] = (int)i; insert(m, 0, v); }
            }
            if (s.coin()) { TR("clear\n"); what = "clear"; c.clear(); m.clear(); }
         }
         if (*what) same<K>(c, m, name, what);
      }
      delete cp;
   }
   // dictionaries
   typedef std::map<int,int> D;
   static int key(const ttl::pair<const int,int> &x) { return x.first; }
   static int key(const ttl::pair<int,int> &x) { return x.first; }
   static int key(int x) { return x; }
   template<class C> void same_keys(const C &c, const D &d, const char *name, const char *what)
   {
      D::const_iterator j = d.begin();
      size_t n = 0;
      for (typename C::const_iterator i = c.begin(); i != c.end(); ++i, ++j, ++n) CHECK(j != d.end() && key(*i) == j->first, "%s: after %s element %zu of %zu differs", name, what, n, d.size());
      CHECK(j == d.end(), "%s: after %s %zu elements, expected %zu", name, what, n, d.size());
      CHECK(c.empty() == d.empty(), "%s: after %s empty()", name, what);
   }
   template<bool Set, bool Tree, class C> void dict(const char *name, bool insertion_order)
   {
      C c; D d;
      size_t n = some();
      if (insertion_order) n %= 6000;
      TR("%s\n", name);
      for (unsigned ops = 2 + s.below(5); ops--; n = insertion_order ? some() % 4500 : some())
      {
         const char *what = "";
         STEP();
         switch (s.below(6))
         {
         case 0: case 1: case 2:
         {
            // what is inserted into arrays comes in order
            const bool in_order = !Tree || s.coin();
            if (d.size() + n > CAP) break;
            const int from = !in_order ? 0 : d.empty() || (Tree && s.coin()) ? (int)s.below(100) : d.rbegin()->first + 1, step = in_order ? 1 + (int)s.below(3) : 0;
            TR("insert %zu from %d\n", n, from); what = "insertions";
            for (size_t i = 0; i < n; ++i)
            {
               const int k = step ? from + (int)i * step : (int)((i * 2654435761u + salt) >> 12 & 0xfffff);
               if constexpr (Set) c.insert(k); else c[k] = (int)i;
               d[k] = (int)i;
            }
            break;
         }
         case 3:
            if constexpr (Tree)
            {
               if (d.empty()) break;
               const unsigned of = 1 + s.below(3), kept = s.below(3) ? of : d.size();
               TR("erase, all but one of %u\n", kept); what = "erasures";
               V keys; unsigned i = 0;
               for (D::iterator j = d.begin(); j != d.end(); ++j) if (i++ % kept || kept == 1) keys.push_back(j->first);
               if (s.coin()) std::reverse(keys.begin(), keys.end());
               for (size_t x = 0; x < keys.size(); ++x) { CHECK(c.erase(keys[x]) == 1, "%s: erase of %d among %zu", name, keys[x], d.size()); d.erase(keys[x]); }
            }
            break;
         case 4:
         {
            TR("copy\n"); what = "copy construction";
            C *e = new C(c);
            same_keys(*e, d, name, "copy construction (the copy)");
            if constexpr (Tree) { CHECK(c == *e, "%s: a copy of %zu is not equal", name, d.size()); C f; f = *e; same_keys(f, d, name, "assignment"); }
            delete e;
            break;
         }
         default:
         {
            what = "lookups";
            const C &k = c;
            TR("lookups\n");
            for (unsigned i = 0; i < 300 && !d.empty(); ++i)
            {
               const int x = i & 1 ? d.rbegin()->first - (int)i / 2 : (int)s.below(d.rbegin()->first + 2);
               const D::iterator f = d.find(x);
               CHECK((k.find(x) != k.end()) == (f != d.end()), "%s: find of %d among %zu", name, x, d.size());
               if constexpr (!Set) { if (f != d.end()) CHECK(k.find(x)->second == f->second && k.at(x) == f->second, "%s: the value of %d among %zu", name, x, d.size()); }
               if (!insertion_order)
                  if constexpr (Bounds<C>::v)
                  {
                     const D::iterator lo = d.lower_bound(x), up = d.upper_bound(x);
                     const typename C::const_iterator l = k.lower_bound(x), u = k.upper_bound(x);
                     CHECK(lo == d.end() ? l == k.end() : l != k.end() && key(*l) == lo->first, "%s: lower_bound of %d among %zu", name, x, d.size());
                     CHECK(up == d.end() ? u == k.end() : u != k.end() && key(*u) == up->first, "%s: upper_bound of %d among %zu", name, x, d.size());
                  }
            }
            if constexpr (!Tree) CHECK(c.size() == d.size(), "%s: size() is %zu, expected %zu", name, (size_t)c.size(), d.size());
         }
         }
         if (*what) same_keys(c, d, name, what);
      }
   }
   template<class C> struct Bounds { template<class X> static auto t(X *x) -> decltype((void)x->lower_bound(0), 1); template<class X> static char t(...); enum { v = sizeof(t<C>(0)) == sizeof(int) }; };
   void run()
   {
      switch (s.below(10))
      {
      case 0: seq<VEC, ttl::vector<int> >("vector"); break;
      case 1: { typedef ttl::fixed_vector<int, CAP> F; seq<FVEC, F>("fixed_vector"); break; }
      case 2: case 3: seq<LIST, ttl::list<int> >("list"); break;
      case 4: seq<FWD, ttl::forward_list<int> >("forward_list"); break;
      case 5: seq<BWD, ttl::backward_list<int> >("backward_list"); break;
      case 6: seq<QUEUE, ttl::lazy_queue<int> >("lazy_queue"); break;
      case 7: if (s.coin()) dict<false, true, ttl::map<int,int> >("map", false); else dict<true, true, ttl::set<int> >("set", false); break;
      case 8: dict<false, false, ttl::sorted_vector_map<int,int> >("sorted_vector_map", false); break;
      default: dict<false, false, ttl::vector_map<int,int> >("vector_map", true); break;
      }
      s.nontrivial();
      CNT("containers of sizes around the limits of narrow counters");
   }
};
#endif
