// Histories over two ttl::lists against plain sequences of (value, identity).
#ifndef SEQ_LIST_HPP
#define SEQ_LIST_HPP
#include "elems.hpp"
#include "ttl/types.hpp"
#include "ttl/list.hpp"
#include "ttl/algorithm.hpp"
#include <list>
#include <map>
#include <forward_list>

using pbt::Src;

struct E { int v; const void *at; };
typedef std::vector<E> Seq;
static std::string show(const Seq &x) { Ints v; for (size_t i = 0; i < x.size(); ++i) v.push_back(x[i].v); return show(v); }
static int decade(int x) { return x >= 0 ? x / 10 : (x - 9) / 10; }

template<typename T> struct DecadeLess { bool operator()(const T &a, const T &b) const { return decade(val(a)) < decade(val(b)); } };
template<typename T> struct DecadeSame { bool operator()(const T &a, const T &b) const { return decade(val(a)) == decade(val(b)); } };
// an asymmetric relation, to tell the order of the arguments
template<typename T> struct Follows { bool operator()(const T &a, const T &b) const { return val(a) >= val(b) && val(a) <= val(b) + 3; } };
template<typename T> struct Mod { int m, r; bool operator()(const T &a) const { return ((val(a) % m) + m) % m == r; } };

template<typename T>
struct ListCase
{
   typedef ttl::list<T> C;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   C *c[2];
   Seq r[2];
   Src &s;
   Watch watch;
   std::map<const void *, It> held; // iterators taken when an element was first seen
   size_t peak, bulk; bool relinked; unsigned span;
   ListCase(Src &src): s(src), peak(0), bulk(0), relinked(false), span(1000) {}
   int v() { return (int)s.below(span) - (int)(span / 4); }
   static E fresh(int v) { E e = { v, 0 }; return e; }

   void full(int w, const char *after)
   {
      C &m = *c[w]; const C &k = m; Seq &ref = r[w];
      MODEL(k.empty() == ref.empty(), "after %s: empty() is %d with %zu elements", after, k.empty(), ref.size());
      CIt i = k.begin(); size_t n = 0; It here = m.begin();
      for (; i != k.end(); ++i, ++n, ++here)
      {
         MODEL(n < ref.size(), "after %s: more than %zu elements", after, ref.size());
         MODEL(val(*i) == ref[n].v, "after %s: element %zu of %c is %d instead of %d, of %s", after, n, 'a' + w, val(*i), ref[n].v, show(ref).c_str());
         if (!ref[n].at)
         {
            ref[n].at = &*i;
            if (WATCH & WATCH_ITER) { held.erase(&*i); held.insert(std::make_pair((const void *)&*i, here)); }
         }
         SAME_OBJECT(&*i == ref[n].at, "after %s: element %zu (%d) is not the same object any more", after, n, ref[n].v);
      }
      MODEL(n == ref.size(), "after %s: %zu elements instead of %zu", after, n, ref.size());
      if (WATCH & WATCH_ITER)
         for (size_t p = 0; p < n; ++p)
         {
            It h = held.find(ref[p].at)->second;
            CHECK(&*h == ref[p].at && val(*h) == ref[p].v, "after %s: the iterator to element %zu (%d) does not denote it any more", after, p, ref[p].v);
            ++h;
            CHECK(p + 1 < n ? h != m.end() && &*h == ref[p + 1].at : h == m.end(), "after %s: the iterator to element %zu (%d) is not in front of the next one any more", after, p, ref[p].v);
            --h;
            if (p) { --h; CHECK(&*h == ref[p - 1].at, "after %s: the iterator to element %zu (%d) is not behind the one before any more", after, p, ref[p].v); }
         }
      It j = m.end();
      while (n--)
      {
         --j;
         MODEL(&*j == ref[n].at, "after %s: reading backwards, element %zu is not the one before the next", after, n);
      }
      MODEL(j == m.begin(), "after %s: reading backwards does not end at begin()", after);
      MODEL(k.size() == ref.size(), "after %s: size() is %zu instead of %zu", after, (size_t)k.size(), ref.size());
      if (ref.empty()) return;
      MODEL(&m.front() == ref[0].at && &k.front() == ref[0].at, "after %s: front()", after);
      MODEL(&m.back() == ref.back().at && &k.back() == ref.back().at, "after %s: back()", after);
   }
   It at(C &m, size_t p) { It i = m.begin(); while (p--) ++i; return i; }
   static size_t index(C &m, It i)
   {
      size_t p = 0;
      for (It j = m.begin(); j != i; ++j, ++p) MODEL(j != m.end(), "a returned iterator is not in the list");
      return p;
   }
   Ints values(size_t n)
   {
      Ints x;
      if (n > 100) { Lcg g(s); for (size_t i = 0; i < n; ++i) x.push_back((int)g.below(span) - (int)(span / 4)); }
      else for (size_t i = 0; i < n; ++i) x.push_back(v());
      return x;
   }
   size_t amount() { if (bulk && !s.below(4)) return bulk + s.below(3) - 1; return s.below(8) == 0 ? s.below(30) : s.below(5); }
   void replace(int w, C *n, const Ints &x)
   {
      LIB(delete c[w], 0);
      c[w] = n; r[w].clear();
      for (size_t i = 0; i < x.size(); ++i) r[w].push_back(fresh(x[i]));
   }
   static void ins(Seq &x, size_t p, const Ints &in) { Seq t; for (size_t i = 0; i < in.size(); ++i) t.push_back(fresh(in[i])); x.insert(x.begin() + p, t.begin(), t.end()); }

   // make both lists sorted by an order, through the model
   template<typename F> void sort_both(F less)
   {
      for (int w = 0; w < 2; ++w)
      {
         Ints x; for (size_t i = 0; i < r[w].size(); ++i) x.push_back(r[w][i].v);
         std::stable_sort(x.begin(), x.end(), less);
         C *n = LIB(new C(x.begin(), x.end()));
         replace(w, n, x);
         full(w, "construction of a sorted list");
      }
   }
   template<typename F> static void merge_model(Seq &a, Seq &b, F less)
   {
      Seq out; size_t i = 0, j = 0;
      while (i < a.size() && j < b.size())
         if (less(b[j].v, a[i].v)) out.push_back(b[j++]); else out.push_back(a[i++]);
      out.insert(out.end(), a.begin() + i, a.end());
      out.insert(out.end(), b.begin() + j, b.end());
      a = out; b.clear();
   }
   // one block for every element, and new ones only for new elements
   void watched(const char *what)
   {
      const size_t n = r[0].size() + r[1].size();
      size_t fresh = 0;
      for (int w = 0; w < 2; ++w)
         for (size_t i = 0; i < r[w].size(); ++i) fresh += !r[w][i].at;
      const bool copying = !strncmp(what, "copy", 4) || !strncmp(what, "construction", 12);
      watch.end(what, n, n + 2, n + 2, fresh + copying);
   }
   void run()
   {
      c[0] = LIB(new C); c[1] = LIB(new C);
      static const unsigned spans[] = { 1000, 40, 6 };
      span = spans[s.below(3)];
      TR("list<%s>\n", Name<T>::s());
      bulk = bulk_size(s);
      const unsigned len = bulk > 1000 ? 5 : s.below(4) == 0 ? 80 : 20;
      const char *what = "construction";
      if (bulk)
      {
         const Ints in = values(bulk);
         TR("a: %zu elements, pushed one by one\n", bulk);
         for (size_t i = 0; i < bulk; ++i) { T t(in[i]); LIB(c[0]->push_back(t), 0); r[0].push_back(fresh(in[i])); }
         full(0, "push_back of many");
      }
      static const unsigned wt[] = {
         // pf pb popf popb ins insn insr er err rsz rszv asn asr clr spl spl1 splr mrg mrgc rm rmif uq uqp rev swp cpy asg ctor wr
            5, 7, 3,   3,   6,  3,   4,   4, 4,  2,  2,   1,  2,  2,  4,  5,   6,   3,  3,   3, 3,   3, 4,  3,  3,  2,  2,  2,  2 };
      for (unsigned steps = bulk > 1000 ? 8 : (unsigned)-1; steps-- && s.more(len);)
      {
         int w = s.below(3) == 0;
         C &m = *c[w]; Seq &x = r[w]; C &o = *c[1 - w]; Seq &y = r[1 - w];
         STEP();
         watch.begin(); what = "nothing";
         switch (s.weighted(wt))
         {
         case 0: { int e = v(); TR("%c.push_front(%d)\n", 'a' + w, e); what = "push_front"; T t(e); LIB(m.push_front(t), 0); x.insert(x.begin(), fresh(e)); CNT("push_front"); break; }
         case 1: { int e = v(); TR("%c.push_back(%d)\n", 'a' + w, e); what = "push_back"; T t(e); LIB(m.push_back(t), 0); x.push_back(fresh(e)); CNT("push_back"); break; }
         case 2: if (x.empty()) break; TR("%c.pop_front()\n", 'a' + w); what = "pop_front"; LIB(m.pop_front(), 0); x.erase(x.begin()); CNT("pop_front"); break;
         case 3: if (x.empty()) break; TR("%c.pop_back()\n", 'a' + w); what = "pop_back"; LIB(m.pop_back(), 0); x.pop_back(); CNT("pop_back"); break;
         case 4:
            {
               size_t p = s.below(x.size() + 1); int e = v();
               TR("%c.insert(%zu, %d)\n", 'a' + w, p, e); what = "insert";
               T t(e);
               It i = LIB(m.insert(CIt(at(m, p)), t));
               MODEL(index(m, i) == p, "insert returns position %zu instead of %zu", index(m, i), p);
               x.insert(x.begin() + p, fresh(e));
               CNT("insert");
               break;
            }
         case 5:
            {
               size_t p = s.below(x.size() + 1), n = amount(); int e = v();
               TR("%c.insert(%zu, %zu, %d)\n", 'a' + w, p, n, e); what = "insert of n";
               T t(e);
               LIB(m.insert(CIt(at(m, p)), (size_t)n, t), 0);
               x.insert(x.begin() + p, n, fresh(e));
               CNT("insert of n");
               break;
            }
         case 6:
            {
               size_t p = s.below(x.size() + 1);
               Ints in;
               what = "insert of a range";
               if (s.below(3) == 0)
               {
                  // a part of the other list
                  size_t a = s.below(y.size() + 1), b = a + s.below(y.size() - a + 1);
                  for (size_t i = a; i < b; ++i) in.push_back(y[i].v);
                  TR("%c.insert(%zu, other[%zu, %zu))\n", 'a' + w, p, a, b);
                  LIB(m.insert(CIt(at(m, p)), CIt(at(o, a)), CIt(at(o, b))), 0);
               }
               else
               {
                  in = values(amount());
                  TR("%c.insert(%zu, %s)\n", 'a' + w, p, show(in).c_str());
                  if (s.coin()) { std::forward_list<int> l(in.begin(), in.end()); LIB(m.insert(CIt(at(m, p)), l.begin(), l.end()), 0); }
                  else { std::vector<T> l(in.begin(), in.end()); LIB(m.insert(CIt(at(m, p)), l.begin(), l.end()), 0); }
               }
               ins(x, p, in);
               CNT("insert of a range");
               break;
            }
         case 7:
            {
               if (x.empty()) break;
               size_t p = s.below(x.size());
               TR("%c.erase(%zu)\n", 'a' + w, p); what = "erase";
               It i = LIB(m.erase(CIt(at(m, p))));
               x.erase(x.begin() + p);
               MODEL(index(m, i) == p, "erase returns position %zu instead of %zu", index(m, i), p);
               CNT("erase");
               break;
            }
         case 8:
            {
               if (x.empty()) break;
               size_t p = s.below(x.size()), q = p + 1 + s.below(x.size() - p);
#ifndef KNOWN_list_erase_range
               if (s.below(6) == 0) q = p;
#endif
               TR("%c.erase(%zu, %zu)\n", 'a' + w, p, q); what = "erase of a range";
               const bool at_end = q == x.size();
               const void *next = at_end ? 0 : x[q].at;
               It i = LIB(m.erase(CIt(at(m, p)), CIt(at(m, q))));
               MODEL(at_end ? i == m.end() : i != m.end() && &*i == next, "erase(%zu, %zu) does not return the position behind the range", p, q);
#ifdef KNOWN_list_erase_range
               // the accepted finding: the last element of the range stays
               if (m.size() == x.size() - (q - p) + 1) { --q; CNT("erase of a range: the known finding"); }
#endif
               x.erase(x.begin() + p, x.begin() + q);
               CNT("erase of a range");
               break;
            }
         case 9:
            {
               size_t n = s.coin() ? amount() : s.below(x.size() + 2);
               TR("%c.resize(%zu)\n", 'a' + w, n); what = "resize";
               LIB(m.resize(n), 0);
               x.resize(n, fresh(0));
               CNT("resize");
               break;
            }
         case 10:
            {
               size_t n = s.coin() ? amount() + x.size() : s.below(x.size() + 2); int e = v();
               TR("%c.resize(%zu, %d)\n", 'a' + w, n, e); what = "resize with a value";
               T t(e);
               LIB(m.resize(n, t), 0);
               x.resize(n, fresh(e));
               CNT("resize with a value");
               break;
            }
         case 11:
            {
               size_t n = amount(); int e = v();
               TR("%c.assign(%zu, %d)\n", 'a' + w, n, e); what = "assign of n";
               T t(e);
               LIB(m.assign((size_t)n, t), 0);
               x.assign(n, fresh(e));
               CNT("assign of n");
               break;
            }
         case 12:
            {
               Ints in = values(amount());
               TR("%c.assign(%s)\n", 'a' + w, show(in).c_str()); what = "assign of a range";
               std::forward_list<int> l(in.begin(), in.end());
               LIB(m.assign(l.begin(), l.end()), 0);
               x.clear(); ins(x, 0, in);
               CNT("assign of a range");
               break;
            }
         case 13: TR("%c.clear()\n", 'a' + w); what = "clear"; LIB(m.clear(), 0); x.clear(); CNT("clear"); break;
         case 14:
            {
               size_t p = s.below(x.size() + 1);
               TR("%c.splice(%zu, other)\n", 'a' + w, p); what = "splice of a list";
               relinked |= !y.empty();
               LIB(m.splice(CIt(at(m, p)), o), 0);
               x.insert(x.begin() + p, y.begin(), y.end()); y.clear();
               CNT("splice of a list");
               break;
            }
         case 15:
            {
               bool self = s.coin();
               size_t p = s.below(x.size() + 1);
               Seq &z = self ? x : y; C &f = self ? m : o;
               if (z.empty()) break;
               size_t q = s.below(z.size());
               TR("%c.splice(%zu, %s, %zu)\n", 'a' + w, p, self ? "itself" : "other", q); what = "splice of an element";
               LIB(m.splice(CIt(at(m, p)), f, CIt(at(f, q))), 0);
               E e = z[q];
               if (self)
               {
                  if (p != q) { x.erase(x.begin() + q); x.insert(x.begin() + (p > q ? p - 1 : p), e); }
               }
               else { y.erase(y.begin() + q); x.insert(x.begin() + p, e); }
               relinked = true;
               CNT("splice of an element");
               break;
            }
         case 16:
            {
               bool self = s.below(3) == 0;
               size_t p = s.below(x.size() + 1);
               Seq &z = self ? x : y; C &f = self ? m : o;
               size_t a = s.below(z.size() + 1), b = a + s.below(z.size() - a + 1);
               if (self && p >= a && p < b) p = b; // must not be inside of the range
               TR("%c.splice(%zu, %s, %zu, %zu)\n", 'a' + w, p, self ? "itself" : "other", a, b); what = "splice of a range";
               LIB(m.splice(CIt(at(m, p)), f, CIt(at(f, a)), CIt(at(f, b))), 0);
               Seq part(z.begin() + a, z.begin() + b);
               if (self)
               {
                  if (!(p >= a && p <= b))
                  {
                     x.erase(x.begin() + a, x.begin() + b);
                     if (p > a) p -= b - a;
                     x.insert(x.begin() + p, part.begin(), part.end());
                  }
               }
               else { y.erase(y.begin() + a, y.begin() + b); x.insert(x.begin() + p, part.begin(), part.end()); }
               relinked |= a < b;
               CNT("splice of a range");
               CNT_IF(a == b, "splice of an empty range");
               break;
            }
         case 17:
            sort_both(below<T>);
            watch.begin();
            TR("%c.merge(other), both sorted\n", 'a' + w); what = "merge";
            relinked |= !y.empty();
            LIB(c[w]->merge(*c[1 - w]), 0);
            merge_model(x, y, below<T>);
            CNT("merge");
            break;
         case 18:
            sort_both([](int a, int b) { return decade(a) < decade(b); });
            watch.begin();
            TR("%c.merge(other, by decade), both sorted\n", 'a' + w); what = "merge with an order";
            relinked |= !y.empty();
            LIB(c[w]->merge(*c[1 - w], DecadeLess<T>()), 0);
            merge_model(x, y, [](int a, int b) { return decade(a) < decade(b); });
            CNT("merge with an order");
            break;
         case 19:
            {
               int e = x.empty() || s.below(4) == 0 ? v() : x[s.below(x.size())].v;
               TR("%c.remove(%d)\n", 'a' + w, e); what = "remove";
               T t(e);
               LIB(m.remove(t), 0);
               for (size_t i = x.size(); i--;) if (same<T>(x[i].v, e)) x.erase(x.begin() + i);
               CNT("remove");
               break;
            }
         case 20:
            {
               Mod<T> f; f.m = s.range(1, 5); f.r = s.below(f.m);
               TR("%c.remove_if(== %d mod %d)\n", 'a' + w, f.r, f.m); what = "remove_if";
               LIB(m.remove_if(f), 0);
               for (size_t i = x.size(); i--;) if (((x[i].v % f.m) + f.m) % f.m == f.r) x.erase(x.begin() + i);
               CNT("remove_if");
               break;
            }
         case 21:
         case 22: // of the runs, the first stays
            {
               int kind = s.below(3);
               // make runs likely
               if (s.coin())
                  for (unsigned n = s.below(4); n--;)
                  {
                     size_t p = s.below(x.size() + 1); int e = p ? x[p - 1].v : v();
                     T t(e);
                     TR("%c.insert(%zu, %d)\n", 'a' + w, p, e);
                     LIB(m.insert(CIt(at(m, p)), t));
                     x.insert(x.begin() + p, fresh(e));
                  }
               Seq out;
               if (WATCH) { full(w, "insert"); watch.begin(); }
               TR("%c.unique(%s)\n", 'a' + w, kind == 0 ? "" : kind == 1 ? "same decade" : "follows closely"); what = "unique";
               if (kind == 0) LIB(m.unique(), 0);
               else if (kind == 1) LIB(m.unique(DecadeSame<T>()), 0);
               else LIB(m.unique(Follows<T>()), 0);
               for (size_t i = 0; i < x.size(); ++i)
               {
                  bool dup = false;
                  if (!out.empty())
                  {
                     int a = x[i].v, b = out.back().v;
                     dup = kind == 0 ? same<T>(a, b) : kind == 1 ? decade(a) == decade(b) : a >= b && a <= b + 3;
                  }
                  if (!dup) out.push_back(x[i]);
               }
               CNT_IF(out.size() < x.size(), "unique removing elements");
               x = out;
               CNT("unique");
               break;
            }
         case 23: TR("%c.reverse()\n", 'a' + w); what = "reverse"; LIB(m.reverse(), 0); std::reverse(x.begin(), x.end()); relinked |= x.size() > 1; CNT("reverse"); break;
         case 24:
            {
               bool self = s.below(8) == 0;
               TR("%c.swap(%s)\n", 'a' + w, self ? "itself" : "other"); what = "swap";
               LIB(m.swap(self ? m : o), 0);
               if (!self) x.swap(y);
               relinked = true;
               CNT("swap");
               break;
            }
         case 25:
            {
               TR("%c = copy of %c\n", 'a' + (1 - w), 'a' + w); what = "copy construction";
               C *n = LIB(new C(m));
               Ints in; for (size_t i = 0; i < x.size(); ++i) in.push_back(x[i].v);
               replace(1 - w, n, in);
               CNT("copy construction");
               break;
            }
         case 26:
            {
               TR("%c = %c\n", 'a' + w, 'a' + (1 - w)); what = "assignment";
               LIB(m = o, 0);
               x = y; for (size_t i = 0; i < x.size(); ++i) x[i].at = 0;
               CNT("assignment");
               break;
            }
         case 27:
            {
               Ints in = values(amount());
               C *n;
               if (s.coin())
               {
                  TR("%c: new%s\n", 'a' + w, show(in).c_str());
                  n = LIB(new C(in.begin(), in.end()));
               }
               else
               {
                  int e = v(); in.assign(in.size(), e);
                  TR("%c: new(%zu, %d)\n", 'a' + w, in.size(), e);
                  T t(e);
                  n = LIB(new C((size_t)in.size(), t));
               }
               what = "construction";
               replace(w, n, in);
               CNT("construction");
               break;
            }
         case 28:
            if (!x.empty())
            {
               size_t p = s.below(x.size()); int e = v();
               TR("%c[%zu] = %d\n", 'a' + w, p, e); what = "writing an element";
               if (p == 0) m.front() = T(e); else if (p == x.size() - 1) m.back() = T(e); else *at(m, p) = T(e);
               x[p].v = e;
            }
            break;
         }
         peak = std::max(peak, r[w].size());
         if (WATCH) watched(what);
         full(w, what);
         full(1 - w, what);
         if (WATCH) watch.verdict();
      }
      LIB(delete c[0], 0); LIB(delete c[1], 0);
      watch.finish();
      if (peak >= 4 && relinked) s.nontrivial();
   }
};
#endif
