// Histories over two singly linked lists (forward_list, backward_list,
// lazy_queue) against plain sequences whose elements have an identity: their
// address.  A position p is "after the first p elements", 0 is before_begin().
#ifndef SEQ_SLIST_HPP
#define SEQ_SLIST_HPP
#include "elems.hpp"
#include <forward_list>
#include <map>
#include <utility>
#include <type_traits>

enum { SL_BACK = 1, SL_SPLICE = 2, SL_RANGE = 4, SL_LAZY = 8, SL_REVERSE = 16 };

template<typename C, typename T, unsigned F>
struct SlistCase
{
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   struct E { int v; const void *at; };
   typedef std::vector<E> Seq;
   C *c[2];
   Seq r[2];
   pbt::Src &s;
   Watch watch;
   std::map<const void *, It> held; // iterators taken when an element was first seen
   size_t peak, bulk; bool tail_op, relinked, reused; unsigned span;
   // lazy_queue: how many nodes each of the queues may be keeping; swap may
   // or may not exchange them, so that there can be several candidates
   typedef std::pair<size_t, size_t> Pools;
   std::vector<Pools> pools;
   uint64_t allocs0, frees0;

   SlistCase(pbt::Src &src): s(src), peak(0), bulk(0), tail_op(false), relinked(false), reused(false), span(1000) { pools.push_back(Pools(0, 0)); allocs0 = frees0 = 0; }
   int v() { return (int)s.below(span) - (int)(span / 4); }
   static E fresh(int v) { E e = { v, 0 }; return e; }
   static std::string show(const Seq &x) { Ints v; for (size_t i = 0; i < x.size(); ++i) v.push_back(x[i].v); return ::show(v); }

   void full(int w, const char *after)
   {
      C &m = *c[w]; const C &k = m; Seq &ref = r[w];
      MODEL(k.empty() == ref.empty(), "after %s: empty() is %d with %zu elements", after, k.empty(), ref.size());
      size_t n = 0;
      CIt last = k.cbefore_begin();
      It here = m.begin();
      for (CIt i = k.begin(); i != k.end(); ++i, ++n, ++here)
      {
         MODEL(n < ref.size(), "after %s: more than %zu elements", after, ref.size());
         MODEL(val(*i) == ref[n].v, "after %s: element %zu of %c is %d instead of %d, of %s", after, n, 'a' + w, val(*i), ref[n].v, show(ref).c_str());
         if (!ref[n].at)
         {
            ref[n].at = &*i;
            if (WATCH & WATCH_ITER) { held.erase(&*i); held.insert(std::make_pair((const void *)&*i, here)); }
         }
         SAME_OBJECT(&*i == ref[n].at, "after %s: element %zu (%d) is not the same object any more", after, n, ref[n].v);
         last = i;
      }
      MODEL(n == ref.size(), "after %s: %zu elements instead of %zu", after, n, ref.size());
      if constexpr (bool(F & (SL_BACK | SL_LAZY)))
         MODEL(k.before_end() == last && k.cbefore_end() == last && CIt(m.before_end()) == last, "after %s: before_end() is not the last element", after);
      if (WATCH & WATCH_ITER)
         for (size_t p = 0; p < n; ++p)
         {
            It h = held.find(ref[p].at)->second;
            CHECK(&*h == ref[p].at && val(*h) == ref[p].v, "after %s: the iterator to element %zu (%d) does not denote it any more", after, p, ref[p].v);
            ++h;
            CHECK(p + 1 < n ? h != m.end() && &*h == ref[p + 1].at : h == m.end(), "after %s: the iterator to element %zu (%d) is not in front of the next one any more", after, p, ref[p].v);
         }
      if (ref.empty()) return;
      MODEL(&m.front() == ref[0].at && &k.front() == ref[0].at, "after %s: front()", after);
      if constexpr (bool(F & (SL_BACK | SL_LAZY)))
         MODEL(&m.back() == ref.back().at && &k.back() == ref.back().at, "after %s: back()", after);
   }
   It at(C &m, size_t p) { It i = m.before_begin(); while (p--) ++i; return i; }
   // the position of a returned iterator
   static size_t index(C &m, It i)
   {
      size_t p = 0;
      if (i == m.end()) { for (It j = m.begin(); j != m.end(); ++j) ++p; return p + 1; }
      for (It j = m.before_begin(); j != i; ++j, ++p) MODEL(j != m.end(), "a returned iterator is not in the list");
      return p;
   }
   Ints values(size_t n)
   {
      Ints x;
      if (n > 100) { Lcg g(s); for (size_t i = 0; i < n; ++i) x.push_back((int)g.below(span) - (int)(span / 4)); }
      else for (size_t i = 0; i < n; ++i) x.push_back(v());
      return x;
   }
   size_t amount() { if (bulk && !s.below(4)) return bulk + s.below(3) - 1; return s.below(8) == 0 ? s.below(30) : s.below(5); }
   static void ins(Seq &x, size_t p, const Ints &in) { Seq t; for (size_t i = 0; i < in.size(); ++i) t.push_back(fresh(in[i])); x.insert(x.begin() + p, t.begin(), t.end()); }
   void replace(int w, C *n, const Ints &x)
   {
      c[w] = n; r[w].clear();
      for (size_t i = 0; i < x.size(); ++i) r[w].push_back(fresh(x[i]));
   }
   // positions at the ends are where the pointers to keep up are
   size_t pos(size_t n)
   {
      switch (s.below(4))
      {
      case 0: return n;
      case 1: return 0;
      default: return s.below(n + 1);
      }
   }

   // lazy_queue: queue w took `add` new elements and then had `kept` erased
   static size_t &pool(Pools &p, int w) { return w ? p.second : p.first; }
   void mark() { allocs0 = pbt::M().lib_allocs; frees0 = pbt::M().lib_frees; }
   // drops the candidates which do not explain the calls of new and delete
   template<typename U> void account(const char *what, U update)
   {
      if constexpr (bool(F & SL_LAZY))
      {
         uint64_t a = pbt::M().lib_allocs - allocs0, f = pbt::M().lib_frees - frees0;
         std::vector<Pools> left;
         size_t wanta = 0, wantf = 0;
         for (size_t i = 0; i < pools.size(); ++i)
         {
            Pools p = pools[i];
            wanta = wantf = 0;
            update(p, wanta, wantf);
            if (a == wanta && f == wantf && std::find(left.begin(), left.end(), p) == left.end()) left.push_back(p);
         }
         ACCOUNT(!left.empty(), "%s: %llu blocks allocated and %llu freed, expected were %zu and %zu", what, (unsigned long long)a, (unsigned long long)f, wanta, wantf);
         pools.swap(left);
      }
   }
   void added(const char *what, int w, size_t n)
   {
      account(what, [&](Pools &p, size_t &wa, size_t &) { size_t u = std::min(n, pool(p, w)); pool(p, w) -= u; wa = n - u; if (u) reused = true; });
   }
   void erased(const char *what, int w, size_t n)
   {
      account(what, [&](Pools &p, size_t &, size_t &) { pool(p, w) += n; });
   }

   // one block for every element (and kept node), and new ones only for new elements
   void watched(const char *what)
   {
      const size_t n = r[0].size() + r[1].size();
      size_t fresh = 0, kept = 0;
      for (int w = 0; w < 2; ++w)
         for (size_t i = 0; i < r[w].size(); ++i) fresh += !r[w][i].at;
      if (F & SL_LAZY) kept = pools[0].first + pools[0].second;
      const bool copying = !strncmp(what, "copy", 4) || !strncmp(what, "construction", 12);
      if (!strcmp(what, "roll_head")) fresh = 0;
      watch.end(what, n, n + kept + 2, n + kept + 2, fresh + copying);
   }
   void run(const char *name)
   {
      c[0] = LIB(new C); c[1] = LIB(new C);
      static const unsigned spans[] = { 1000, 40, 6 };
      span = spans[s.below(3)];
      TR("%s<%s>\n", name, Name<T>::s());
      bulk = bulk_size(s);
      const unsigned len = bulk > 1000 ? 5 : s.below(4) == 0 ? 80 : 20;
      const char *what = "construction";
      const bool back = F & (SL_BACK | SL_LAZY), sp = F & SL_SPLICE, rg = F & SL_RANGE, lz = F & SL_LAZY, rv = F & SL_REVERSE;
      const unsigned prof[3][20] = {
         // pf pb             pop ins insn insr er ers asn             asr             clr rev             spl             spl1            splr            swp cpy asg ctor wr
         { 5, back ? 9u : 0u, 4,  6,  3,   4,   5, 5,  rg ? 1u : 0u,   rg ? 2u : 0u,   2,  rv ? 4u : 0u,   sp ? 4u : 0u,   sp ? 6u : 0u,   sp ? 6u : 0u,   4,  2,  2,  2,   2 },
         { 5, back ? 9u : 0u, 2,  6,  3,   4,   2, 2,  0,              rg ? 1u : 0u,   0,  rv ? 3u : 0u,   sp ? 1u : 0u,   sp ? 6u : 0u,   sp ? 6u : 0u,   2,  1,  1,  1,   1 },
         { 5, back ? 9u : 0u, 8,  3,  1,   1,   6, 5,  0,              0,              2,  rv ? 4u : 0u,   sp ? 2u : 0u,   sp ? 3u : 0u,   sp ? 3u : 0u,   3,  1,  1,  1,   1 } };
      const unsigned pr = s.below(3);
      if (bulk)
      {
         const Ints in = values(bulk);
         TR("a: %zu elements, pushed one by one\n", bulk);
         mark();
         for (size_t i = bulk; i--;) { T t(in[i]); LIB(c[0]->push_front(t), 0); }
         ins(r[0], 0, in);
         added("push_front of many", 0, bulk);
         full(0, "push_front of many");
      }
      for (unsigned steps = bulk > 1000 ? 8 : (unsigned)-1; steps-- && s.more(len);)
      {
         int w = s.below(3) == 0;
         C &m = *c[w]; Seq &x = r[w]; C &o = *c[1 - w]; Seq &y = r[1 - w];
         STEP();
         mark();
         watch.begin(); what = "nothing";
         unsigned op = s.weighted(prof[pr]);
         if (lz && s.below(12) == 0) op = 20 + s.below(2);
         switch (op)
         {
         case 0: { int e = v(); TR("%c.push_front(%d)\n", 'a' + w, e); what = "push_front"; T t(e); LIB(m.push_front(t), 0); x.insert(x.begin(), fresh(e)); added(what, w, 1); CNT("push_front"); break; }
         case 1:
            if constexpr (bool(F & (SL_BACK | SL_LAZY)))
            {
               int e = v(); TR("%c.push_back(%d)\n", 'a' + w, e); what = "push_back";
               T t(e); LIB(m.push_back(t), 0); x.push_back(fresh(e)); added(what, w, 1);
               CNT("push_back");
            }
            break;
         case 2: if (x.empty()) break; TR("%c.pop_front()\n", 'a' + w); what = "pop_front"; tail_op |= x.size() == 1; LIB(m.pop_front(), 0); x.erase(x.begin()); erased(what, w, 1); CNT("pop_front"); break;
         case 3:
            {
               size_t p = pos(x.size()); int e = v();
               TR("%c.insert_after(%zu, %d)\n", 'a' + w, p, e); what = "insert_after";
               tail_op |= p == x.size();
               T t(e);
               CIt q = at(m, p);
               It i = LIB(m.insert_after(q, t));
               x.insert(x.begin() + p, fresh(e));
               MODEL(i != m.end() && index(m, i) == p + 1, "insert_after(%zu) returns position %zu", p, index(m, i));
               added(what, w, 1);
               CNT("insert_after");
               break;
            }
         case 4:
            {
               size_t p = pos(x.size()), n = amount(); int e = v();
               TR("%c.insert_after(%zu, %zu, %d)\n", 'a' + w, p, n, e); what = "insert_after of n";
               tail_op |= p == x.size();
               T t(e);
               CIt q = at(m, p);
               LIB(m.insert_after(q, (size_t)n, t), 0);
               x.insert(x.begin() + p, n, fresh(e));
               added(what, w, n);
               CNT("insert_after of n");
               break;
            }
         case 5:
            {
               size_t p = pos(x.size());
               Ints in;
               what = "insert_after of a range";
               tail_op |= p == x.size();
               CIt q = at(m, p);
               if (s.below(3) == 0)
               {
                  size_t a = s.below(y.size() + 1), b = a + s.below(y.size() - a + 1); // of the other list
                  for (size_t i = a; i < b; ++i) in.push_back(y[i].v);
                  TR("%c.insert_after(%zu, other[%zu, %zu))\n", 'a' + w, p, a, b);
                  CIt f = at(o, a + 1 > y.size() ? a : a + 1), l = f;
                  if (a + 1 > y.size()) f = l = o.end();
                  for (size_t i = a; i < b; ++i) ++l;
                  LIB(m.insert_after(q, f, l), 0);
               }
               else
               {
                  in = values(amount());
                  TR("%c.insert_after(%zu, %s)\n", 'a' + w, p, ::show(in).c_str());
                  if (s.coin()) { std::forward_list<int> l(in.begin(), in.end()); LIB(m.insert_after(q, l.begin(), l.end()), 0); }
                  else { std::vector<T> l(in.begin(), in.end()); LIB(m.insert_after(q, l.begin(), l.end()), 0); }
               }
               ins(x, p, in);
               added(what, w, in.size());
               CNT("insert_after of a range");
               break;
            }
         case 6:
            {
               if (x.empty()) break;
               size_t p = std::min(pos(x.size()), x.size() - 1);
               TR("%c.erase_after(%zu)\n", 'a' + w, p); what = "erase_after";
               tail_op |= p + 1 == x.size();
               CIt q = at(m, p);
               It i = LIB(m.erase_after(q));
               x.erase(x.begin() + p);
               MODEL(index(m, i) == p + 1, "erase_after(%zu) returns position %zu", p, index(m, i));
               erased(what, w, 1);
               CNT("erase_after");
               break;
            }
         case 7:
            {
               // the elements between the positions a and b
               size_t a = std::min(pos(x.size()), x.size()), b = a + 1 + s.below(x.size() - a + 1);
               if (s.below(4) == 0) b = x.size() + 1;
               TR("%c.erase_after(%zu, %zu)\n", 'a' + w, a, b); what = "erase_after of a range";
               tail_op |= b > x.size();
               CIt f = at(m, a), l = at(m, b);
               It i = LIB(m.erase_after(f, l));
               x.erase(x.begin() + a, x.begin() + (b - 1));
               MODEL(index(m, i) == a + 1, "erase_after(%zu, %zu) returns position %zu", a, b, index(m, i));
               erased(what, w, b - 1 - a);
               CNT("erase_after of a range");
               CNT_IF(b == a + 1, "erase_after of an empty range");
               break;
            }
         case 8:
            if constexpr (bool(F & SL_RANGE))
            {
               size_t n = amount(); int e = v();
               TR("%c.assign(%zu, %d)\n", 'a' + w, n, e); what = "assign of n";
               T t(e);
               LIB(m.assign((size_t)n, t), 0);
               x.assign(n, fresh(e));
               CNT("assign of n");
            }
            break;
         case 9:
            if constexpr (bool(F & SL_RANGE))
            {
               Ints in = values(amount());
               TR("%c.assign(%s)\n", 'a' + w, ::show(in).c_str()); what = "assign of a range";
               if (s.coin()) { std::forward_list<int> l(in.begin(), in.end()); LIB(m.assign(l.begin(), l.end()), 0); }
               else { std::vector<T> l(in.begin(), in.end()); LIB(m.assign(l.begin(), l.end()), 0); }
               x.clear(); ins(x, 0, in);
               CNT("assign of a range");
            }
            break;
         case 10: TR("%c.clear()\n", 'a' + w); what = "clear"; tail_op |= !x.empty(); LIB(m.clear(), 0); { size_t n = x.size(); x.clear(); erased(what, w, n); } CNT("clear"); break;
         case 11:
            if constexpr (bool(F & SL_REVERSE))
            {
               TR("%c.reverse()\n", 'a' + w); what = "reverse";
               LIB(m.reverse(), 0); std::reverse(x.begin(), x.end());
               relinked |= x.size() > 1;
               CNT("reverse");
            }
            break;
         case 12:
            if constexpr (bool(F & SL_SPLICE))
            {
               size_t p = pos(x.size());
               TR("%c.splice_after(%zu, other)\n", 'a' + w, p); what = "splice_after of a list";
               CIt q = at(m, p);
               LIB(m.splice_after(q, o), 0);
               relinked |= !y.empty();
               x.insert(x.begin() + p, y.begin(), y.end()); y.clear();
               CNT("splice_after of a list");
            }
            break;
         case 13:
            if constexpr (bool(F & SL_SPLICE))
            {
               bool self = s.coin();
               Seq &z = self ? x : y; C &f = self ? m : o;
               if (z.empty()) break;
               size_t p = pos(x.size()), q = s.below(z.size());
               TR("%c.splice_after(%zu, %s, %zu)\n", 'a' + w, p, self ? "itself" : "other", q); what = "splice_after of an element";
               CIt pp = at(m, p), qq = at(f, q);
               LIB(m.splice_after(pp, f, qq), 0);
               E e = z[q];
               if (self)
               {
                  if (p != q && p != q + 1) { x.erase(x.begin() + q); x.insert(x.begin() + (p > q ? p - 1 : p), e); }
               }
               else { y.erase(y.begin() + q); x.insert(x.begin() + p, e); }
               relinked = true;
               CNT("splice_after of an element");
            }
            break;
         case 14:
            if constexpr (bool(F & SL_SPLICE))
            {
               bool self = s.below(3) == 0;
               Seq &z = self ? x : y; C &f = self ? m : o;
               size_t p = pos(x.size());
               // the elements a .. b - 2 lie between the positions a and b
               size_t a = s.below(z.size() + 1), b = a + 1 + s.below(z.size() - a + 1);
               if (self && p > a && p < b) p = a; // must not be inside of the range
               TR("%c.splice_after(%zu, %s, %zu, %zu)\n", 'a' + w, p, self ? "itself" : "other", a, b); what = "splice_after of a range";
               CIt pp = at(m, p), ff = at(f, a), ll = at(f, b);
               LIB(m.splice_after(pp, f, ff, ll), 0);
               Seq part(z.begin() + a, z.begin() + (b - 1));
               if (self)
               {
                  if (p != a)
                  {
                     x.erase(x.begin() + a, x.begin() + (b - 1));
                     if (p > a) p -= part.size();
                     x.insert(x.begin() + p, part.begin(), part.end());
                  }
               }
               else { y.erase(y.begin() + a, y.begin() + (b - 1)); x.insert(x.begin() + p, part.begin(), part.end()); }
               relinked |= !part.empty();
               CNT("splice_after of a range");
               CNT_IF(part.empty(), "splice_after of an empty range");
            }
            break;
         case 15:
            {
               bool self = s.below(8) == 0;
               TR("%c.swap(%s)\n", 'a' + w, self ? "itself" : "other"); what = "swap";
               LIB(m.swap(self ? m : o), 0);
               if (!self)
               {
                  x.swap(y);
                  if constexpr (bool(F & SL_LAZY)) for (size_t n = pools.size(), i = 0; i < n; ++i) pools.push_back(Pools(pools[i].second, pools[i].first));
               }
               account(what, [](Pools &, size_t &, size_t &) {});
               relinked = tail_op = true;
               CNT("swap");
               break;
            }
         case 16:
            {
               TR("%c = copy of %c\n", 'a' + (1 - w), 'a' + w); what = "copy construction";
               LIB(delete c[1 - w], 0);
               account("destruction", [&](Pools &p, size_t &, size_t &f) { f = 1 + y.size() + pool(p, 1 - w); pool(p, 1 - w) = 0; });
               mark();
               C *n = LIB(new C(m));
               Ints in; for (size_t i = 0; i < x.size(); ++i) in.push_back(x[i].v);
               replace(1 - w, n, in);
               account(what, [&](Pools &, size_t &a, size_t &) { a = 1 + in.size(); });
               CNT("copy construction");
               break;
            }
         case 17:
            {
               bool self = s.below(8) == 0;
               TR("%c = %c\n", 'a' + w, self ? 'a' + w : 'a' + (1 - w)); what = "assignment";
               LIB(m = self ? m : o, 0);
               if (!self)
               {
                  size_t had = x.size();
                  x = y; for (size_t i = 0; i < x.size(); ++i) x[i].at = 0;
                  account(what, [&](Pools &p, size_t &a, size_t &) {
                     size_t have = had + pool(p, w);
                     a = y.size() > have ? y.size() - have : 0;
                     pool(p, w) = have > y.size() ? have - y.size() : 0;
                  });
               }
               CNT("assignment");
               break;
            }
         case 18:
            {
               Ints in = values(amount());
               LIB(delete c[w], 0);
               account("destruction", [&](Pools &p, size_t &, size_t &f) { f = 1 + x.size() + pool(p, w); pool(p, w) = 0; });
               mark();
               C *n = 0;
               if constexpr (bool(F & SL_RANGE))
                  if (s.coin())
                  {
                     TR("%c: new%s\n", 'a' + w, ::show(in).c_str());
                     n = LIB(new C(in.begin(), in.end()));
                  }
               if (!n)
               {
                  int e = v(); in.assign(in.size(), e);
                  TR("%c: new(%zu, %d)\n", 'a' + w, in.size(), e);
                  T t(e);
                  n = LIB(new C((size_t)in.size(), t));
               }
               what = "construction";
               replace(w, n, in);
               account(what, [&](Pools &, size_t &a, size_t &) { a = 1 + in.size(); });
               CNT("construction");
               break;
            }
         case 19:
            if (!x.empty())
            {
               size_t p = s.below(x.size()); int e = v();
               TR("%c[%zu] = %d\n", 'a' + w, p, e); what = "writing an element";
               bool done = false;
               if constexpr (bool(F & (SL_BACK | SL_LAZY)))
                  if (p && p == x.size() - 1) { m.back() = T(e); done = true; }
               if (done) ; else if (p == 0) m.front() = T(e); else *at(m, p + 1) = T(e);
               x[p].v = e;
            }
            break;
         case 20:
            if constexpr (bool(F & SL_LAZY))
            {
               TR("%c.cleanup()\n", 'a' + w); what = "cleanup";
               LIB(m.cleanup(), 0);
               account(what, [&](Pools &p, size_t &, size_t &f) { f = pool(p, w); pool(p, w) = 0; });
               CNT("cleanup");
            }
            break;
         case 21:
            if constexpr (bool(F & SL_LAZY))
            {
               TR("%c.roll_head()\n", 'a' + w); what = "roll_head";
               LIB(m.roll_head(), 0);
               if (!x.empty()) { E e = x[0]; e.at = 0; x.erase(x.begin()); x.push_back(e); }
               account(what, [&](Pools &, size_t &, size_t &) {});
               CNT("roll_head");
            }
            break;
         }
         peak = std::max(peak, r[w].size());
         if (WATCH) watched(what);
         full(w, what);
         full(1 - w, what);
         if (WATCH) watch.verdict();
      }
      mark();
      LIB(delete c[0], 0); LIB(delete c[1], 0);
      watch.finish();
      account("destruction", [&](Pools &p, size_t &, size_t &f) { f = 2 + r[0].size() + r[1].size() + p.first + p.second; });
      if (peak >= 4 && (lz ? reused && tail_op : back ? tail_op && relinked : relinked)) s.nontrivial();
   }
};
#endif
