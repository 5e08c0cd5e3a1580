// Histories over two vectors (ttl::vector or ttl::fixed_vector) against a
// plain sequence which is cut off at LIMIT elements after every operation.
#ifndef SEQ_VEC_HPP
#define SEQ_VEC_HPP
#include "elems.hpp"
#include <list>

template<typename C, typename T, size_t LIMIT, bool FIXED>
struct VecCase
{
   C *c[2];
   Ints r[2];
   pbt::Src &s;
   Watch watch;
   size_t peak, bulk; bool inserted_mid, erased_mid, overflow;
   VecCase(pbt::Src &src): s(src), peak(0), bulk(0), inserted_mid(false), erased_mid(false), overflow(false) {}
   int v() { return (int)s.below(2000) - 1000; }

   static void cut(Ints &x) { if (x.size() > LIMIT) x.resize(LIMIT); }

   void full(int w, const char *after)
   {
      C &m = *c[w]; const C &k = m; const Ints &ref = r[w];
      MODEL(k.size() == ref.size(), "after %s: size() is %zu instead of %zu", after, (size_t)k.size(), ref.size());
      MODEL(k.empty() == ref.empty(), "after %s: empty() is %d with %zu elements", after, k.empty(), ref.size());
      MODEL(k.capacity() >= ref.size(), "after %s: capacity %zu below the size %zu", after, (size_t)k.capacity(), ref.size());
      MODEL((size_t)(k.end() - k.begin()) == ref.size(), "after %s: end() - begin()", after);
      MODEL(m.begin() == k.begin() && k.begin() == k.cbegin() && m.end() == k.end() && k.end() == k.cend(), "after %s: begin/end differ", after);
      MODEL(m.data() == k.data() && (ref.empty() || m.data() == m.begin()), "after %s: data() is not begin()", after);
      size_t i = 0;
      for (typename C::const_iterator p = k.begin(); p != k.end(); ++p, ++i)
         MODEL(val(*p) == ref[i], "after %s: element %zu is %d instead of %d", after, i, val(*p), ref[i]);
      if (ref.empty()) return;
      MODEL(&m.front() == m.begin() && &k.front() == k.begin() && &m.back() == m.end() - 1 && &k.back() == k.end() - 1, "after %s: front/back", after);
      size_t j = s.below(ref.size());
      MODEL(&m[j] == m.begin() + j && &k[j] == k.begin() + j && &m.at(j) == m.begin() + j && &k.at(j) == k.begin() + j, "after %s: [%zu] or at", after, j);
   }
   void pos_is(C &m, typename C::iterator i, size_t want, const char *what)
   {
      MODEL(i - m.begin() == (ptrdiff_t)want, "%s returns position %zd instead of %zu", what, (ssize_t)(i - m.begin()), want);
   }
   size_t amount()
   {
      if (bulk && !s.below(4)) return bulk + s.below(3) - 1;
      // few, or around the limit of a fixed one
      static const unsigned w[] = { 8, 3, 1 };
      switch (s.weighted(w))
      {
      case 0: return s.below(5);
      case 1: return s.below(FIXED ? LIMIT + 3 : 20);
      default: return s.below(FIXED ? 2 * LIMIT + 3 : 70);
      }
   }
   // counts which no vector of a bounded capacity can hold, also such that a
   // count of bytes or an address wraps around
   size_t count()
   {
      if (!FIXED || s.below(12)) return amount();
      static const size_t base[] = { 0, (size_t)1 << 31, (size_t)1 << 32, (size_t)1 << 63, (size_t)1 << 62, (size_t)1 << 61, (size_t)-1 / sizeof(T) + 1, (size_t)-1 / sizeof(T) / 2 };
      CNT("counts out of all proportion");
      return base[s.below(8)] - 1 - LIMIT + s.below(2 * LIMIT + 3);
   }
   static size_t fit(size_t n) { return FIXED && n > LIMIT ? LIMIT : n; }
   Ints values(size_t n)
   {
      Ints x;
      if (n > 100) { Lcg g(s); for (size_t i = 0; i < n; ++i) x.push_back((int)g.below(2000) - 1000); }
      else for (size_t i = 0; i < n; ++i) x.push_back(v());
      return x;
   }
   template<typename X> static auto do_reserve(X &x, size_t n, int) -> decltype(x.reserve(n)) { x.reserve(n); }
   template<typename X> static void do_reserve(X &, size_t, long) {}

   void replace(int w, C *n, const Ints &x)
   {
      LIB(delete c[w], 0);
      c[w] = n; r[w] = x; cut(r[w]);
   }
   void run()
   {
      c[0] = LIB(new C); c[1] = LIB(new C);
      TR("%s<%s> limit %zu\n", FIXED ? "fixed_vector" : "vector", Name<T>::s(), LIMIT == (size_t)-1 ? (size_t)0 : LIMIT);
      bulk = bulk_size(s);
      if (FIXED && bulk > LIMIT) bulk = LIMIT;
      const unsigned len = bulk > 1000 ? 5 : s.below(4) == 0 ? 80 : 20;
      if (bulk)
      {
         r[0] = values(bulk);
         TR("a: %zu elements\n", bulk);
         if (bulk > 1000) { const int *q = r[0].data(); LIB(c[0]->insert(c[0]->cend(), q, q + bulk), 0); } // push_back moves all of them every time
         else for (size_t i = 0; i < bulk; ++i) { T t(r[0][i]); LIB(c[0]->push_back(t), 0); }
         full(0, "push_back of many");
         if (WATCH & WATCH_LIFE) CHECK(REG().live == bulk, "after push_back of many: %zu elements are alive instead of %zu", REG().live, bulk);
      }
      static const unsigned prof[3][18] = {
         // pb  pop ins insn insr er  err rsz rszv rsv clr asn asr swp cpy asg ctor wr
         { 10, 3,  6,  5,   5,   4,  5,  2,  3,   3,  1,  2,  2,  1,  2,  2,  2,   3 },
         { 14, 1,  8,  6,   6,   2,  2,  2,  3,   5,  0,  1,  1,  1,  1,  1,  1,   2 },
         { 6,  4,  4,  3,   3,   7,  8,  3,  3,   2,  1,  2,  2,  2,  2,  2,  2,   3 },
      };
      const unsigned pr = s.below(3);
      const char *what = "construction";
      for (unsigned steps = bulk > 1000 ? 8 : (unsigned)-1; steps-- && s.more(len);)
      {
         int w = s.below(4) == 0;
         C &m = *c[w]; Ints &x = r[w];
         STEP();
         watch.begin(); what = "nothing";
         const size_t capacity = m.capacity();
         size_t before = x.size(), asked = 0;
         const void *const blocks[2] = { c[0]->begin(), c[1]->begin() };
         switch (s.weighted(prof[pr]))
         {
         case 0:
            {
               int e = v();
               TR("%c.push_back(%d)\n", 'a' + w, e); what = "push_back";
               T t(e);
               LIB(m.push_back(t), 0); x.push_back(e);
               CNT("push_back");
               break;
            }
         case 1:
            if (x.empty()) break;
            TR("%c.pop_back()\n", 'a' + w); what = "pop_back";
            LIB(m.pop_back(), 0); x.pop_back();
            CNT("pop_back");
            break;
         case 2:
            {
               size_t p = s.below(x.size() + 1); int e = v();
               TR("%c.insert(%zu, %d)\n", 'a' + w, p, e); what = "insert";
               T t(e);
               typename C::iterator i = LIB(m.insert(m.cbegin() + p, t));
               x.insert(x.begin() + p, e);
               pos_is(m, i, p, what);
               inserted_mid |= p < before;
               CNT("insert");
               break;
            }
         case 3:
            {
               size_t p = s.below(x.size() + 1), n = count(); int e = v();
               TR("%c.insert(%zu, %zu, %d)\n", 'a' + w, p, n, e); what = "insert of n";
               T t(e);
               typename C::iterator i = LIB(m.insert(m.cbegin() + p, (size_t)n, t));
               x.insert(x.begin() + p, fit(n), e);
               pos_is(m, i, p, what);
               inserted_mid |= p < before && n;
               CNT("insert of n");
               break;
            }
         case 4:
            {
               size_t p = s.below(x.size() + 1);
               bool other = s.below(3) == 0;
               Ints in = other ? r[1 - w] : values(amount());
               size_t a = 0, b = in.size();
               if (other) { a = s.below(in.size() + 1); b = a + s.below(in.size() - a + 1); }
               TR("%c.insert(%zu, %s[%zu, %zu))%s\n", 'a' + w, p, other ? "other" : "range", a, b, other ? "" : show(in).c_str()); what = "insert of a range";
               typename C::iterator i;
               if (other) { const C &o = *c[1 - w]; i = LIB(m.insert(m.cbegin() + p, o.begin() + a, o.begin() + b)); }
               else if (s.coin()) { const int *q = in.data(); i = LIB(m.insert(m.cbegin() + p, q + a, q + b)); }
               else
               {
                  std::vector<T> ts(in.begin(), in.end());
                  i = LIB(m.insert(m.cbegin() + p, ts.begin() + a, ts.begin() + b));
               }
               x.insert(x.begin() + p, in.begin() + a, in.begin() + b);
               pos_is(m, i, p, what);
               inserted_mid |= p < before && a < b;
               CNT("insert of a range");
               break;
            }
         case 5:
            {
               if (x.empty()) break;
               size_t p = s.below(x.size());
               TR("%c.erase(%zu)\n", 'a' + w, p); what = "erase";
               typename C::iterator i = LIB(m.erase(m.cbegin() + p));
               x.erase(x.begin() + p);
               pos_is(m, i, p, what);
               erased_mid |= p < x.size();
               CNT("erase");
               break;
            }
         case 6:
            {
               size_t p = s.below(x.size() + 1), q = p + s.below(x.size() - p + 1);
               TR("%c.erase(%zu, %zu)\n", 'a' + w, p, q); what = "erase of a range";
               typename C::iterator i = LIB(m.erase(m.cbegin() + p, m.cbegin() + q));
               x.erase(x.begin() + p, x.begin() + q);
               pos_is(m, i, p, what);
               erased_mid |= p < q && p < x.size();
               CNT("erase of a range");
               CNT_IF(p == q, "erase of an empty range");
               break;
            }
         case 7:
            {
               size_t n = count();
               if (s.coin()) n = s.below(x.size() + 1);
               TR("%c.resize(%zu)\n", 'a' + w, n); what = "resize";
               LIB(m.resize(n), 0); x.resize(fit(n), 0);
               CNT("resize");
               break;
            }
         case 8:
            {
               size_t n = count(); int e = v();
               if (n < 10000 && s.coin()) n += x.size();
               TR("%c.resize(%zu, %d)\n", 'a' + w, n, e); what = "resize with a value";
               T t(e);
               LIB(m.resize(n, t), 0); x.resize(fit(n), e);
               CNT("resize with a value");
               break;
            }
         case 9:
            if (!FIXED)
            {
               size_t n = x.size() + s.below(12);
               if (s.below(4) == 0) n = s.below(x.size() + 1);
               TR("%c.reserve(%zu)\n", 'a' + w, n); what = "reserve";
               asked = n;
               LIB(do_reserve(m, n, 0), 0);
               MODEL(m.capacity() >= n, "reserve(%zu) leaves a capacity of %zu", n, (size_t)m.capacity());
               CNT("reserve");
            }
            break;
         case 10:
            TR("%c.clear()\n", 'a' + w); what = "clear";
            LIB(m.clear(), 0); x.clear();
            CNT("clear");
            break;
         case 11:
            {
               size_t n = count(); int e = v();
               TR("%c.assign(%zu, %d)\n", 'a' + w, n, e); what = "assign of n";
               T t(e);
               LIB(m.assign((size_t)n, t), 0); x.assign(fit(n), e);
               CNT("assign of n");
               break;
            }
         case 12:
            {
               const size_t n = amount();
               if (n > 1000) break; // it appends them one by one
               Ints in = values(n);
               TR("%c.assign(%s)\n", 'a' + w, show(in).c_str()); what = "assign of a range";
               if (s.coin()) { std::list<int> l(in.begin(), in.end()); LIB(m.assign(l.begin(), l.end()), 0); }
               else { std::vector<T> l(in.begin(), in.end()); LIB(m.assign(l.data(), l.data() + l.size()), 0); }
               x = in;
               CNT("assign of a range");
               break;
            }
         case 13:
            TR("a.swap(b)\n"); what = "swap";
            LIB(c[w]->swap(*c[1 - w]), 0);
            r[0].swap(r[1]);
            CNT("swap");
            full(1 - w, what);
            break;
         case 14:
            TR("%c = copy of %c\n", 'a' + (1 - w), 'a' + w); what = "copy construction";
            { C *n = LIB(new C(*c[w])); replace(1 - w, n, r[w]); }
            full(1 - w, what);
            CNT("copy construction");
            break;
         case 15:
            TR("%c = %c\n", 'a' + w, 'a' + (1 - w)); what = "assignment";
            LIB(m = *c[1 - w], 0);
            x = r[1 - w];
            full(1 - w, what);
            CNT("assignment");
            break;
         case 16:
            {
               size_t n = count(); int e = v();
               C *nc; Ints nx;
               switch (n > 10000 ? s.below(2) : s.below(4))
               {
               case 0: TR("%c: new(%zu)\n", 'a' + w, n); what = "construction of n"; nc = LIB(new C((size_t)n)); nx.assign(fit(n), 0); break;
               case 1:
                  {
                     TR("%c: new(%zu, %d)\n", 'a' + w, n, e); what = "construction of n values";
                     T t(e);
                     nc = LIB(new C((size_t)n, t)); nx.assign(fit(n), e);
                     break;
                  }
               case 2:
                  {
                     nx = values(n); const int *q = nx.data();
                     TR("%c: new%s\n", 'a' + w, show(nx).c_str()); what = "construction of a range";
                     nc = LIB(new C(q, q + n));
                     break;
                  }
               default:
                  {
                     nx = values(n);
                     std::vector<T> ts(nx.begin(), nx.end());
                     TR("%c: new%s\n", 'a' + w, show(nx).c_str()); what = "construction of a range";
                     nc = LIB(new C(ts.begin(), ts.end()));
                     break;
                  }
               }
               replace(w, nc, nx);
               CNT("construction");
               break;
            }
         case 17:
            if (!x.empty())
            {
               size_t p = s.below(x.size()); int e = v();
               TR("%c[%zu] = %d\n", 'a' + w, p, e); what = "writing an element";
               switch (s.below(6))
               {
               case 0: m[p] = T(e); break;
               case 1: m.at(p) = T(e); break;
               case 2: p = 0; m.front() = T(e); break;
               case 3: p = x.size() - 1; m.back() = T(e); break;
               case 4: m.data()[p] = T(e); break;
               default: *(m.begin() + p) = T(e); break;
               }
               x[p] = e;
               CNT("writing an element");
            }
            break;
         }
         if (r[w].size() > LIMIT) { overflow = true; CNT("overflow"); cut(r[w]); }
         if ((WATCH & WATCH_ITER) && !FIXED)
         {
            static const char *const keeps[] = { "push_back", "pop_back", "insert", "erase", "resize", "reserve" };
            bool k = false;
            for (size_t i = 0; i < 6; ++i) k |= !strncmp(what, keeps[i], strlen(keeps[i]));
            if (k && before && std::max(r[w].size(), asked) <= capacity)
            {
               CHECK(c[w]->begin() == blocks[w], "%s moved the elements, though the result fits in the capacity of %zu", what, capacity);
               CNT("addresses kept");
            }
            if (!strcmp(what, "swap"))
               CHECK((r[w].empty() || c[w]->begin() == blocks[1 - w]) && (r[1 - w].empty() || c[1 - w]->begin() == blocks[w]), "swap did not exchange the blocks");
         }
         if (WATCH)
         {
            // at most one block for each of them, and none new if the result fits in the old one
            const size_t n = r[0].size() + r[1].size();
            const bool copying = !strncmp(what, "copy", 4) || !strncmp(what, "construction", 12) || !strcmp(what, "assignment");
            const size_t most = FIXED ? 2 : 4;
            watch.end(what, n, FIXED ? 2 : 2 + !r[0].empty() + !r[1].empty(), most,
                      FIXED ? copying : copying ? (size_t)ANY : !strcmp(what, "swap") || std::max(r[w].size(), asked) <= capacity ? 0 : (size_t)ANY);
         }
         peak = std::max(peak, r[w].size());
         full(w, what);
         if (s.below(4) == 0) full(1 - w, "an operation on the other one");
         if (WATCH) watch.verdict();
      }
      full(0, "all"); full(1, "all");
      LIB(delete c[0], 0); LIB(delete c[1], 0);
      watch.finish();
      if (FIXED ? overflow && (inserted_mid || erased_mid) : peak >= 6 && inserted_mid && erased_mid) s.nontrivial();
   }
};
#endif
