// Histories over two ttl::vector_maps against a sequence of pairs searched from the front.
#ifndef SEQ_VMAP_HPP
#define SEQ_VMAP_HPP
#include "elems.hpp"
#include "ttl/vector_map.hpp"
#include "ttl/algorithm.hpp"

using pbt::Src;

template<typename K, typename V>
struct VMapCase
{
   typedef ttl::vector_map<K,V> Map;
   typedef typename Map::value_type P;
   typedef std::vector<std::pair<int,int> > Ref;
   typedef typename Map::iterator It;
   typedef typename Map::const_iterator CIt;
   Map *m[2];
   Ref r[2];
   Src &s;
   Watch watch;
   unsigned U;
   size_t peak; bool dup, missed, founddup;
   VMapCase(Src &src): s(src), peak(0), dup(false), missed(false), founddup(false) { m[0] = m[1] = 0; }
   int key() { return (int)s.below(U) - 2; }
   static size_t where(const Ref &x, int k)
   {
      size_t i = 0;
      while (i < x.size() && !same<K>(x[i].first, k)) ++i;
      return i;
   }
   void full(int w, const char *after)
   {
      Map &mm = *m[w]; const Map &c = mm; const Ref &ref = r[w];
      MODEL(c.empty() == ref.empty(), "after %s: empty() is %d with %zu elements", after, c.empty(), ref.size());
      MODEL(c.size() == ref.size() && (size_t)(c.end() - c.begin()) == ref.size(), "after %s: size() is %zu instead of %zu", after, (size_t)c.size(), ref.size());
      MODEL(c.capacity() >= ref.size(), "after %s: capacity", after);
      MODEL(mm.begin() == c.cbegin() && mm.end() == c.cend() && c.begin() == c.cbegin() && c.end() == c.cend(), "after %s: begin/end differ", after);
      size_t n = 0;
      for (CIt i = c.begin(); i != c.end(); ++i, ++n)
         MODEL(val(i->first) == ref[n].first && val(i->second) == ref[n].second, "after %s: pair %zu is %d:%d instead of %d:%d", after, n, val(i->first), val(i->second), ref[n].first, ref[n].second);
      if (ref.empty()) return;
      MODEL(&mm.front() == mm.begin() && &c.back() == c.end() - 1, "after %s: front/back", after);
   }
   void lookups(int w, int k)
   {
      Map &mm = *m[w]; const Map &c = mm; const Ref &ref = r[w];
      TR("%c lookups of %d\n", 'a' + w, k);
      const K kk(k);
      size_t at = where(ref, k), n = 0;
      for (size_t i = 0; i < ref.size(); ++i) n += same<K>(ref[i].first, k);
      It i = LIB(mm.find(kk)); CIt j = LIB(c.find(kk));
      MODEL(i - mm.begin() == (ptrdiff_t)at && j == i, "find(%d) is at %zd instead of %zu", k, (ssize_t)(i - mm.begin()), at);
      MODEL(LIB(c.count(kk)) == n, "count(%d) is %zu instead of %zu", k, (size_t)c.count(kk), n);
      if (n) MODEL(&mm.at(kk) == &i->second && &c.at(kk) == &i->second, "at(%d)", k);
      missed |= !n; founddup |= n > 1;
      if (n > 1) CNT("lookup of a duplicate"); else if (n) CNT("lookup present"); else CNT("lookup absent");
   }
   void run()
   {
      static const unsigned us[] = { 3, 10, 60 };
      U = us[s.below(3)];
      const size_t bulk = bulk_size(s);
      if (bulk) U = (unsigned)bulk * 3;
      const unsigned len = bulk > 1000 ? 5 : s.below(4) == 0 ? 80 : 24;
      m[0] = LIB(new Map); m[1] = LIB(new Map);
      TR("vector_map<%s,%s> universe %u\n", Name<K>::s(), Name<V>::s(), U);
      const char *what = "construction";
      if (bulk)
      {
         BulkKeys key_of(s, bulk);
         if (bulk > 1000) LIB(m[0]->reserve(bulk), 0); // push_back moves all of them every time otherwise
         TR("a: %zu pairs, pushed one by one\n", bulk);
         for (size_t i = 0; i < bulk; ++i)
         {
            const int k = key_of(i);
            dup |= key_of.how == 2;
            P p((K(k)), V(k * 3));
            LIB(m[0]->push_back(p), 0); r[0].push_back(std::make_pair(k, k * 3));
         }
         full(0, "push_back of many");
      }
      for (unsigned steps = bulk > 1000 ? 8 : (unsigned)-1; steps-- && s.more(len);)
      {
         int w = s.below(5) == 0;
         Map &mm = *m[w]; Ref &x = r[w];
         STEP();
         watch.begin(); what = "nothing";
         const size_t capacity = mm.capacity();
         size_t asked = 0;
         //                             pb ins [] at it er ers pop rsz rsv asn clr swp cpy look
         static const unsigned wt[] = { 9, 7,  7, 2, 2, 4, 3,  3,  1,  2,  1,  1,  2,  2,  6 };
         switch (s.weighted(wt))
         {
         case 0:
            {
               int k = key(), v = s.below(1000);
               TR("%c.push_back(%d:%d)\n", 'a' + w, k, v); what = "push_back";
               dup |= where(x, k) < x.size();
               P p((K(k)), V(v));
               LIB(mm.push_back(p), 0); x.push_back(std::make_pair(k, v));
               CNT("push_back");
               break;
            }
         case 1:
            {
               int k = key(), v = s.below(1000);
               TR("%c.insert(%d:%d)\n", 'a' + w, k, v); what = "insert";
               P p((K(k)), V(v));
               size_t at = where(x, k); bool is_new = at == x.size();
               ttl::pair<It,bool> re = LIB(mm.insert(p));
               if (is_new) x.push_back(std::make_pair(k, v));
               MODEL(re.second == is_new, "insert(%d) returns %d", k, re.second);
               MODEL(re.first - mm.begin() == (ptrdiff_t)at, "insert(%d) returns position %zd instead of %zu", k, (ssize_t)(re.first - mm.begin()), at);
               if (is_new) CNT("insert new"); else CNT("insert existing");
               break;
            }
         case 2:
            {
               int k = key(), v = s.below(1000);
               TR("%c[%d] = %d\n", 'a' + w, k, v); what = "[]";
               size_t at = where(x, k);
               V &y = LIB(mm[K(k)]);
               if (at == x.size()) { x.push_back(std::make_pair(k, 0)); CNT("[] new"); } else CNT("[] existing");
               MODEL(val(y) == x[at].second, "[%d] yields %d instead of %d", k, val(y), x[at].second);
               MODEL(&y == &mm.begin()[at].second, "[%d] does not refer to the value of pair %zu", k, at);
               y = V(v); x[at].second = v;
               break;
            }
         case 3:
            {
               int k = key(), v = s.below(1000);
               size_t at = where(x, k);
               if (at == x.size()) break;
               TR("%c.at(%d) = %d\n", 'a' + w, k, v); what = "at";
               LIB(mm.at(K(k))) = V(v); x[at].second = v;
               CNT("at=");
               break;
            }
         case 4:
            if (!x.empty())
            {
               size_t at = s.below(x.size()); int v = s.below(1000);
               TR("%c: pair %zu = %d\n", 'a' + w, at, v); what = "a write";
               (mm.begin() + at)->second = V(v); x[at].second = v;
            }
            break;
         case 5:
            {
               if (x.empty()) break;
               size_t p = s.below(x.size());
               if (s.coin()) p = where(x, x[p].first);
               TR("%c.erase(%zu)\n", 'a' + w, p); what = "erase";
               It i = LIB(mm.erase(mm.cbegin() + p));
               x.erase(x.begin() + p);
               MODEL(i - mm.begin() == (ptrdiff_t)p, "erase returns another position");
               CNT("erase");
               break;
            }
         case 6:
            {
               size_t p = s.below(x.size() + 1), q = p + s.below(x.size() - p + 1);
               TR("%c.erase(%zu, %zu)\n", 'a' + w, p, q); what = "erase of a range";
               It i = LIB(mm.erase(mm.cbegin() + p, mm.cbegin() + q));
               x.erase(x.begin() + p, x.begin() + q);
               MODEL(i - mm.begin() == (ptrdiff_t)p, "erase returns another position");
               CNT("erase of a range");
               break;
            }
         case 7: if (x.empty()) break; TR("%c.pop_back()\n", 'a' + w); what = "pop_back"; LIB(mm.pop_back(), 0); x.pop_back(); CNT("pop_back"); break;
         case 8:
            {
               size_t n = s.below(x.size() + 4);
               TR("%c.resize(%zu)\n", 'a' + w, n); what = "resize";
               LIB(mm.resize(n), 0); x.resize(n);
               CNT("resize");
               break;
            }
         case 9:
            {
               size_t n = s.below(x.size() + 8);
               TR("%c.reserve(%zu)\n", 'a' + w, n); what = "reserve";
               asked = n;
               LIB(mm.reserve(n), 0);
               MODEL(mm.capacity() >= n, "reserve(%zu) leaves a capacity of %zu", n, (size_t)mm.capacity());
               CNT("reserve");
               break;
            }
         case 10:
            if (r[1 - w].size() <= 1000) // it appends them one by one
            {
               TR("%c.assign(the other)\n", 'a' + w); what = "assign";
               const Map &o = *m[1 - w];
               LIB(mm.assign(o.begin(), o.end()), 0); x = r[1 - w];
               CNT("assign");
            }
            break;
         case 11: TR("%c.clear()\n", 'a' + w); what = "clear"; LIB(mm.clear(), 0); x.clear(); CNT("clear"); break;
         case 12: TR("%c.swap(other)\n", 'a' + w); what = "swap"; LIB(mm.swap(*m[1 - w]), 0); x.swap(r[1 - w]); full(1 - w, what); CNT("swap"); break;
         case 13:
            {
               TR("%c = copy of %c\n", 'a' + (1 - w), 'a' + w); what = "copy construction";
               Map *n2 = LIB(new Map(mm));
               LIB(delete m[1 - w], 0);
               m[1 - w] = n2; r[1 - w] = r[w];
               full(1 - w, what);
               CNT("copy construction");
               break;
            }
         case 14: lookups(w, x.empty() || s.coin() ? key() : x[s.below(x.size())].first); what = "lookups"; break;
         }
         if (WATCH)
         {
            const size_t n = r[0].size() + r[1].size();
            watch.end(what, 2 * n, 2 + !r[0].empty() + !r[1].empty(), 4,
                      !strcmp(what, "copy construction") ? (size_t)ANY : !strcmp(what, "swap") || std::max(x.size(), asked) <= capacity ? 0 : (size_t)ANY);
         }
         peak = std::max(peak, r[w].size());
         full(w, what);
         if (WATCH) watch.verdict();
      }
      for (int w = 0; w < 2; ++w)
      {
         full(w, "all");
         for (int i = 0; i < 3; ++i) lookups(w, key());
         LIB(delete m[w], 0);
      }
      watch.finish();
      if (peak >= 6 && dup && missed && founddup) s.nontrivial();
   }
};
#endif
