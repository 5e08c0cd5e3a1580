// Histories over two ttl::sorted_vector_maps against std::map.
#ifndef SEQ_SVMAP_HPP
#define SEQ_SVMAP_HPP
#include "elems.hpp"
#include "ttl/sorted_vector_map.hpp"
#include <map>

using pbt::Src;

template<typename K, typename V, typename Cmp, typename ICmp>
struct SvMapCase
{
   typedef ttl::sorted_vector_map<K,V,Cmp> Map;
   typedef std::map<int,int,ICmp> Ref;
   typedef typename Map::iterator It;
   typedef typename Map::const_iterator CIt;
   Map *m[2];
   Ref r[2];
   Src &s;
   Watch watch;
   std::map<int, const void *> held[2]; // where an element was first seen
   unsigned U;
   size_t peak; bool mid, missed;
   SvMapCase(Src &src): s(src), peak(0), mid(false), missed(false) { m[0] = m[1] = 0; }
   int key() { return (int)s.below(U) - (int)(U / 4); }
   int near(int w)
   {
      if (r[w].empty() || s.coin()) return key();
      typename Ref::iterator i = r[w].begin();
      std::advance(i, s.below(r[w].size()));
      return i->first + s.range(-1, 1);
   }
   void same_at(const Map &c, const Ref &ref, CIt i, typename Ref::const_iterator j, const char *what)
   {
      if (j == ref.end())
         MODEL(i == c.end() && !(i != c.end()), "%s: not at the end", what);
      else
      {
         MODEL(i != c.end() && !(i == c.end()), "%s: at the end instead of at key %d", what, j->first);
         MODEL(val(i->first) == j->first, "%s: at key %d instead of %d", what, val(i->first), j->first);
         MODEL(val((*i).second) == j->second, "%s: key %d has value %d instead of %d", what, j->first, val(i->second), j->second);
      }
   }
   void full(int w, const char *after)
   {
      Map &mm = *m[w]; const Map &c = mm; const Ref &ref = r[w];
      MODEL(c.empty() == ref.empty(), "after %s: empty() is %d with %zu elements", after, c.empty(), ref.size());
      MODEL(c.size() == ref.size(), "after %s: size() is %zu instead of %zu", after, (size_t)c.size(), ref.size());
      CIt i = c.begin();
      typename Ref::const_iterator j = ref.begin();
      for (; j != ref.end(); ++i, ++j) same_at(c, ref, i, j, after);
      same_at(c, ref, i, j, after);
      It x = mm.end();
      for (size_t n = ref.size(); n--;)
      {
         --x; --j;
         same_at(c, ref, x, j, after);
      }
      MODEL(x == mm.begin() && c.cbegin() == x, "after %s: backward traversal does not end at begin()", after);
      if (WATCH & WATCH_ITER)
         for (i = c.begin(), j = ref.begin(); j != ref.end(); ++i, ++j)
            CHECK(held[w].insert(std::make_pair(j->first, (const void *)&*i)).first->second == &*i, "after %s: the element %d has moved to another place", after, j->first);
   }
   template<typename P> void range_is(const Map &c, const Ref &ref, const P &p, int k, const char *what)
   {
      if (ref.count(k))
      {
         same_at(c, ref, p.first, ref.find(k), what);
         same_at(c, ref, p.second, ref.upper_bound(k), what);
      }
      else
         MODEL(p.first == p.second, "%s of the absent key %d is not empty", what, k);
   }
   void lookups(int w, int k)
   {
      Map &mm = *m[w]; const Map &c = mm; const Ref &ref = r[w];
      STEP();
      TR("%c lookups of %d\n", 'a' + w, k);
      typename Ref::const_iterator j = ref.find(k);
      if (j == ref.end()) { missed = true; CNT("lookup absent"); } else CNT("lookup present");
      const K kk(k);
      same_at(c, ref, LIB(mm.find(kk)), j, "find");
      same_at(c, ref, LIB(c.find(kk)), j, "find const");
      MODEL(LIB(c.count(kk)) == ref.count(k), "count(%d) is %zu", k, (size_t)c.count(kk));
      same_at(c, ref, LIB(mm.lower_bound(kk)), ref.lower_bound(k), "lower_bound");
      same_at(c, ref, LIB(c.lower_bound(kk)), ref.lower_bound(k), "lower_bound const");
      same_at(c, ref, LIB(mm.upper_bound(kk)), ref.upper_bound(k), "upper_bound");
      same_at(c, ref, LIB(c.upper_bound(kk)), ref.upper_bound(k), "upper_bound const");
      range_is(c, ref, LIB(mm.equal_range(kk)), k, "equal_range");
      range_is(c, ref, LIB(c.equal_range(kk)), k, "equal_range const");
      if (j != ref.end())
      {
         MODEL(val(mm.at(kk)) == j->second, "at(%d) is %d instead of %d", k, val(mm.at(kk)), j->second);
         MODEL(val(c.at(kk)) == j->second, "at(%d) const", k);
      }
      if (!ref.empty())
      {
         typename Ref::const_iterator x = ref.begin();
         const typename Map::value_type e(kk, V(1)), &b = *c.begin();
         const typename Map::value_compare vc = c.value_comp();
         const typename Map::key_compare kc = c.key_comp();
         const bool one = ref.key_comp()(k, x->first), two = ref.key_comp()(x->first, k);
         MODEL(vc(e, b) == one && vc(b, e) == two, "value_comp() of the keys %d and %d", k, x->first);
         MODEL(kc(kk, b.first) == one && kc(b.first, kk) == two, "key_comp() of the keys %d and %d", k, x->first);
      }
   }
   void insert(int w, int k, int v)
   {
      Map &mm = *m[w]; Ref &ref = r[w];
      STEP();
      TR("%c.insert(%d, %d)\n", 'a' + w, k, v);
      typename Map::value_type e((K(k)), V(v));
      mid |= !ref.count(k) && ref.upper_bound(k) != ref.end();
      ttl::pair<It,bool> re = LIB(mm.insert(e));
      std::pair<typename Ref::iterator,bool> rr = ref.insert(std::make_pair(k, v));
      MODEL(re.second == rr.second, "insert(%d) returns %d", k, re.second);
      same_at(mm, ref, re.first, rr.first, "the result of insert");
      if (rr.second) CNT("insert new"); else CNT("insert existing");
   }
   void run()
   {
      static const unsigned us[] = { 4, 12, 40, 120, 400 };
      U = us[s.below(5)];
      const size_t bulk = bulk_size(s);
      if (bulk) U = (unsigned)bulk * 3;
      const unsigned len = bulk > 1000 ? 5 : s.below(4) == 0 ? 80 : 24;
      m[0] = LIB(new Map); m[1] = LIB(new Map((typename Map::size_type)s.below(9)));
      TR("sorted_vector_map<%s,%s> universe %u\n", Name<K>::s(), Name<V>::s(), U);
      const char *what = "construction";
      if (bulk)
      {
         BulkKeys key_of(s, bulk);
         if (bulk > 1000) // an insertion at the front moves all pointers, growing does, too
         {
            key_of.how = 0;
            LIB(delete m[0], 0);
            m[0] = LIB(new Map((typename Map::size_type)bulk));
         }
         for (size_t i = 0; i < bulk; ++i) { const int k = key_of(i) - (int)(U / 4); insert(0, k, k * 3); }
         full(0, "insertion of many");
      }
      for (unsigned steps = bulk > 1000 ? 8 : (unsigned)-1; steps-- && s.more(len);)
      {
         int w = s.below(5) == 0;
         watch.begin(); what = "nothing";
         const size_t had = r[0].size() + r[1].size();
         //                          ins [] at clr copy new look run it
         static const unsigned wt[] = { 12, 7, 2, 1, 2, 1,  7,   3,  2 };
         switch (s.weighted(wt))
         {
         case 0: insert(w, near(w), s.below(1000)); what = "insert"; break;
         case 1:
            {
               int k = near(w), v = s.below(1000);
               STEP();
               TR("%c[%d] = %d\n", 'a' + w, k, v); what = "[]";
               V &x = LIB((*m[w])[K(k)]);
               int old = r[w][k];
               MODEL(val(x) == old, "[%d] yields %d instead of %d", k, val(x), old);
               x = V(v); r[w][k] = v;
               CNT("[]=");
               break;
            }
         case 2:
            {
               int k = near(w), v = s.below(1000);
               if (!r[w].count(k)) break;
               STEP();
               TR("%c.at(%d) = %d\n", 'a' + w, k, v); what = "at";
               LIB(m[w]->at(K(k))) = V(v); r[w][k] = v;
               CNT("at=");
               break;
            }
         case 3: STEP(); TR("%c.clear()\n", 'a' + w); what = "clear"; LIB(m[w]->clear(), 0); r[w].clear(); held[w].clear(); CNT("clear"); break;
         case 4:
            {
               STEP();
               TR("%c = copy of %c\n", 'a' + (1 - w), 'a' + w); what = "copy construction";
               Map *n2 = LIB(new Map(*m[w]));
               LIB(delete m[1 - w], 0);
               m[1 - w] = n2; r[1 - w] = r[w]; held[1 - w].clear();
               CNT("copy construction");
               full(1 - w, what);
               break;
            }
         case 5:
            {
               STEP();
               unsigned n = s.below(12);
               TR("%c: new(%u)\n", 'a' + w, n); what = "construction";
               LIB(delete m[w], 0);
               m[w] = LIB(new Map((typename Map::size_type)n)); r[w].clear(); held[w].clear();
               CNT("construction with storage");
               break;
            }
         case 6: lookups(w, near(w)); what = "lookups"; break;
         case 7:
            {
               unsigned n = 1 + s.below(16); int step = s.coin() ? 1 : -1, k = key();
               for (unsigned i = 0; i < n; ++i, k += step) insert(w, k, k * 3);
               what = "insertions";
               break;
            }
         case 8:
            if (!r[w].empty())
            {
               unsigned n = s.below(r[w].size()); int v = s.below(1000);
               It i = m[w]->begin(); typename Ref::iterator j = r[w].begin();
               while (n--) { i++; ++j; }
               STEP();
               TR("%c: *it(%d) = %d\n", 'a' + w, j->first, v); what = "a write";
               i->second = V(v); j->second = v;
               CNT("value through iterator");
            }
            break;
         }
         if (WATCH)
         {
            // a block for every element and one table
            const size_t n = r[0].size() + r[1].size();
            const bool copying = !strncmp(what, "copy", 4) || !strncmp(what, "construction", 12);
            watch.end(what, 2 * n, 2 + n + !r[0].empty() + !r[1].empty(), 4 + n, copying ? (size_t)ANY : 2 * (n > had ? n - had : 0));
         }
         peak = std::max(peak, r[w].size());
         full(w, what);
         if (WATCH) watch.verdict();
      }
      for (int w = 0; w < 2; ++w)
      {
         full(w, "all");
         for (int i = 0; i < 3; ++i) lookups(w, near(w));
         LIB(delete m[w], 0);
      }
      watch.finish();
      if (peak >= 8 && mid && missed) s.nontrivial();
   }
};
#endif
