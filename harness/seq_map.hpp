// Histories over two ttl::maps against std::map.
#ifndef SEQ_MAP_HPP
#define SEQ_MAP_HPP
#include "elems.hpp"
#include "ttl/map.hpp"
#include "ttl/algorithm.hpp"
#include <map>

using pbt::Src;

template<typename K, typename V, typename Cmp, typename ICmp>
struct MapCase
{
   typedef ttl::map<K,V,Cmp> Map;
   typedef std::map<int,int,ICmp> Ref;
   typedef typename Map::iterator It;
   typedef typename Map::const_iterator CIt;
   Map *m[2];
   Ref r[2];
   Src &s;
   Watch watch; unsigned made;
   std::map<int, std::pair<const void *, It> > held[2]; // taken when an element was first seen
   unsigned U;
   size_t peak; bool erased, missed;

   MapCase(Src &src): s(src), made(0), U(4), peak(0), erased(false), missed(false)
   {
      m[0] = m[1] = 0;
   }
   ~MapCase() { }
   int key() { return (int)s.below(U) - (int)(U / 4); }

   // traversal from a position to the end
   void same_at(const Map &c, const Ref &ref, CIt i, typename Ref::const_iterator j, const char *what)
   {
      if (j == ref.end())
         MODEL(i == c.end() && !(i != c.end()), "%s: not at the end", what);
      else
      {
         MODEL(i != c.end() && !(i == c.end()), "%s: at the end instead of at key %d", what, j->first);
         MODEL(val(i->first) == j->first, "%s: at key %d instead of %d", what, val(i->first), j->first);
         MODEL(val((*i).second) == j->second, "%s: key %d has value %d instead of %d", what, j->first, val(i->second), j->second);
      }
   }
   void holding(int w)
   {
      Map &mm = *m[w]; const Ref &ref = r[w];
      typedef typename std::map<int, std::pair<const void *, It> >::iterator H;
      It b = mm.end();
      const void *after = 0;
      // from the last one back
      for (typename Ref::const_iterator j = ref.end(); j != ref.begin();)
      {
         --j; --b;
         MODEL(val(b->first) == j->first, "backward traversal");
         const void *here = &*b;
         H h = held[w].find(j->first);
         if (h == held[w].end()) h = held[w].insert(std::make_pair(j->first, std::make_pair(here, b))).first;
         CHECK(h->second.first == here, "the element %d has moved to another place", j->first);
         It i = h->second.second;
         CHECK(i == b && &*i == here, "the iterator to %d does not denote it any more", j->first);
         ++i;
         CHECK(after ? i != mm.end() && &*i == after : i == mm.end(), "the iterator to %d is not in front of the next one any more", j->first);
         --i;
         CHECK(&*i == here, "the iterator to %d does not come back to it", j->first);
         after = here;
      }
   }
   void full(int w)
   {
      Map &mm = *m[w]; const Map &c = mm; const Ref &ref = r[w];
      if (WATCH & WATCH_ITER) holding(w);
      MODEL(c.empty() == ref.empty(), "empty() is %d with %zu elements", c.empty(), ref.size());
      CIt i = c.begin();
      typename Ref::const_iterator j = ref.begin();
      for (; j != ref.end(); ++i, ++j)
         same_at(c, ref, i, j, "forward traversal");
      same_at(c, ref, i, j, "forward traversal");
      It x = mm.end();
      for (size_t n = ref.size(); n--;)
      {
         --x; --j;
         same_at(c, ref, x, j, "backward traversal");
      }
      MODEL(x == mm.begin() && c.cbegin() == x, "backward traversal does not end at begin()");
   }
   void lookups(int w, int k)
   {
      Map &mm = *m[w]; const Map &c = mm; const Ref &ref = r[w];
      STEP();
      TR("%c lookups of %d\n", 'a' + w, k);
      typename Ref::const_iterator j = ref.find(k);
      if (j == ref.end()) { missed = true; CNT("lookup absent"); } else CNT("lookup present");
      same_at(c, ref, LIB(mm.find(K(k))), j, "find");
      same_at(c, ref, LIB(c.find(K(k))), j, "find const");
      MODEL(LIB(c.count(K(k))) == ref.count(k), "count(%d) is %zu", k, c.count(K(k)));
      same_at(c, ref, LIB(mm.lower_bound(K(k))), ref.lower_bound(k), "lower_bound");
      same_at(c, ref, LIB(c.lower_bound(K(k))), ref.lower_bound(k), "lower_bound const");
      same_at(c, ref, LIB(mm.upper_bound(K(k))), ref.upper_bound(k), "upper_bound");
      same_at(c, ref, LIB(c.upper_bound(K(k))), ref.upper_bound(k), "upper_bound const");
      same_at(c, ref, LIB(mm.equal_range(K(k))).first, ref.lower_bound(k), "equal_range first");
      same_at(c, ref, LIB(mm.equal_range(K(k))).second, ref.upper_bound(k), "equal_range second");
      same_at(c, ref, LIB(c.equal_range(K(k))).first, ref.lower_bound(k), "equal_range const first");
      same_at(c, ref, LIB(c.equal_range(K(k))).second, ref.upper_bound(k), "equal_range const second");
      if (j != ref.end())
      {
         MODEL(val(mm.at(K(k))) == j->second, "at(%d) is %d instead of %d", k, val(mm.at(K(k))), j->second);
         MODEL(val(c.at(K(k))) == j->second, "at(%d) const", k);
      }
      if (!ref.empty())
      {
         typename Ref::const_iterator x = ref.begin();
         const typename Map::value_type e((K(k)), V(1)), &b = *c.begin();
         const typename Map::value_compare vc = typename Map::value_compare();
         MODEL(vc(e, b) == ref.key_comp()(k, x->first) && vc(b, e) == ref.key_comp()(x->first, k), "value_compare of the keys %d and %d", k, x->first);
      }
   }
   void insert(int w, int k, int v)
   {
      Map &mm = *m[w]; Ref &ref = r[w];
      STEP();
      TR("%c.insert(%d, %d)\n", 'a' + w, k, v);
      typename Map::value_type e((K(k)), V(v));
      ttl::pair<It,bool> re = LIB(mm.insert(e));
      std::pair<typename Ref::iterator,bool> rr = ref.insert(std::make_pair(k, v));
      MODEL(re.second == rr.second, "insert(%d) returns %d", k, re.second);
      same_at(mm, ref, re.first, rr.first, "the result of insert");
      if (rr.second) CNT("insert new"); else CNT("insert existing");
   }
   void erase(int w, int k)
   {
      Map &mm = *m[w]; Ref &ref = r[w];
      STEP();
      TR("%c.erase(%d)\n", 'a' + w, k);
      size_t n = LIB(mm.erase(K(k))), rn = ref.erase(k);
      held[w].erase(k);
      MODEL(n == rn, "erase(%d) returns %zu instead of %zu", k, n, rn);
      if (rn) erased = true, CNT("erase present"); else CNT("erase absent");
   }
   int existing(int w)
   {
      if (r[w].empty()) return key();
      typename Ref::iterator i = r[w].begin();
      std::advance(i, s.below(r[w].size()));
      return i->first;
   }
   void run()
   {
      static const unsigned us[] = { 4, 12, 40, 200, 1000 };
      U = us[s.below(5)];
      const size_t bulk = bulk_size(s);
      if (bulk) U = (unsigned)bulk * 3;
      const unsigned len = bulk > 1000 ? 5 : s.below(4) == 0 ? (s.below(4) == 0 ? 400 : 100) : 24;
      const unsigned profile = s.below(4);
      m[0] = LIB(new Map); m[1] = LIB(new Map);
      TR("map<%s,%s> universe %u\n", Name<K>::s(), Name<V>::s(), U);
      int seqk = 0;
      if (bulk)
      {
         BulkKeys key_of(s, bulk);
         for (size_t i = 0; i < bulk; ++i) { const int k = key_of(i) - (int)(U / 4); insert(0, k, k * 3); }
         full(0);
      }
      for (unsigned steps = bulk > 1000 ? 8 : (unsigned)-1; steps-- && s.more(len);)
      {
         int w = s.below(8) == 0;
         watch.begin(); made = 0;
         const size_t had = r[0].size() + r[1].size();
         static const unsigned prof[4][13] = {
            //ins [] at er ero bulk copy asg clr look seq mod drain
            { 10, 5, 2, 4, 6, 2, 1, 1, 1, 6, 4, 2, 1 },
            { 20, 6, 2, 2, 2, 2, 1, 1, 0, 6, 8, 2, 0 },
            { 8,  4, 2, 8, 9, 3, 1, 1, 1, 6, 6, 2, 2 },
            { 3,  2, 1, 2, 6, 6, 2, 2, 1, 6, 12, 2, 2 },
         };
         switch (s.weighted(prof[profile]))
         {
         case 0: { int k = key(), v = s.below(1000); insert(w, k, v); break; }
         case 1:
            {
               int k = key(), v = s.below(1000);
               STEP();
               TR("%c[%d] = %d\n", 'a' + w, k, v);
               V &x = LIB((*m[w])[K(k)]);
               int old = r[w][k];
               MODEL(val(x) == old, "[%d] yields %d instead of %d", k, val(x), old);
               x = V(v); r[w][k] = v;
               CNT("[]=");
               break;
            }
         case 2:
            if (!r[w].empty())
            {
               int k = existing(w), v = s.below(1000);
               STEP();
               TR("%c.at(%d) = %d\n", 'a' + w, k, v);
               LIB(m[w]->at(K(k))) = V(v); r[w][k] = v;
               CNT("at=");
            }
            break;
         case 3: erase(w, key()); break;
         case 4: erase(w, existing(w)); break;
         case 5:
            {
               // a range, by random access or by list iterators of pairs
               std::vector<std::pair<int,int> > src;
               unsigned n = s.below(12);
               TR("%c.insert(range):", 'a' + w);
               for (unsigned i = 0; i < n; ++i)
               {
                  int k = key(), v = s.below(1000);
                  src.push_back(std::make_pair(k, v));
                  TR(" %d:%d", k, v);
               }
               TR("\n");
               STEP();
               if (s.below(3) == 0)
               {
                  // construction from the range
                  Map *n2 = LIB(new Map(src.begin(), src.end()));
                  Ref r2(src.begin(), src.end());
                  TR("  as a new map\n");
                  LIB(delete m[w], 0);
                  m[w] = n2; r[w] = r2; held[w].clear(); made = r2.size() + 1;
                  CNT("range construction");
               }
               else
               {
                  LIB((m[w]->insert(src.begin(), src.end()), 0));
                  r[w].insert(src.begin(), src.end());
                  CNT("range insert");
               }
               break;
            }
         case 6:
            {
               STEP();
               TR("%c = copy of %c\n", 'a' + (1 - w), 'a' + w);
               Map *n2 = LIB(new Map(*m[w]));
               LIB(delete m[1 - w], 0);
               m[1 - w] = n2; r[1 - w] = r[w]; held[1 - w].clear(); made = r[w].size() + 1;
               CNT("copy construction");
               full(w);
               break;
            }
         case 7:
            STEP();
            TR("%c = %c (assignment)\n", 'a' + w, 'a' + (1 - w));
            LIB(*m[w] = *m[1 - w], 0); r[w] = r[1 - w]; held[w].clear(); made = r[w].size();
            CNT("assignment");
            break;
         case 8:
            STEP();
            TR("%c.clear()\n", 'a' + w);
            LIB(m[w]->clear(), 0); r[w].clear(); held[w].clear();
            CNT("clear");
            break;
         case 9: { int k = s.coin() ? key() : existing(w) + s.range(-1, 1); lookups(w, k); break; }
         case 10:
            {
               // a run of neighbouring keys, up or down
               unsigned n = 1 + s.below(16); int step = s.coin() ? 1 : -1;
               seqk = key();
               for (unsigned i = 0; i < n; ++i, seqk += step) insert(w, seqk, seqk * 3);
               break;
            }
         case 11:
            if (!r[w].empty())
            {
               // change a value through an iterator
               unsigned n = s.below(r[w].size()); int v = s.below(1000);
               It i = m[w]->begin(); typename Ref::iterator j = r[w].begin();
               while (n--) { i++; ++j; }
               STEP();
               TR("%c: *it(%d) = %d\n", 'a' + w, j->first, v);
               i->second = V(v); j->second = v;
               CNT("value through iterator");
            }
            break;
         case 12:
            {
               // erase most of the elements from one side
               unsigned left = s.below(4); bool low = s.coin();
               while (r[w].size() > left)
                  erase(w, low ? r[w].begin()->first : r[w].rbegin()->first);
               CNT("drain");
               break;
            }
         }
         if (WATCH)
         {
            const size_t n = r[0].size() + r[1].size();
            watch.end("an operation", n * 2, n + 2, n + 2, made ? made : n > had ? n - had : 0);
         }
         peak = std::max(peak, r[w].size());
         if (r[w].size() <= 48 || s.below(8) == 0) full(w);
         if (WATCH) watch.verdict();
      }
      for (int w = 0; w < 2; ++w)
      {
         full(w);
         for (int i = 0; i < 3; ++i) lookups(w, key());
         LIB(delete m[w], 0);
      }
      watch.finish();
      if (peak >= 8 && erased && missed) s.nontrivial();
      CNT_IF(peak >= 64, "case with >= 64 elements");
   }
};
#endif
