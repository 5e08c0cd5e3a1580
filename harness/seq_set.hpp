// Histories over two ttl::sets against std::set.
#ifndef SEQ_SET_HPP
#define SEQ_SET_HPP
#include "elems.hpp"
#include "ttl/set.hpp"
#include "ttl/algorithm.hpp"
#include <map>
#include <set>

using pbt::Src;

template<typename K, typename Cmp, typename ICmp>
struct SetCase
{
   typedef ttl::set<K,Cmp> Set;
   typedef std::set<int,ICmp> Ref;
   typedef typename Set::iterator It;
   typedef typename Set::const_iterator CIt;
   Set *m[2];
   Ref r[2];
   Src &s;
   Watch watch; unsigned made;
   std::map<int, std::pair<const void *, It> > held[2]; // taken when an element was first seen
   unsigned U;
   size_t peak; bool erased, missed;

   SetCase(Src &src): s(src), made(0), U(4), peak(0), erased(false), missed(false) { m[0] = m[1] = 0; }
   int key() { return (int)s.below(U) - (int)(U / 4); }

   void same_at(const Set &c, const Ref &ref, CIt i, typename Ref::const_iterator j, const char *what)
   {
      if (j == ref.end())
         MODEL(i == c.end() && !(i != c.end()), "%s: not at the end", what);
      else
      {
         MODEL(i != c.end() && !(i == c.end()), "%s: at the end instead of at %d", what, *j);
         MODEL(val(*i) == *j && val(*i.operator->()) == *j, "%s: at %d instead of %d", what, val(*i), *j);
      }
   }
   void holding(int w)
   {
      Set &mm = *m[w]; const Ref &ref = r[w];
      typedef typename std::map<int, std::pair<const void *, It> >::iterator H;
      It b = mm.end();
      const void *after = 0;
      // from the last one back
      for (typename Ref::const_iterator j = ref.end(); j != ref.begin();)
      {
         --j; --b;
         MODEL(val(*b) == *j, "backward traversal");
         const void *here = &*b;
         H h = held[w].find(*j);
         if (h == held[w].end()) h = held[w].insert(std::make_pair(*j, std::make_pair(here, b))).first;
         CHECK(h->second.first == here, "the element %d has moved to another place", *j);
         It i = h->second.second;
         CHECK(i == b && &*i == here, "the iterator to %d does not denote it any more", *j);
         ++i;
         CHECK(after ? i != mm.end() && &*i == after : i == mm.end(), "the iterator to %d is not in front of the next one any more", *j);
         --i;
         CHECK(&*i == here, "the iterator to %d does not come back to it", *j);
         after = here;
      }
   }
   void full(int w)
   {
      Set &mm = *m[w]; const Set &c = mm; const Ref &ref = r[w];
      if (WATCH & WATCH_ITER) holding(w);
      MODEL(c.empty() == ref.empty(), "empty() is %d with %zu elements", c.empty(), ref.size());
      CIt i = c.begin();
      typename Ref::const_iterator j = ref.begin();
      for (; j != ref.end(); ++i, ++j)
         same_at(c, ref, i, j, "forward traversal");
      same_at(c, ref, i, j, "forward traversal");
      It x = mm.end();
      for (size_t n = ref.size(); n--;)
      {
         --x; --j;
         same_at(c, ref, x, j, "backward traversal");
      }
      MODEL(x == mm.begin() && c.cbegin() == x, "backward traversal does not end at begin()");
   }
   void lookups(int w, int k)
   {
      Set &mm = *m[w]; const Set &c = mm; const Ref &ref = r[w];
      STEP();
      TR("%c lookups of %d\n", 'a' + w, k);
      typename Ref::const_iterator j = ref.find(k);
      if (j == ref.end()) { missed = true; CNT("lookup absent"); } else CNT("lookup present");
      same_at(c, ref, LIB(mm.find(K(k))), j, "find");
      same_at(c, ref, LIB(c.find(K(k))), j, "find const");
      MODEL(LIB(c.count(K(k))) == ref.count(k), "count(%d) is %zu", k, c.count(K(k)));
      same_at(c, ref, LIB(mm.lower_bound(K(k))), ref.lower_bound(k), "lower_bound");
      same_at(c, ref, LIB(c.lower_bound(K(k))), ref.lower_bound(k), "lower_bound const");
      same_at(c, ref, LIB(mm.upper_bound(K(k))), ref.upper_bound(k), "upper_bound");
      same_at(c, ref, LIB(c.upper_bound(K(k))), ref.upper_bound(k), "upper_bound const");
      same_at(c, ref, LIB(mm.equal_range(K(k))).first, ref.lower_bound(k), "equal_range first");
      same_at(c, ref, LIB(mm.equal_range(K(k))).second, ref.upper_bound(k), "equal_range second");
      same_at(c, ref, LIB(c.equal_range(K(k))).first, ref.lower_bound(k), "equal_range const first");
      same_at(c, ref, LIB(c.equal_range(K(k))).second, ref.upper_bound(k), "equal_range const second");
   }
   void insert(int w, int k)
   {
      Set &mm = *m[w]; Ref &ref = r[w];
      STEP();
      TR("%c.insert(%d)\n", 'a' + w, k);
      ttl::pair<It,bool> re = LIB(mm.insert(K(k)));
      std::pair<typename Ref::iterator,bool> rr = ref.insert(k);
      MODEL(re.second == rr.second, "insert(%d) returns %d", k, re.second);
      same_at(mm, ref, re.first, rr.first, "the result of insert");
      if (rr.second) CNT("insert new"); else CNT("insert existing");
   }
   void erase(int w, int k)
   {
      Set &mm = *m[w]; Ref &ref = r[w];
      STEP();
      TR("%c.erase(%d)\n", 'a' + w, k);
      size_t n = LIB(mm.erase(K(k))), rn = ref.erase(k);
      held[w].erase(k);
      MODEL(n == rn, "erase(%d) returns %zu instead of %zu", k, n, rn);
      if (rn) { erased = true; CNT("erase present"); } else CNT("erase absent");
   }
   int existing(int w)
   {
      if (r[w].empty()) return key();
      typename Ref::iterator i = r[w].begin();
      std::advance(i, s.below(r[w].size()));
      return *i;
   }
   void run()
   {
      static const unsigned us[] = { 4, 12, 40, 200, 1000 };
      U = us[s.below(5)];
      const size_t bulk = bulk_size(s);
      if (bulk) U = (unsigned)bulk * 3;
      const unsigned len = bulk > 1000 ? 5 : s.below(4) == 0 ? (s.below(4) == 0 ? 400 : 100) : 24;
      const unsigned profile = s.below(4);
      m[0] = LIB(new Set); m[1] = LIB(new Set);
      TR("set<%s> universe %u\n", Name<K>::s(), U);
      if (bulk)
      {
         BulkKeys key_of(s, bulk);
         for (size_t i = 0; i < bulk; ++i) { const int k = key_of(i) - (int)(U / 4); insert(0, k); }
         full(0);
      }
      for (unsigned steps = bulk > 1000 ? 8 : (unsigned)-1; steps-- && s.more(len);)
      {
         int w = s.below(8) == 0;
         watch.begin(); made = 0;
         const size_t had = r[0].size() + r[1].size();
         static const unsigned prof[4][10] = {
            //ins er ero bulk copy asg clr look seq drain
            { 14, 4, 6, 2, 1, 1, 1, 6, 4, 1 },
            { 24, 2, 2, 2, 1, 1, 0, 6, 8, 0 },
            { 10, 8, 9, 3, 1, 1, 1, 6, 6, 2 },
            { 5,  6, 6, 2, 2, 1, 1, 6, 12, 2 },
         };
         switch (s.weighted(prof[profile]))
         {
         case 0: insert(w, key()); break;
         case 1: erase(w, key()); break;
         case 2: erase(w, existing(w)); break;
         case 3:
            {
               Ints src;
               unsigned n = s.below(12);
               for (unsigned i = 0; i < n; ++i) src.push_back(key());
               TR("%c.insert(range %s)\n", 'a' + w, show(src).c_str());
               STEP();
               if (s.below(3) == 0)
               {
                  Set *n2 = LIB(new Set(src.begin(), src.end()));
                  Ref r2(src.begin(), src.end());
                  TR("  as a new set\n");
                  LIB(delete m[w], 0);
                  m[w] = n2; r[w] = r2; held[w].clear(); made = r2.size() + 1;
                  CNT("range construction");
               }
               else
               {
                  LIB((m[w]->insert(src.begin(), src.end()), 0));
                  r[w].insert(src.begin(), src.end());
                  CNT("range insert");
               }
               break;
            }
         case 4:
            {
               STEP();
               TR("%c = copy of %c\n", 'a' + (1 - w), 'a' + w);
               Set *n2 = LIB(new Set(*m[w]));
               LIB(delete m[1 - w], 0);
               m[1 - w] = n2; r[1 - w] = r[w]; held[1 - w].clear(); made = r[w].size() + 1;
               CNT("copy construction");
               full(w);
               full(1 - w);
               break;
            }
         case 5:
            STEP();
            TR("%c = %c (assignment)\n", 'a' + w, 'a' + (1 - w));
            LIB(*m[w] = *m[1 - w], 0); r[w] = r[1 - w]; held[w].clear(); made = r[w].size();
            CNT("assignment");
            break;
         case 6:
            STEP();
            TR("%c.clear()\n", 'a' + w);
            LIB(m[w]->clear(), 0); r[w].clear(); held[w].clear();
            CNT("clear");
            break;
         case 7: { int k = s.coin() ? key() : existing(w) + s.range(-1, 1); lookups(w, k); break; }
         case 8:
            {
               unsigned n = 1 + s.below(16); int step = s.coin() ? 1 : -1;
               int k = key();
               for (unsigned i = 0; i < n; ++i, k += step) insert(w, k);
               break;
            }
         case 9:
            {
               unsigned left = s.below(4); bool low = s.coin();
               while (r[w].size() > left)
                  erase(w, low ? *r[w].begin() : *r[w].rbegin());
               CNT("drain");
               break;
            }
         }
         if (WATCH)
         {
            const size_t n = r[0].size() + r[1].size();
            watch.end("an operation", n * 1, n + 2, n + 2, made ? made : n > had ? n - had : 0);
         }
         peak = std::max(peak, r[w].size());
         if (r[w].size() <= 48 || s.below(8) == 0) full(w);
         if (WATCH) watch.verdict();
      }
      for (int w = 0; w < 2; ++w)
      {
         full(w);
         for (int i = 0; i < 3; ++i) lookups(w, key());
         LIB(delete m[w], 0);
      }
      watch.finish();
      if (peak >= 8 && erased && missed) s.nontrivial();
      CNT_IF(peak >= 64, "case with >= 64 elements");
   }
};
#endif
