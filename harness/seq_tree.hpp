// Histories over two ttl::rbtrees against a multimap of (key, identity).
#ifndef SEQ_TREE_HPP
#define SEQ_TREE_HPP
#include "elems.hpp"
#include "ttl/types.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/rbtree.hpp"
#include <map>

using pbt::Src;

template<typename K, typename KV, typename Sel, typename Cmp, typename ICmp>
struct TreeCase
{
   typedef ttl::rbtree<K,KV,Sel,Cmp> Tree;
   typedef typename Tree::node Node;
   typedef std::multimap<int,int,ICmp> Ref; // key -> identity, equals in the order of insertion
   Tree *m[2];
   Ref r[2];
   Src &s;
   Watch watch; unsigned made;
   std::map<int, const Node *> held[2]; // by identity, taken when a record was first seen
   unsigned U;
   int fresh;
   size_t peak; bool dups, removed;
   ICmp icmp;
   bool eqv(int a, int b) { return !icmp(a, b) && !icmp(b, a); }
   TreeCase(Src &src): s(src), made(0), U(4), fresh(0), peak(0), dups(false), removed(false) { m[0] = m[1] = 0; }
   int key() { return (int)s.below(U) - (int)(U / 4); }
   static int keyof(const Node *n) { return val(Sel()(n->data)); }

   // by overload: the identity of a record
   static int id_of(const ttl::pair<K,int> &p) { return p.second; }
   static int id_of(const K &) { return 0; }
   static ttl::pair<K,int> make(int k, int id, ttl::pair<K,int> *) { return ttl::pair<K,int>(K(k), id); }
   static K make(int k, int, K *) { return K(k); }

   void full(int w)
   {
      Tree &t = *m[w]; const Ref &ref = r[w];
      MODEL((t.get_root() == 0) == ref.empty(), "root %s with %zu elements", t.get_root() ? "set" : "null", ref.size());
      MODEL(t.get_root() == t.get_croot(), "get_croot differs from get_root");
      if (ref.empty()) return;
      // the sequence of keys, and the multiset of identities below each of them
      std::vector<std::pair<int,int> > got;
      ttl::rbnode *n = ttl::rbtree_base::min_node(t.get_root());
      typename Ref::const_iterator j = ref.begin();
      for (; n != t.end(); n = ttl::rbtree_base::next_node(n), ++j)
      {
         MODEL(j != ref.end(), "the traversal yields more than the %zu elements", ref.size());
         const Node *d = static_cast<Node *>(n);
         MODEL(keyof(d) == j->first, "key %d instead of %d at position %zu", keyof(d), j->first, got.size());
         got.push_back(std::make_pair(keyof(d), id_of(d->data)));
         if ((WATCH & WATCH_ITER) && id_of(d->data))
         {
            typename std::map<int, const Node *>::iterator h = held[w].find(got.back().second);
            if (h == held[w].end()) held[w][got.back().second] = d;
            else CHECK(h->second == d, "record #%d (key %d) has moved to another node", got.back().second, got.back().first);
         }
      }
      MODEL(j == ref.end(), "the traversal yields %zu of the %zu elements", got.size(), ref.size());
      std::vector<std::pair<int,int> > a(got), b(ref.begin(), ref.end());
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      MODEL(a == b, "the records differ");
      // and those with equal keys come in the order they were inserted
      size_t q = 0;
      for (j = ref.begin(); j != ref.end(); ++j, ++q)
         MODEL(got[q].second == j->second, "at position %zu (key %d) is record #%d instead of #%d", q, j->first, got[q].second, j->second);
      n = ttl::rbtree_base::max_node(t.get_root());
      for (size_t i = got.size(); i-- > 0;)
      {
         MODEL(keyof(static_cast<Node *>(n)) == got[i].first && id_of(static_cast<Node *>(n)->data) == got[i].second,
               "backward traversal differs from the forward one at position %zu", i);
         if (i) n = ttl::rbtree_base::prev_node(n);
      }
      MODEL(n == ttl::rbtree_base::min_node(t.get_root()), "backward traversal does not end at the least node");
   }
   // position of a node in the traversal
   size_t pos(int w, const Node *n)
   {
      size_t p = 0;
      ttl::rbnode *i = m[w]->get_root() ? ttl::rbtree_base::min_node(m[w]->get_root()) : m[w]->end();
      for (; i != m[w]->end(); i = ttl::rbtree_base::next_node(i), ++p)
         if (i == n) return p;
      MODEL(n == m[w]->end(), "the returned node is not in the tree");
      return p;
   }
   void lookups(int w, int k)
   {
      Tree &t = *m[w]; const Tree &c = t; const Ref &ref = r[w];
      STEP();
      TR("%c lookups of %d\n", 'a' + w, k);
      size_t lo = std::distance(ref.begin(), ref.lower_bound(k)), up = std::distance(ref.begin(), ref.upper_bound(k));
      Node *f = LIB(t.find(K(k)));
      const Node *cf = LIB(c.find(K(k)));
      if (lo == up)
      {
         MODEL(f == t.end() && cf == c.end(), "find(%d) found something", k);
         CNT("lookup absent");
      }
      else
      {
         MODEL(f != t.end() && eqv(keyof(f), k), "find(%d) did not find it", k);
         MODEL(cf != c.end() && eqv(keyof(cf), k), "find(%d) const did not find it", k);
         if (up - lo > 1) CNT("lookup of duplicates"); else CNT("lookup present");
      }
      MODEL(pos(w, LIB(t.lower_bound(K(k)))) == lo, "lower_bound(%d) is at %zu instead of %zu", k, pos(w, t.lower_bound(K(k))), lo);
      MODEL(pos(w, LIB(c.lower_bound(K(k)))) == lo, "lower_bound(%d) const", k);
      MODEL(pos(w, LIB(t.upper_bound(K(k)))) == up, "upper_bound(%d) is at %zu instead of %zu", k, pos(w, t.upper_bound(K(k))), up);
      MODEL(pos(w, LIB(c.upper_bound(K(k)))) == up, "upper_bound(%d) const", k);
      MODEL(pos(w, LIB(t.equal_range(K(k))).first) == lo && pos(w, LIB(t.equal_range(K(k))).second) == up, "equal_range(%d)", k);
      MODEL(pos(w, LIB(c.equal_range(K(k))).first) == lo && pos(w, LIB(c.equal_range(K(k))).second) == up, "equal_range(%d) const", k);
      MODEL(LIB(c.count(K(k))) == up - lo, "count(%d) is %zu instead of %zu", k, c.count(K(k)), up - lo);
   }
   void insert(int w, int k, bool unique)
   {
      Tree &t = *m[w]; Ref &ref = r[w];
      STEP();
      const int id = ++fresh;
      TR("%c.insert_%s(%d #%d)\n", 'a' + w, unique ? "unique" : "equal", k, id);
      KV data(make(k, id, (KV *)0));
      bool present = ref.count(k) != 0;
      const int rid = id_of(data);
      if (unique)
      {
         ttl::pair<Node *,bool> re = LIB(t.insert_unique(data));
         MODEL(re.second == !present, "insert_unique(%d) returns %d", k, re.second);
         MODEL(re.first && re.first != t.end() && eqv(keyof(re.first), k), "insert_unique(%d) returns a node with another key", k);
         if (!present) MODEL(id_of(re.first->data) == rid, "insert_unique(%d) returns another record", k);
         else CNT("insert_unique existing");
         if (!present) ref.insert(std::make_pair(k, rid));
      }
      else
      {
         Node *n = LIB(t.insert_equal(data));
         MODEL(n && n != t.end() && keyof(n) == k && id_of(n->data) == rid, "insert_equal(%d) returns another record", k);
         if (present) dups = true, CNT("insert_equal existing");
         ref.insert(std::make_pair(k, rid));
      }
   }
   void remove(int w, int k)
   {
      Tree &t = *m[w]; Ref &ref = r[w];
      STEP();
      TR("%c.remove(%d)\n", 'a' + w, k);
      Node *n = LIB(t.remove(K(k)));
      std::pair<typename Ref::iterator, typename Ref::iterator> er = ref.equal_range(k);
      if (er.first == er.second)
      {
         MODEL(!n, "remove(%d) returned a node for an absent key", k);
         CNT("remove absent");
         return;
      }
      MODEL(n, "remove(%d) did not find the key", k);
      MODEL(n != t.end() && eqv(keyof(n), k), "remove(%d) removed key %d", k, keyof(n));
      int id = id_of(n->data);
      typename Ref::iterator i = er.first;
      while (i != er.second && i->second != id) ++i;
      MODEL(i != er.second, "remove(%d) returned an unknown record", k);
      ref.erase(i);
      if (WATCH & WATCH_ITER) { typename std::map<int, const Node *>::iterator h = held[w].find(id); if (h != held[w].end()) { CHECK(h->second == n, "record #%d (key %d) was in another node before remove", id, k); held[w].erase(h); } }
      // the caller owns the node
      LIB(delete n, 0);
      removed = true;
      CNT("remove present");
   }
   int existing(int w)
   {
      if (r[w].empty()) return key();
      typename Ref::iterator i = r[w].begin();
      std::advance(i, s.below(r[w].size()));
      return i->first;
   }
   void run()
   {
      static const unsigned us[] = { 2, 5, 16, 60, 1000 };
      U = us[s.below(5)];
      const size_t bulk = bulk_size(s);
      if (bulk) U = (unsigned)bulk * 3;
      const unsigned len = bulk > 1000 ? 5 : s.below(4) == 0 ? (s.below(4) == 0 ? 300 : 100) : 24;
      const unsigned profile = s.below(3);
      m[0] = LIB(new Tree); m[1] = LIB(new Tree);
      TR("rbtree<%s> universe %u\n", Name<K>::s(), U);
      if (bulk)
      {
         BulkKeys key_of(s, bulk);
         for (size_t i = 0; i < bulk; ++i) { const int k = key_of(i) - (int)(U / 4); insert(0, k, false); }
         full(0);
      }
      for (unsigned steps = bulk > 1000 ? 8 : (unsigned)-1; steps-- && s.more(len);)
      {
         int w = s.below(8) == 0;
         watch.begin(); made = 0;
         const size_t had = r[0].size() + r[1].size();
         static const unsigned prof[3][8] = {
            //ieq iun rem remo asg clr look seq
            { 10, 5, 4, 6, 1, 1, 5, 4 },
            { 16, 5, 2, 3, 1, 0, 5, 8 },
            { 6,  4, 8, 12, 1, 1, 5, 6 },
         };
         switch (s.weighted(prof[profile]))
         {
         case 0: insert(w, key(), false); break;
         case 1: insert(w, key(), true); break;
         case 2: remove(w, key()); break;
         case 3: remove(w, existing(w)); break;
         case 4:
            STEP();
            TR("%c.assign(%c)\n", 'a' + w, 'a' + (1 - w));
            LIB(m[w]->assign(*m[1 - w]), 0); r[w] = r[1 - w]; held[w].clear(); made = r[w].size();
            CNT("assign");
            full(1 - w);
            break;
         case 5:
            STEP();
            TR("%c.clear()\n", 'a' + w);
            LIB(m[w]->clear(), 0); r[w].clear(); held[w].clear();
            CNT("clear");
            break;
         case 6: { int k = s.coin() ? key() : existing(w) + s.range(-1, 1); lookups(w, k); break; }
         case 7:
            {
               unsigned n = 1 + s.below(16); int step = s.range(-1, 1); bool u = s.below(3) == 0;
               int k = key();
               for (unsigned i = 0; i < n; ++i, k += step) insert(w, k, u);
               break;
            }
         }
         if (WATCH)
         {
            const size_t n = r[0].size() + r[1].size();
            watch.end("an operation", n, n + 2, n + 2, made ? made : n > had ? n - had : 0);
         }
         peak = std::max(peak, r[w].size());
         if (r[w].size() <= 48 || s.below(8) == 0) full(w);
         if (WATCH) watch.verdict();
      }
      for (int w = 0; w < 2; ++w)
      {
         full(w);
         for (int i = 0; i < 3; ++i) lookups(w, key());
         if (s.coin())
         {
            if (r[w].size() <= 600)
               while (!r[w].empty()) { remove(w, existing(w)); full(w); }
            else
            {
               // in the order of the keys or shuffled, with a look now and then
               Ints keys; for (typename Ref::iterator i = r[w].begin(); i != r[w].end(); ++i) keys.push_back(i->first);
               const unsigned how = s.below(3); Lcg g(s);
               for (size_t i = keys.size(); i > 1; --i) if (how == 0) std::swap(keys[i - 1], keys[g.below(i)]);
               if (how == 1) std::reverse(keys.begin(), keys.end());
               for (size_t i = 0; i < keys.size(); ++i) { remove(w, keys[i]); if (i % (keys.size() / 4) == 7) full(w); }
               full(w);
            }
         }
         LIB(delete m[w], 0);
      }
      watch.finish();
      if (peak >= 8 && dups && removed) s.nontrivial();
      CNT_IF(peak >= 64, "case with >= 64 nodes");
   }
};
#endif
