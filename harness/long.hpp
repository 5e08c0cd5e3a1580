// Many operations on long containers, used with a limit of time (C36) and of stack (C38).
#ifndef LONG_HPP
#define LONG_HPP
#include <time.h>
#include "ttl/numeric.hpp"
// Many operations, each of which must not depend on the length of the container.
static double cpu() { struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
enum { LONG_N = 24000 };
static const double LIMIT = 0.6;    // what is right takes some milliseconds
struct Timed
{
   Src &s; const char *what; double from; bool timing;
   Timed(Src &x, bool t = true): s(x), what(0), timing(t) {}
   void start(const char *w) { STEP(); TR("%s\n", w); what = w; from = cpu(); }
   void check() { if (!timing) return; const double t = cpu() - from; CHECK(t < LIMIT, "%s with %d elements takes %.1f s or more", what, (int)LONG_N, LIMIT); }
#define EVERY(i) if (((i) & 255) == 0) check()
   template<class C> void pushes_back(C &c) { start("push_back"); for (int i = 0; i < LONG_N; ++i) { c.push_back(i); EVERY(i); } check(); }
   template<class C> void pushes_front(C &c) { start("push_front"); for (int i = 0; i < LONG_N; ++i) { c.push_front(i); EVERY(i); } check(); }
   template<class C> void pops_front(C &c) { start("pop_front"); for (int i = 0; !c.empty() && i < LONG_N; ++i) { c.pop_front(); EVERY(i); } check(); }
   template<class C> void pops_back(C &c) { start("pop_back"); for (int i = 0; !c.empty() && i < LONG_N; ++i) { c.pop_back(); EVERY(i); } check(); }
   template<class C> void ends(C &c, bool back)
   {
      start("begin, end, empty, front, swap and the like");
      const C &k = c; C other; int x = 0;
      for (int i = 0; i < LONG_N; ++i)
      {
         x += k.empty() + (c.begin() == c.end()) + (k.begin() == k.end()) + (c.cbegin() == c.cend());
         if (!k.empty()) { x += k.front(); (void)back; }
         c.swap(other); other.swap(c);
         EVERY(i);
      }
      check(); (void)x;
   }
   template<class C> void walk(C &c) { start("traversal"); long x = 0; for (typename C::iterator i = c.begin(); i != c.end(); ++i) x += *i; check(); (void)x; }
   template<class C> void insert_after(C &c)
   {
      start("insert_after and erase_after");
      typename C::iterator p = c.before_begin();
      for (int i = 0; i < LONG_N; ++i) { p = c.insert_after(p, i); if (i % 3 == 0) { typename C::iterator q = p; if (++q != c.end()) c.erase_after(p); } EVERY(i); }
      check();
   }
   void list()
   {
      ttl::list<int> a, b;
      if (s.below(4)) pushes_back(a);
      for (int k = 0; k < 4; ++k)
         switch (s.below(9))
         {
         case 0: case 1: pushes_back(a); break;
         case 2: pushes_front(a); break;
         case 3: pops_front(a); break;
         case 4: pops_back(a); break;
         case 5: ends(a, true); if (!a.empty()) { start("back"); long x = 0; for (int i = 0; i < LONG_N; ++i) { x += a.back(); EVERY(i); } check(); (void)x; } break;
         case 6: { start("insert and erase"); ttl::list<int>::iterator p = a.begin(); for (int i = 0; i < LONG_N; ++i) { p = a.insert(p, i); if (i % 3 == 0) p = a.erase(p); else if (i & 1) ++p; EVERY(i); } check(); break; }
         case 7: { start("splice"); for (int i = 0; i < LONG_N; ++i) { b.splice(b.begin(), a); a.splice(a.end(), b); if (!a.empty()) b.splice(b.begin(), a, a.begin()); a.splice(a.begin(), b, b.begin(), b.end()); EVERY(i); } check(); break; }
         default: walk(a); start("resize, remove, unique, merge, reverse, copy, assignment, == and clear"); { ttl::list<int> c(a); CHECK(c.size() == a.size(), "size() of a copy"); c.reverse(); b.clear(); (void)(c == a); b = c; b.merge(c); b.remove(7); b.unique(); a.swap(b); b.clear(); b.resize((size_t)LONG_N, 3); b.assign((size_t)LONG_N, 4); c.assign(a.begin(), a.end()); c.resize(5); b.remove_if([](int v) { return v == 4; }); } check(); break;
         }
   }
   template<class C> void slist_rest(C &, C &, long) {}
   template<class C> auto slist_rest(C &a, C &b, int) -> decltype((void)a.splice_after(a.before_begin(), b))
   {
      start("splice_after of one element");
      for (int i = 0; i < LONG_N; ++i) { if (!a.empty()) b.splice_after(b.before_begin(), a, a.before_begin()); if (!b.empty()) a.splice_after(a.before_begin(), b, b.before_begin()); EVERY(i); }
      check();
   }
   void forward()
   {
      ttl::forward_list<int> a, b;
      if (s.below(4)) pushes_front(a);
      for (int k = 0; k < 4; ++k)
         switch (s.below(7))
         {
         case 0: case 1: pushes_front(a); break;
         case 2: pops_front(a); break;
         case 3: ends(a, false); break;
         case 4: insert_after(a); break;
         case 5: slist_rest(a, b, 0); break;
         default: walk(a); start("reverse, copy, assignment, == and clear"); { ttl::forward_list<int> c(a); c.reverse(); (void)(c == a); b = c; a.swap(b); b.clear(); } check(); break;
         }
   }
   void backward()
   {
      ttl::backward_list<int> a, b;
      if (s.below(4)) pushes_back(a);
      for (int k = 0; k < 4; ++k)
         switch (s.below(9))
         {
         case 0: case 1: pushes_back(a); break;
         case 2: pushes_front(a); break;
         case 3: pops_front(a); break;
         case 4: ends(a, true); break;
         case 5: insert_after(a); break;
         case 6: slist_rest(a, b, 0); break;
         case 7: if (!a.empty()) { start("back and before_end"); long x = 0; for (int i = 0; i < LONG_N; ++i) { x += a.back(); x += *a.before_end(); EVERY(i); } check(); (void)x; } break;
         default: walk(a); start("reverse, copy, assignment, == and clear"); { ttl::backward_list<int> c(a); c.reverse(); (void)(c == a); b = c; a.swap(b); b.clear(); } check(); break;
         }
   }
   void queue()
   {
      ttl::lazy_queue<int> a, b;
      if (s.below(4)) pushes_back(a);
      for (int k = 0; k < 5; ++k)
         switch (s.below(8))
         {
         case 0: case 1: pushes_back(a); break;
         case 2: pushes_front(a); break;
         case 3: pops_front(a); break;
         case 4: ends(a, true); break;
         case 5: insert_after(a); break;
         case 6: { start("push_back and pop_front in turn"); for (int i = 0; i < LONG_N; ++i) { a.push_back(i); a.push_back(i); a.pop_front(); if (!a.empty()) (void)a.back(); EVERY(i); } check(); break; }
         default: walk(a); start("copy, assignment and clear"); { ttl::lazy_queue<int> c(a); b = c; a.swap(b); b.clear(); } check(); break;
         }
   }
   template<class C> void vec(C &a, const char *)
   {
      for (int k = 0; k < 4; ++k)
         switch (s.below(6))
         {
         case 0: case 1: pushes_back(a); break;
         case 2: pops_back(a); break;
         case 3: { start("size, [], back, begin and end"); const C &c = a; long x = 0; for (int i = 0; i < LONG_N; ++i) { x += c.size() + (c.end() - c.begin()) + c.empty(); if (c.size()) x += c[i % c.size()] + c.back() + c.front(); EVERY(i); } check(); (void)x; break; }
         case 4: { start("insert of many at once, erase of many at once"); for (int i = 0; i < 3; ++i) { Ints v(a.size() < LONG_N ? 2000 : 1, i); a.insert(a.begin() + a.size() / 2, v.data(), v.data() + v.size()); a.erase(a.begin() + a.size() / 3, a.begin() + a.size() / 2); a.insert(a.begin(), (size_t)1000, 4); } check(); break; }
         default: walk(a); start("copy, assignment, ==, resize and clear"); { C *p = new C(a), &c = *p; (void)(c == a); c.resize(c.size() / 2); c.assign(a.begin(), a.end()); a = c; c.clear(); delete p; } check(); break;
         }
   }
   void tree()
   {
      ttl::map<int,int> m; ttl::set<int> t;
      const unsigned how = s.below(4);
      Lcg g(s);
      for (int k = 0; k < 5; ++k)
         switch (s.below(6))
         {
         case 0: case 1: case 2:
            start("insert into map and set"); for (int i = 0; i < LONG_N / 2; ++i) { const int x = how == 0 ? i : how == 1 ? -i : how == 2 ? (int)g.below(1 << 20) : (i & 1 ? i : -i); m[x] = i; t.insert(x); EVERY(i); } check(); break;
         case 3: { start("begin, end, --end, lookups"); long x = 0; for (int i = 0; i < LONG_N / 2; ++i) { x += m.empty() + (m.begin() == m.end()) + (t.begin() == t.end()) + m.count(i) + t.count(i) + (m.lower_bound(i) == m.end()) + (t.upper_bound(i) == t.end()); if (!m.empty()) { ttl::map<int,int>::iterator e = m.end(); --e; x += e->first; } EVERY(i); } check(); (void)x; break; }
         case 4: { start("erase from map and set"); Ints keys; for (ttl::map<int,int>::iterator i = m.begin(); i != m.end(); ++i) keys.push_back(i->first); check(); for (size_t i = 0; i < keys.size(); ++i) { const int x = how & 1 ? keys[i] : keys[keys.size() - 1 - i]; m.erase(x); t.erase(x); EVERY(i); } check(); break; }
         default: { start("traversals in both directions, copies, == and clear"); long x = 0; for (ttl::map<int,int>::iterator i = m.end(); i != m.begin(); ) { --i; x += i->first; } for (ttl::set<int>::iterator i = t.begin(); i != t.end(); ++i) x += *i; ttl::map<int,int> c(m); ttl::set<int> d; d = t; (void)(c == m); (void)(d == t); m = c; c.clear(); check(); (void)x; break; }
         }
   }
   void svmap()
   {
      ttl::sorted_vector_map<int,int> m((size_t)LONG_N + 10);
      start("insert at the end and lookups of sorted_vector_map");
      for (int i = 0; i < LONG_N; ++i) { m[i] = i; EVERY(i); }
      long x = 0;
      for (int i = 0; i < LONG_N; ++i) { x += m.count(i) + m.size() + m.empty() + m.find(i)->second + (m.lower_bound(i) == m.end()) + (m.upper_bound(i) == m.begin()); EVERY(i); }
      check(); (void)x;
   }
   void algos()
   {
      start("algorithms over long ranges");
      static int a[LONG_N], b[LONG_N], c[2 * LONG_N];
      Lcg g(s); const int few = 1 + (int)s.below(3);
      for (int i = 0; i < LONG_N; ++i) { a[i] = (int)g.below(few); b[i] = i / 7; }
      from = cpu();
      int *e = a + LONG_N; long x = 0;
      x += ttl::count(a, e, 1) + (ttl::find(a, e, 99) - a) + (ttl::max_element(a, e) - a) + ttl::accumulate(b, b + LONG_N, 0) + ttl::is_sorted(b, b + LONG_N) + (ttl::search_n(a, e, 300, 7) - a);
      ttl::reverse(a, e); ttl::copy(a, e, c); ttl::copy_backward(a, e, c + LONG_N); ttl::merge(b, b + LONG_N, b, b + LONG_N, c); x += ttl::remove(a, e, 1) - a; ttl::replace(a, e, 0, 5); ttl::swap_ranges(a, e, b); ttl::fill(a, e, 3); ttl::iota(b, b + LONG_N, 0);
      x += ttl::remove_if(b, b + LONG_N, [](int v) { return v % 3 != 0; }) - b;
      for (int i = 0; i < LONG_N; ++i) { x += ttl::lower_bound(a, e, i) - a; x += ttl::upper_bound(a, e, i) - a; x += ttl::binary_search(a, e, i); x += ttl::distance(a, e); int *q = a; ttl::advance(q, i); x += q - a; EVERY(i); }
      check(); (void)x;
   }
   void run()
   {
      switch (s.below(9))
      {
      case 0: list(); break;
      case 1: forward(); break;
      case 2: backward(); break;
      case 3: queue(); break;
      case 4: { ttl::vector<int> v; v.reserve(4 * LONG_N + 9000); vec(v, "vector"); break; }
      case 5: { typedef ttl::fixed_vector<int, 4 * LONG_N> C; C *v = new C; vec(*v, "fixed_vector"); delete v; break; }
      case 6: tree(); break;
      case 7: svmap(); break;
      default: algos(); break;
      }
      s.nontrivial();
      CNT("many operations with long containers");
   }
};
#endif
