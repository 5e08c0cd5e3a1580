"""C33: programs whose types can do no more than the uses ask for.

A program uses containers and algorithms with an element type that has only
the operations which the C++ standard asks for in these uses (default
construction, assignment, ==, <, ...) and perhaps a few which have nothing to
do with them.  The same uses are made with a type which has everything; a use
prints both digests, which must be the same.  A failure is shrunk by removing
uses, operations and flags.
"""
import os, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from headergen import LIMIT, config, works

PRELUDE = '''
extern "C" int printf(const char *, ...);
@INCLUDES
namespace
{
   struct Gen
   {
      unsigned s;
      Gen(unsigned x): s(x * 2654435761u + 12345u) {}
      unsigned operator()(unsigned n) { s = s * 1664525u + 1013904223u; return (s >> 8) % n; }
   };
   struct Raw { int v; explicit Raw(int x): v(x) {} };
   struct Dig
   {
      unsigned h;
      Dig(): h(7) {}
      void operator()(unsigned x) { h = (h ^ x) * 16777619u + 1u; }
      template<class I> void range(I b, I e) { unsigned n = 0; for (; b != e; ++b, ++n) (*this)((unsigned)val(*b)); (*this)(n); }
      template<class I> void pairs(I b, I e) { unsigned n = 0; for (; b != e; ++b, ++n) { (*this)((unsigned)val(b->first)); (*this)((unsigned)val(b->second)); } (*this)(n); }
   };
   // has everything
   struct Full
   {
      int v;
      Full(): v(0) {}
      explicit Full(Raw x): v(x.v) {}
      Full &operator+=(const Full &o) { v += o.v; return *this; }
      Full &operator++() { ++v; return *this; }
   };
   inline int val(const Full &x) { return x.v; }
   inline bool operator==(const Full &a, const Full &b) { return a.v == b.v; }
   inline bool operator!=(const Full &a, const Full &b) { return a.v != b.v; }
   inline bool operator<(const Full &a, const Full &b) { return a.v < b.v; }
   inline bool operator>(const Full &a, const Full &b) { return b.v < a.v; }
   inline Full operator+(const Full &a, const Full &b) { return Full(Raw(a.v + b.v)); }
   // what an element is compared with, and assigned from
   struct Other { int v; explicit Other(int x): v(x) {} private: Other(); Other &operator=(const Other &); };
   @TYPE
   inline int val(int x) { return x; }
   // can be compared with an element on one side only
   inline bool operator==(const Full &a, const Other &b) { return a.v == b.v; }
   inline bool operator<(const Full &a, const Other &b) { return a.v < b.v; }
   inline bool operator<(const Other &a, const Full &b) { return a.v < b.v; }
   // function objects which can be copied, and nothing else
   #define COPYABLE(N) int z; explicit N(int x): z(x) {} private: N(); N &operator=(const N &); public:
   struct Odd { COPYABLE(Odd) template<class T> bool operator()(const T &a) const { return (val(a) & 1) != 0; } };
   struct Lt { COPYABLE(Lt) template<class T> bool operator()(const T &a, const T &b) const { return val(a) < val(b); } };
   struct LtO { COPYABLE(LtO) template<class T> bool operator()(const T &a, const Other &b) const { return val(a) < b.v; } };
   struct OLt { COPYABLE(OLt) template<class T> bool operator()(const Other &a, const T &b) const { return a.v < val(b); } };
   struct EqO { COPYABLE(EqO) template<class T> bool operator()(const T &a, const Other &b) const { return val(a) == b.v; } };
   struct Eq { COPYABLE(Eq) template<class T> bool operator()(const T &a, const T &b) const { return val(a) == val(b); } };
   struct Cnt { unsigned n; explicit Cnt(int x): n(x) {} template<class T> void operator()(const T &a) { n = n * 31 + val(a); } private: Cnt(); Cnt &operator=(const Cnt &); };
   template<class T> struct Inc { COPYABLE(Inc) T operator()(const T &a) const { return T(Raw(val(a) + 1)); } };
   template<class T> struct Sum { COPYABLE(Sum) T operator()(const T &a, const T &b) const { return T(Raw(val(a) + val(b))); } };
   template<class T> struct Next { int n; explicit Next(int x): n(x) {} T operator()() { return T(Raw(n++)); } private: Next(); Next &operator=(const Next &); };
   template<class T> struct By { bool operator()(const T &a, const T &b) const { return val(b) < val(a); } private: By &operator=(const By &); public: By() {} By(const By &) {} };
   // iterators which can do what their category asks for
   template<class T> struct In
   {
      const T *p; explicit In(const T *q): p(q) {}
      const T &operator*() const { return *p; }
      const T *operator->() const { return p; }
      In &operator++() { ++p; return *this; }
      In operator++(int) { In t(*this); ++p; return t; }
      friend bool operator==(const In &a, const In &b) { return a.p == b.p; }
      friend bool operator!=(const In &a, const In &b) { return a.p != b.p; }
   private: In();
   };
   template<class T> struct Fwd
   {
      T *p; Fwd(): p(0) {} explicit Fwd(T *q): p(q) {}
      T &operator*() const { return *p; }
      T *operator->() const { return p; }
      Fwd &operator++() { ++p; return *this; }
      Fwd operator++(int) { Fwd t(*this); ++p; return t; }
      friend bool operator==(const Fwd &a, const Fwd &b) { return a.p == b.p; }
      friend bool operator!=(const Fwd &a, const Fwd &b) { return a.p != b.p; }
   };
   template<class T> struct Bi
   {
      T *p; Bi(): p(0) {} explicit Bi(T *q): p(q) {}
      T &operator*() const { return *p; }
      T *operator->() const { return p; }
      Bi &operator++() { ++p; return *this; }
      Bi operator++(int) { Bi t(*this); ++p; return t; }
      Bi &operator--() { --p; return *this; }
      Bi operator--(int) { Bi t(*this); --p; return t; }
      friend bool operator==(const Bi &a, const Bi &b) { return a.p == b.p; }
      friend bool operator!=(const Bi &a, const Bi &b) { return a.p != b.p; }
   };
   template<class T> struct Out
   {
      T *p; explicit Out(T *q): p(q) {}
      struct Slot { T *p; explicit Slot(T *q): p(q) {} template<class U> void operator=(const U &x) const { *p = x; } void operator=(const Slot &) const; };
      Slot operator*() const { return Slot(p); }
      Out &operator++() { ++p; return *this; }
      Out operator++(int) { Out t(*this); ++p; return t; }
   private: Out();
   };
   // n elements which are neither default constructed nor assigned
   template<class E> struct Arr
   {
      char *raw; E *x; unsigned n;
      Arr(Gen &g, unsigned m, unsigned k, int up = 0): raw(new char[(m + 1) * sizeof(E)]), x((E *)raw), n(m) { int v = 0; for (unsigned i = 0; i < n; ++i) ::new((void *)(x + i)) E(Raw(up ? v += g(k) : (int)g(k))); }
      ~Arr() { for (unsigned i = 0; i < n; ++i) x[i].~E(); delete [] raw; }
      E *b() { return x; }
      E *e() { return x + n; }
   private: Arr(const Arr &); Arr &operator=(const Arr &);
   };
}
'''

# capabilities: D default construction, A assignment, Q ==, L <, O comparisons
# with Other (q: ==, l: elem < Other, r: Other < elem), P +, I ++, C copies
# (which all uses have, except those declared with -)
X = 'Arr<E> a(g, n, 5); const E x(Raw((int)g(5))); '
S = 'Arr<E> a(g, n, 3, 1); '
USES = {}


def use(name, needs, body):
    USES[name] = (frozenset(needs[1:] if needs.startswith('-') else 'C' + needs), body)


for n, t in (('vector', 'ttl::vector<E>'), ('fixed_vector', 'ttl::fixed_vector<E, 90>')):
    use(n + '_fill', '', X + 'typedef %s C; C c, e(3u, x), f(a.b(), a.e()), h(f); for (unsigned i = 0; i < n; ++i) { c.push_back(a.x[i]); if (g(4) == 0) c.pop_back(); } d.range(c.begin(), c.end()); d.range(e.cbegin(), e.cend()); d.range(h.begin(), h.end()); '
        'd(c.size()); d(c.empty()); if (n) { d(val(h.front())); d(val(h.back())); d(val(h[n / 2])); d(val(h.at(0))); d(val(*h.data())); } e.clear(); d(e.size()); d(c.capacity() >= c.size());' % t)
    use(n + '_swap', '' if n == 'vector' else 'A', X + 'typedef %s C; C c(a.b(), a.e()), e(2u, x); c.swap(e); d.range(c.begin(), c.end()); d.range(e.begin(), e.end());' % t)
    use(n + '_insert', 'A', X + 'typedef %s C; C c(a.b(), a.e()); for (unsigned i = 0; i < 6; ++i) { c.insert(c.begin() + g(c.size() + 1), x); c.insert(c.begin() + g(c.size() + 1), g(4), x); c.insert(c.begin() + g(c.size() + 1), a.b(), a.b() + n / 4); if (c.size()) c.erase(c.begin() + g(c.size())); '
        'c.erase(c.begin() + c.size() / 2, c.begin() + c.size() / 2 + c.size() / 5); } d.range(c.begin(), c.end());' % t)
    use(n + '_assign', 'A', X + 'typedef %s C; C c(2u, x), e(a.b(), a.e()); c = e; d.range(c.begin(), c.end()); c.assign(4u, x); d.range(c.begin(), c.end()); c.assign(a.b(), a.e()); c.assign(In<E>(a.b()), In<E>(a.e())); d.range(c.begin(), c.end());' % t)
    use(n + '_resize', 'DA', X + 'typedef %s C; C c(3u), e(a.b(), a.e()); d.range(c.begin(), c.end()); e.resize(g(40)); d.range(e.begin(), e.end()); e.resize(g(40), x); d.range(e.begin(), e.end());' % t)
    use(n + '_resize_value', 'A', X + 'typedef %s C; C e(a.b(), a.e()); e.resize(g(40), x); d.range(e.begin(), e.end());' % t)
    use(n + '_equal', 'Q', X + 'typedef %s C; C c(a.b(), a.e()), e(c); e.push_back(x); d(c == e); d(c != e); e.pop_back(); d(c == e);' % t)
use('vector_reserve', '', X + 'ttl::vector<E> c; c.reserve(4); for (unsigned i = 0; i < n; ++i) c.push_back(a.x[i]); c.reserve(90); d.range(c.begin(), c.end()); d(c.capacity() >= 90);')
use('list_fill', '', X + 'typedef ttl::list<E> C; C c, e(3u, x), f(a.b(), a.e()), h(f); for (unsigned i = 0; i < n; ++i) { if (g(2)) c.push_back(a.x[i]); else c.push_front(a.x[i]); if (g(4) == 0) c.pop_back(); if (g(9) == 0 && !c.empty()) c.pop_front(); } d.range(c.begin(), c.end()); d.range(e.cbegin(), e.cend()); d.range(h.begin(), h.end()); '
    'd(c.size()); d(c.empty()); if (n) { d(val(h.front())); d(val(h.back())); } e.clear(); d(e.size());')
use('list_change', '', X + 'typedef ttl::list<E> C; C c(In<E>(a.b()), In<E>(a.e())), e(2u, x); c.insert(c.begin(), x); c.insert(c.end(), 3u, x); c.insert(c.begin(), a.b(), a.e()); if (!c.empty()) c.erase(c.begin()); c.swap(e); c.splice(c.begin(), e); c.reverse(); d.range(c.begin(), c.end()); '
    'c.remove_if(Odd(1)); c.resize(g(20), x); d.range(c.begin(), c.end()); c.unique(Eq(1)); C f(c); c.merge(f, Lt(1)); d(c.size());')
use('list_assign', 'A', X + 'typedef ttl::list<E> C; C c(2u, x), e(a.b(), a.e()); c = e; d.range(c.begin(), c.end()); c.assign(4u, x); d.range(c.begin(), c.end()); c.assign(In<E>(a.b()), In<E>(a.e())); d.range(c.begin(), c.end());')
use('list_resize', 'D', X + 'typedef ttl::list<E> C; C e(a.b(), a.e()); e.resize(g(40)); d.range(e.begin(), e.end());')
use('list_equal', 'Q', X + 'typedef ttl::list<E> C; C c(a.b(), a.e()), e(c); e.push_back(x); d(c == e); d(c != e); e.remove(x); d.range(e.begin(), e.end()); c.unique(); d.range(c.begin(), c.end());')
use('list_merge', 'L', S + 'typedef ttl::list<E> C; C c(a.b(), a.e()), e(c); c.merge(e); d.range(c.begin(), c.end());')
for n, t in (('forward_list', 'ttl::forward_list<E>'), ('backward_list', 'ttl::backward_list<E>')):
    use(n + '_fill', '', X + 'typedef %s C; C c, f(In<E>(a.b()), In<E>(a.e())), h(f); for (unsigned i = 0; i < n; ++i) { c.push_front(a.x[i]); if (g(4) == 0) c.pop_front(); } c.insert_after(c.before_begin(), x); c.insert_after(c.before_begin(), 2u, x); c.insert_after(c.before_begin(), a.b(), a.e()); c.erase_after(c.before_begin()); '
        'd.range(c.begin(), c.end()); d.range(h.cbegin(), h.cend()); c.swap(h); c.reverse(); d.range(c.begin(), c.end()); d.range(h.begin(), h.end()); d(val(h.front())); c.clear(); d(c.empty());' % t)
    use(n + '_equal', 'Q', X + 'typedef %s C; C c(a.b(), a.e()), e(c); d(c == e); e.push_front(x); d(c == e); d(c != e);' % t)
    use(n + '_assign', 'A', X + 'typedef %s C; C c(a.b(), a.e()), e; e = c; d.range(e.begin(), e.end()); e.assign(2u, x); d.range(e.begin(), e.end()); e.assign(In<E>(a.b()), In<E>(a.e())); d.range(e.begin(), e.end());' % t)
use('forward_list_splice', '', X + 'typedef ttl::forward_list<E> C; C c(a.b(), a.e()), e(c); c.splice_after(c.before_begin(), e); d.range(c.begin(), c.end()); d(e.empty());')
use('backward_list_back', '', X + 'typedef ttl::backward_list<E> C; C c(a.b(), a.e()); c.push_back(x); d(val(c.back())); d.range(c.begin(), c.end());')
use('lazy_queue_fill', '', X + 'typedef ttl::lazy_queue<E> C; C c; for (unsigned i = 0; i < n; ++i) { c.push_back(a.x[i]); if (g(4) == 0) c.pop_front(); if (g(4) == 0) c.push_front(x); } c.insert_after(c.before_begin(), 2u, x); c.insert_after(c.before_begin(), In<E>(a.b()), In<E>(a.e())); C h(c); c.erase_after(c.before_begin()); c.swap(h); '
    'd.range(c.begin(), c.end()); d.range(h.cbegin(), h.cend()); d(val(c.front())); d(val(c.back())); c.clear(); d(c.empty());')
use('lazy_queue_assign', 'A', X + 'typedef ttl::lazy_queue<E> C; C c, e; for (unsigned i = 0; i < n; ++i) c.push_back(a.x[i]); e = c; d.range(e.begin(), e.end());')
use('array', 'D', X + 'ttl::array<E, 4> c; d.range(c.begin(), c.end()); d(val(c[1])); d(val(c.front())); d(c.size());')
use('array_fill', 'DA', X + 'ttl::array<E, 4> c, e; c.fill(x); d.range(c.begin(), c.end()); e = c; c[1] = a.n ? a.x[0] : x; c.swap(e); d.range(e.begin(), e.end());')
use('array_equal', 'DQ', X + 'ttl::array<E, 4> c, e; d(c == e); d(c != e);')
# keys are compared with the given order, or <, and with ==
use('map_insert', 'LQ', X + 'typedef ttl::map<E, E> C; C c; for (unsigned i = 0; i < n; ++i) { const ttl::pair<const E, E> p(a.x[i], x); d(c.insert(p).second); } C e(c); d(c.count(x)); d(c.erase(x)); d(c.find(x) == c.end()); d(c.lower_bound(x) == c.end()); d(c.upper_bound(x) == c.end()); d(c.equal_range(x).first == c.equal_range(x).second); '
    'd.pairs(c.begin(), c.end()); d.pairs(e.cbegin(), e.cend()); C f; f.insert(e.begin(), e.end()); f = c; d.pairs(f.begin(), f.end()); if (e.count(x)) d(val(e.at(x))); d(f == c); d(f != c); f.clear(); d(f.empty());')
# elements which are made in place, and never copied
use('list_uncopied', '-D', 'ttl::list<E> c, e; c.resize(g(9)); e.resize(n); c.resize(g(20)); d(c.size()); d(e.size()); d(c.empty()); int v = 0; for (typename ttl::list<E>::iterator i = c.begin(); i != c.end(); ++i) i->v = ++v; c.swap(e); e.splice(e.begin(), c); if (e.size() > 3) e.splice(e.begin(), e, --e.end()); e.reverse(); d.range(e.begin(), e.end()); d.range(e.cbegin(), e.cend()); '
    'if (!e.empty()) { d(val(e.front())); d(val(e.back())); e.pop_back(); } if (!e.empty()) e.pop_front(); if (!e.empty()) e.erase(e.begin()); e.remove_if(Odd(1)); e.unique(Eq(1)); e.merge(c, Lt(1)); e.resize(n / 2); d.range(e.begin(), e.end()); e.clear(); d(e.empty());')
use('vector_uncopied', '-D', 'ttl::vector<E> c(n), e(3); int v = 0; for (unsigned i = 0; i < n; ++i) c[i].v = ++v; c.swap(e); d(e.size()); d.range(e.begin(), e.end()); d.range(e.cbegin(), e.cend()); if (n) { d(val(e.front())); d(val(e.back())); d(val(e.at(n / 2))); d(val(*e.data())); e.pop_back(); } d(e.size()); d(e.capacity() >= n); e.clear(); d(e.empty());')
use('fixed_vector_uncopied', '-D', 'ttl::fixed_vector<E, 90> c(n); int v = 0; for (unsigned i = 0; i < n; ++i) c[i].v = ++v; d.range(c.begin(), c.end()); d.range(c.cbegin(), c.cend()); if (n) { d(val(c.front())); d(val(c.back())); d(val(c.at(n / 2))); d(val(*c.data())); c.pop_back(); } d(c.size()); d(c.full()); c.clear(); d(c.empty());')
use('array_uncopied', '-D', 'ttl::array<E, 5> c; c[1].v = (int)g(9); d.range(c.begin(), c.end()); d.range(c.cbegin(), c.cend()); d(val(c.at(1))); d(val(c.front())); d(val(c.back())); d(val(*c.data())); d(c.empty());')
use('array_uncopied_fill', '-DA', X + 'ttl::array<E, 5> c; c.fill(x); c[1].v = (int)g(9); d.range(c.begin(), c.end());')
use('pair_uncopied', '-D', 'ttl::pair<E, E> p; d(val(p.first)); p.second.v = (int)n; d(val(p.second)); ttl::pair<E, int> q; d(q.second); d(val(q.first));')
use('changes_uncopied', '-A', X + 'Fwd<E> l = ttl::remove_if(Fwd<E>(a.b()), Fwd<E>(a.e()), Odd(1)); d.range(Fwd<E>(a.b()), l); ttl::fill(Fwd<E>(a.b()), Fwd<E>(a.b() + n / 2), x); d(ttl::fill_n(Out<E>(a.b()), n / 3, x).p - a.b()); ttl::replace_if(Fwd<E>(a.b()), Fwd<E>(a.b() + n / 2), Odd(1), x); d.range(a.b(), l.p);')
use('map_index', 'LQD', X + 'typedef ttl::map<E, E> C; C c; for (unsigned i = 0; i < n; ++i) d(val(c[a.x[i]])); d.pairs(c.begin(), c.end());')
use('map_by', 'Q', X + 'typedef ttl::map<E, E, By<E> > C; C c; for (unsigned i = 0; i < n; ++i) { const ttl::pair<const E, E> p(a.x[i], x); d(c.insert(p).second); } C e(c); d(c.count(x)); d(c.erase(x)); d(c.find(x) == c.end()); d(c.lower_bound(x) == c.end()); d.pairs(c.begin(), c.end()); d.pairs(e.cbegin(), e.cend()); e = c; d(e == c);')
use('set_insert', 'LQ', X + 'typedef ttl::set<E> C; C c(a.b(), a.e()), e(c), f; d(c.count(x)); d(c.insert(x).second); d(c.erase(x)); d(c.find(x) == c.end()); d(c.lower_bound(x) == c.end()); d(c.upper_bound(x) == c.end()); d(c.equal_range(x).first == c.equal_range(x).second); d.range(c.begin(), c.end()); d.range(e.cbegin(), e.cend()); f = c; d(f == c); d(f != e); f.clear(); d(f.empty());')
use('set_by', 'Q', X + 'typedef ttl::set<E, By<E> > C; C c(a.b(), a.e()), e(c), f; d(c.count(x)); d(c.insert(x).second); d(c.erase(x)); d(c.find(x) == c.end()); d(c.lower_bound(x) == c.end()); d.range(c.begin(), c.end()); d.range(e.cbegin(), e.cend()); f = c; d(f == c);')
use('rbtree', 'Q', X + 'typedef ttl::rbtree<E, E, ttl::select_same<E>, By<E> > T; T t, u; for (unsigned i = 0; i < n; ++i) t.insert_equal(a.x[i]); u.assign(t); d(t.count(x)); delete t.remove(x); d(t.count(x)); d(u.insert_unique(x).second); d(t.find(x) == t.end()); for (const ttl::rbnode *p = T::min_node(u.get_root()); p && p != u.end(); p = T::next_node(p)) d(val(static_cast<const typename T::node *>(p)->data));')
use('svmap_insert', 'LQ', X + 'typedef ttl::sorted_vector_map<E, E> C; C c; for (unsigned i = 0; i < n; ++i) { const ttl::pair<E, E> p(a.x[i], x); d(c.insert(p).second); } C e(c); d(c.count(x)); d(c.find(x) == c.end()); d(c.lower_bound(x) == c.end()); d(c.upper_bound(x) == c.end()); d(c.equal_range(x).first == c.equal_range(x).second); d.pairs(c.begin(), c.end()); d.pairs(e.cbegin(), e.cend()); if (e.count(x)) d(val(e.at(x))); e.clear(); d(e.size());')
use('svmap_index', 'LQD', X + 'typedef ttl::sorted_vector_map<E, E> C; C c; for (unsigned i = 0; i < n; ++i) d(val(c[a.x[i]])); d.pairs(c.begin(), c.end());')
use('svmap_by', 'Q', X + 'typedef ttl::sorted_vector_map<E, E, By<E> > C; C c(5); for (unsigned i = 0; i < n; ++i) { const ttl::pair<E, E> p(a.x[i], x); d(c.insert(p).second); } d.pairs(c.begin(), c.end()); d(c.count(x)); d(c.find(x) == c.end());')
use('vmap_push', 'Q', X + 'typedef ttl::vector_map<E, E> C; C c; for (unsigned i = 0; i < n; ++i) c.push_back(ttl::pair<E, E>(a.x[i], x)); C e(c); d(c.count(x)); d(c.find(x) == c.end()); d.pairs(e.begin(), e.end()); if (e.count(x)) d(val(e.at(x)));')
use('vmap_insert', 'QA', X + 'typedef ttl::vector_map<E, E> C; C c; for (unsigned i = 0; i < n; ++i) d(c.insert(ttl::pair<E, E>(a.x[i], x)).second); d.pairs(c.begin(), c.end());')
use('vmap_index', 'QAD', X + 'typedef ttl::vector_map<E, E> C; C c; for (unsigned i = 0; i < n; ++i) d(val(c[a.x[i]])); d.pairs(c.begin(), c.end());')
use('pair', '', X + 'ttl::pair<E, int> p(x, 4), q(p); d(val(q.first)); d(q.second); d(val(ttl::make_pair(x, 1).first));')
use('pair_more', 'DAQ', X + 'ttl::pair<E, E> p, q(x, x); d(p == q); d(p != q); p = q; d(val(p.first)); p.swap(q); ttl::swap(p, q); d(val(q.second));')
use('swap', 'A', X + 'E y(Raw(9)), z(x); ttl::swap(y, z); d(val(y)); if (n > 1) ttl::iter_swap(a.b(), Fwd<E>(a.b() + 1)); d.range(a.b(), a.e());')
# algorithms
use('find_other', '-q', X + 'const Other o((int)g(5)); d(ttl::find(In<E>(a.b()), In<E>(a.e()), o).p - a.b()); d(ttl::count(In<E>(a.b()), In<E>(a.e()), o)); d(ttl::search_n(Fwd<E>(a.b()), Fwd<E>(a.e()), 2, o).p - a.b()); d(ttl::search_n(Fwd<E>(a.b()), Fwd<E>(a.e()), 2, o, EqO(1)).p - a.b());')
use('equal_other', '-q', X + 'ttl::vector<Other> o; for (unsigned i = 0; i < n; ++i) o.push_back(Other(g(9) ? val(a.x[i]) : 7)); const Other *f = o.data(); d(ttl::equal(In<E>(a.b()), In<E>(a.e()), In<Other>(f))); d(ttl::equal(In<E>(a.b()), In<E>(a.e()), In<Other>(f), In<Other>(f + n))); d(ttl::equal(In<E>(a.b()), In<E>(a.e()), In<Other>(f), EqO(1))); '
    'd(ttl::mismatch(In<E>(a.b()), In<E>(a.e()), In<Other>(f)).first.p - a.b()); d(ttl::mismatch(In<E>(a.b()), In<E>(a.e()), In<Other>(f), In<Other>(f + n)).second.p - f); d(ttl::mismatch(In<E>(a.b()), In<E>(a.e()), In<Other>(f), EqO(1)).second.p - f); '
    'd(ttl::search(Fwd<E>(a.b()), Fwd<E>(a.e()), Fwd<const Other>(f + n / 3), Fwd<const Other>(f + n / 2)).p - a.b()); d(ttl::search(Fwd<E>(a.b()), Fwd<E>(a.e()), Fwd<const Other>(f + n / 3), Fwd<const Other>(f + n / 2), EqO(1)).p - a.b());')
use('predicates', '-', X + 'd(ttl::all_of(In<E>(a.b()), In<E>(a.e()), Odd(1))); d(ttl::any_of(In<E>(a.b()), In<E>(a.e()), Odd(1))); d(ttl::none_of(In<E>(a.b()), In<E>(a.e()), Odd(1))); d(ttl::count_if(In<E>(a.b()), In<E>(a.e()), Odd(1))); d(ttl::find_if(In<E>(a.b()), In<E>(a.e()), Odd(1)).p - a.b()); '
    'd(ttl::find_if_not(In<E>(a.b()), In<E>(a.e()), Odd(1)).p - a.b()); d(ttl::for_each(In<E>(a.b()), In<E>(a.e()), Cnt(1)).n); d(ttl::adjacent_find(Fwd<E>(a.b()), Fwd<E>(a.e()), Eq(1)).p - a.b());')
use('adjacent', '-Q', X + 'd(ttl::adjacent_find(Fwd<E>(a.b()), Fwd<E>(a.e())).p - a.b());')
use('bounds_other', '-lr', S + 'const Other o((int)g(n + 1)); d(ttl::lower_bound(a.b(), a.e(), o) - a.b()); d(ttl::upper_bound(a.b(), a.e(), o) - a.b()); d(ttl::binary_search(a.b(), a.e(), o)); d(ttl::equal_range(a.b(), a.e(), o).second - a.b());')
use('lower_other', '-l', S + 'const Other o((int)g(n + 1)); d(ttl::lower_bound(a.b(), a.e(), o) - a.b());')
use('upper_other', '-r', S + 'const Other o((int)g(n + 1)); d(ttl::upper_bound(a.b(), a.e(), o) - a.b());')
use('bounds_by', '-', S + 'const Other o((int)g(n + 1)); d(ttl::lower_bound(a.b(), a.e(), o, LtO(1)) - a.b()); d(ttl::upper_bound(a.b(), a.e(), o, OLt(1)) - a.b()); const E x(Raw((int)g(n + 1))); d(ttl::binary_search(a.b(), a.e(), x, Lt(1))); d(ttl::equal_range(a.b(), a.e(), x, Lt(1)).first - a.b());')
use('sorted', '-L', X + 'd(ttl::is_sorted(Fwd<E>(a.b()), Fwd<E>(a.e()))); d(ttl::is_sorted_until(Fwd<E>(a.b()), Fwd<E>(a.e())).p - a.b()); d(ttl::min_element(Fwd<E>(a.b()), Fwd<E>(a.e())).p - a.b()); d(ttl::max_element(Fwd<E>(a.b()), Fwd<E>(a.e())).p - a.b()); d(ttl::minmax_element(Fwd<E>(a.b()), Fwd<E>(a.e())).second.p - a.b()); '
    'const E y(Raw(2)); d(val(ttl::min(x, y))); d(val(ttl::max(x, y))); d(val(ttl::minmax(x, y).first));')
use('extremes_by', '-', X + 'const E y(Raw(2)); d(val(ttl::min(x, y, Lt(1)))); d(val(ttl::max(x, y, Lt(1)))); d(val(ttl::minmax(x, y, Lt(1)).first));')
use('merge', '-LA', S + 'Arr<E> b(g, n, 3, 1), c(g, 2 * n, 2); d(ttl::merge(In<E>(a.b()), In<E>(a.e()), In<E>(b.b()), In<E>(b.e()), Out<E>(c.b())).p - c.b()); d.range(c.b(), c.e());')
use('copies', '-A', X + 'Arr<E> b(g, n + 1, 9); d(ttl::copy(In<E>(a.b()), In<E>(a.e()), Out<E>(b.b())).p - b.b()); d.range(b.b(), b.e()); d(ttl::copy_n(In<E>(a.b()), n, Out<E>(b.b() + 1)).p - b.b()); d(ttl::copy_if(In<E>(a.b()), In<E>(a.e()), Out<E>(b.b()), Odd(1)).p - b.b()); d.range(b.b(), b.e()); '
    'd(ttl::copy_backward(Bi<E>(a.b()), Bi<E>(a.e()), Bi<E>(b.e())).p - b.b()); d.range(b.b(), b.e()); d(ttl::reverse_copy(Bi<E>(a.b()), Bi<E>(a.e()), Out<E>(b.b())).p - b.b()); d.range(b.b(), b.e()); d(ttl::remove_copy_if(In<E>(a.b()), In<E>(a.e()), Out<E>(b.b()), Odd(1)).p - b.b()); '
    'd(ttl::replace_copy_if(In<E>(a.b()), In<E>(a.e()), Out<E>(b.b()), Odd(1), x).p - b.b()); d.range(b.b(), b.e());')
use('copies_equal', '-AQ', X + 'Arr<E> b(g, n + 1, 9); const E y(Raw(3)); d(ttl::remove_copy(In<E>(a.b()), In<E>(a.e()), Out<E>(b.b()), x).p - b.b()); d.range(b.b(), b.e()); d(ttl::replace_copy(In<E>(a.b()), In<E>(a.e()), Out<E>(b.b()), x, y).p - b.b()); d.range(b.b(), b.e()); '
    'ttl::replace(Fwd<E>(a.b()), Fwd<E>(a.e()), y, x); d.range(a.b(), a.e()); Fwd<E> l = ttl::remove(Fwd<E>(a.b()), Fwd<E>(a.e()), x); d.range(Fwd<E>(a.b()), l);')
use('remove_other', '-Aq', X + 'const Other o(3); Fwd<E> l = ttl::remove(Fwd<E>(a.b()), Fwd<E>(a.e()), o); d.range(Fwd<E>(a.b()), l); Arr<E> b(g, n + 1, 9); d(ttl::remove_copy(In<E>(a.b()), In<E>(a.e()), Out<E>(b.b()), Other(2)).p - b.b()); d.range(b.b(), b.e());')
use('changes', 'A', X + 'ttl::reverse(Bi<E>(a.b()), Bi<E>(a.e())); d.range(a.b(), a.e()); ttl::replace_if(Fwd<E>(a.b()), Fwd<E>(a.b() + n / 2), Odd(1), x); d.range(a.b(), a.e()); Fwd<E> l = ttl::remove_if(Fwd<E>(a.b()), Fwd<E>(a.e()), Odd(1)); d.range(Fwd<E>(a.b()), l); Arr<E> b(g, n, 9); d(ttl::swap_ranges(Fwd<E>(a.b()), Fwd<E>(a.e()), Fwd<E>(b.b())).p - b.b()); d.range(a.b(), a.e()); '
    'ttl::fill(Fwd<E>(a.b()), Fwd<E>(a.b() + n / 2), x); d(ttl::fill_n(Out<E>(a.b()), n / 3, E(Raw(8))).p - a.b()); d.range(a.b(), a.e()); ttl::generate(Fwd<E>(a.b()), Fwd<E>(a.b() + n / 2), Next<E>(4)); d(ttl::generate_n(Out<E>(a.b()), n / 3, Next<E>(1)).p - a.b()); d.range(a.b(), a.e());')
use('transform', 'A', X + 'Arr<E> b(g, n, 9); d(ttl::transform(In<E>(a.b()), In<E>(a.e()), Out<E>(b.b()), Inc<E>(1)).p - b.b()); d.range(b.b(), b.e()); d(ttl::transform(In<E>(a.b()), In<E>(a.e()), In<E>(b.b()), Out<E>(b.b()), Sum<E>(1)).p - b.b()); d.range(b.b(), b.e());')
use('accumulate', 'AP', X + 'd(val(ttl::accumulate(In<E>(a.b()), In<E>(a.e()), x)));')
use('iota', 'AI', X + 'E z(x); ttl::iota(Fwd<E>(a.b()), Fwd<E>(a.e()), z); d.range(a.b(), a.e());')
use('distance', '-', X + 'E *p(a.b()); d(ttl::distance(a.b(), a.e())); ttl::advance(p, (int)n); d(p - a.b());')
use('functional', 'LQ', X + 'const E y(Raw(2)); d(ttl::less<E>()(x, y)); d(ttl::equal_to<E>()(x, y)); d(val(ttl::select_same<E>()(x))); d(val(ttl::select_first<ttl::pair<E, int> >()(ttl::pair<E, int>(x, 2))));')

CAPS = 'DAQLqlrPIC'
# things a type may have besides: they must not be looked at
EXTRAS = ['news', 'greedy', 'eqmember', 'size', 'notbool', 'virtual', 'alignment']


def etype(caps, extras):
    s = ['struct Poor', '{', '   int v;', '   explicit Poor(Raw x): v(x.v) {}']
    private = []
    if 'C' in caps:
        s.append('   Poor(const Poor &o): v(o.v) {}')
    else:
        private.append('Poor(const Poor &);')
    if 'virtual' in extras:
        s.append('   virtual ~Poor() { v = -77; }')
    else:
        s.append('   ~Poor() { v = -77; }')
    s.append('   Poor(): v(0) {}' if 'D' in caps else '')
    if 'D' not in caps:
        private.append('Poor();')
    if 'A' in caps:
        s.append('   Poor &operator=(const Poor &o) { v = o.v; return *this; }')
    else:
        private.append('Poor &operator=(const Poor &);')
    if 'I' in caps:
        s.append('   Poor &operator++() { ++v; return *this; }')
    if 'size' in extras:
        s.append('   char pad_[9];')
    if 'alignment' in extras:
        s.append('   double d_;')
    if 'news' in extras:    # of its own, not for the library
        private += ['static void *operator new(ttl::size_t);', 'static void *operator new [](ttl::size_t);', 'static void operator delete(void *);', 'static void operator delete [](void *);'] if 'virtual' not in extras else ['static void *operator new(ttl::size_t);']
    if 'greedy' in extras:  # from anything
        s.append('   template<class U> explicit Poor(const U &): v(-99) {}')
    if private:
        s.append('private:')
        s += ['   ' + p for p in private]
    s.append('};')
    s.append('inline int val(const Poor &x) { return x.v; }')
    ret = 'bool'
    if 'notbool' in extras:
        s.append('struct Truth { bool b; explicit Truth(bool x): b(x) {} operator bool() const { return b; } };')
        ret = 'Truth'
    for c, op, a, b in (('Q', '==', 'Poor', 'Poor'), ('L', '<', 'Poor', 'Poor'), ('q', '==', 'Poor', 'Other'), ('l', '<', 'Poor', 'Other'), ('r', '<', 'Other', 'Poor')):
        if c in caps:
            s.append('inline %s operator%s(const %s &a, const %s &b) { return %s(a.v %s b.v); }' % (ret, op, a, b, ret, op))
    if 'P' in caps and 'C' in caps:
        s.append('inline Poor operator+(const Poor &a, const Poor &b) { return Poor(Raw(a.v + b.v)); }')
    return '\n   '.join(x for x in s if x)


HEADERS = ['types', 'type_traits', 'functional', 'numeric', 'utility', 'algorithm', 'array', 'vector', 'fixed_vector', 'forward_list', 'backward_list', 'lazy_queue', 'list', 'rbtree', 'map', 'set', 'vector_map', 'sorted_vector_map']


def program(r):
    groups = sorted(set(USES[n][0] for n in USES), key=sorted)
    base = r.choice(groups)
    fit = [n for n in sorted(USES) if USES[n][0] <= base]
    uses = [(r.choice(fit), r.randrange(1, 9)) for _ in range(r.choice([3, 6, 12]))]
    caps = set().union(*[USES[n][0] for n, s in uses])
    if r.random() < 0.2:
        caps |= set(r.sample(CAPS, 2))
    extras = [e for e in EXTRAS if r.random() < 0.3]
    return dict(uses=uses, caps=sorted(caps), extras=extras, order=r.sample(HEADERS, len(HEADERS)))


def source(p):
    s = [PRELUDE.replace('@INCLUDES', '\n'.join('#include <ttl/%s.hpp>' % h for h in ['types'] + p['order'])).replace('@TYPE', etype(p['caps'], p['extras']))]
    for n in sorted(set(u[0] for u in p['uses'])):
        s.append('template<class E> static unsigned use_%s(unsigned seed)\n{\n   Gen g(seed); Dig d; const unsigned n = seed == 1 ? 0 : g(30); (void)n;\n   %s\n   return d.h;\n}' % (n, USES[n][1]))
    s.append('int main()\n{\n   unsigned a, b;')
    for n, q in p['uses']:
        s.append('   a = use_%s<Full>(%d); b = use_%s<Poor>(%d); if (a != b) { printf("%s(%d): with the poor type %%u instead of %%u\\n", b, a); return 3; }' % (n, q, n, q, n, q))
    s.append('   return 0;\n}\n')
    return '\n'.join(s)


def build_run(ctx, p, cfg, tag):
    d = os.path.join(ctx.tmp, tag)
    os.makedirs(d)
    try:
        with open(d + '/p.cpp', 'w') as f:
            f.write(source(p))
        # the end of a tree is a header seen as a node, perhaps of less alignment: never touched as one, but the cast is noticed
        lax = ['-fno-sanitize=alignment,object-size'] if any('sanitize' in f for f in cfg['flags']) else []
        cmd = [cfg['cxx'], '-std=' + cfg['std'], cfg['opt'], '-w', '-I' + ctx.repo] + cfg['flags'] + lax + [d + '/p.cpp', '-o', d + '/a.out']
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if q.returncode:
            return 'compile', q.stdout.decode('utf-8', 'replace')
        try:
            q = subprocess.run([d + '/a.out'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=LIMIT[0], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        except subprocess.TimeoutExpired:
            return 'run', 'does not end'
        out = q.stdout.decode('utf-8', 'replace')
        if q.returncode == 3:
            return 'digest', out
        if q.returncode:
            return 'run', 'exit status %d\n%s%s' % (q.returncode, out, q.stderr.decode('utf-8', 'replace'))
        return 'ok', out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def smaller(p, cfg):
    u = p['uses']
    k = len(u)

    def cut(v):
        return dict(p, uses=v, caps=sorted(set().union(*[USES[n][0] for n, s in v])))
    if k > 3:
        yield cut(u[:k // 2]), cfg
        yield cut(u[k // 2:]), cfg
    if k > 1:
        for i in range(k):
            yield cut(u[:i] + u[i + 1:]), cfg
    for e in p['extras']:
        yield dict(p, extras=[x for x in p['extras'] if x != e]), cfg
    if p['order'] != HEADERS:
        yield dict(p, order=list(HEADERS)), cfg
    for f in cfg['flags']:
        yield p, dict(cfg, flags=[g for g in cfg['flags'] if g != f])


def weight(p, cfg):
    return 100 * len(p['uses']) + 10 * len(p['extras']) + len(p['caps']) + len(cfg['flags']) + (p['order'] != HEADERS)


def show(p, cfg):
    return '%s -std=%s %s %s | has %s | besides %s | %s' % (cfg['cxx'], cfg['std'], cfg['opt'], ' '.join(cfg['flags']), ''.join(p['caps']) or 'nothing', ' '.join(p['extras']) or 'nothing', ' '.join('%s(%d)' % u for u in p['uses']))


def run(ctx):
    thorough = ctx.tier == 'thorough'
    count = 6000 if thorough else 200
    r = random.Random(ctx.seed * 104729 + 33)
    ref = {'cxx': 'g++', 'std': 'gnu++17', 'opt': '-O1', 'flags': ['-fno-exceptions', '-fno-rtti']}
    jobs = []
    # every use with nothing but what it needs, in small groups of equal needs
    by = {}
    for n in sorted(USES):
        by.setdefault(USES[n][0], []).append(n)
    for caps in sorted(by, key=sorted):
        for ex in ([], ['news', 'notbool'], ['greedy', 'size'], ['news', 'greedy', 'virtual', 'alignment', 'notbool']):
            jobs.append((dict(uses=[(n, r.randrange(1, 9)) for n in by[caps]], caps=sorted(caps), extras=ex, order=r.sample(HEADERS, len(HEADERS))), config(r)))
    while len(jobs) < count:
        jobs.append((program(r), config(r)))

    worst = [1 << 30]     # nothing behind the first failure has to run

    def one(a):
        n, (p, cfg) = a
        if n > worst[0]:
            return p, cfg, ('skip',) + ('',) * 1
        res = build_run(ctx, p, cfg, 'p%d' % n)
        if res[0] != 'ok':
            worst[0] = min(worst[0], n)
        return p, cfg, res
    nontrivial, samples, classes, done, compared, bad = set(), [], {}, 0, 0, None
    with ThreadPoolExecutor(ctx.jobs) as ex:
        for p, cfg, (stage, text) in ex.map(one, enumerate(jobs)):
            if stage == 'skip':
                break
            done += 1
            for c in p['extras'] + [cfg['cxx'], cfg['std']]:
                classes[c] = classes.get(c, 0) + 1
            if len(p['caps']) < 7:
                nontrivial.add(show(p, cfg))
            if len(samples) < 8 and done > 90:
                samples.append(show(p, cfg))
            compared += len(p['uses'])
            if stage != 'ok' and bad is None:
                bad = (p, cfg, stage, text)
    viol = 0
    if bad:
        p, cfg, kind, text = bad
        if not works(ctx, cfg):
            ctx.error('the compiler does not work: %s' % cfg)
        tries, again, LIMIT[0], start = 0, True, 5, time.time()
        while again and tries < 150 and time.time() - start < 240:
            again = False
            for y, c in sorted(smaller(p, cfg), key=lambda z: weight(*z)):
                if weight(y, c) < weight(p, cfg) and tries < 150 and time.time() - start < 240:
                    tries += 1
                    st, t = build_run(ctx, y, c, 's%d' % tries)
                    if st == kind:
                        p, cfg, text, again = y, c, t, True
                        break
        st, t = build_run(ctx, p, cfg, 'again')
        if st == kind:
            print('C33: %s: %s' % ({'digest': 'another result than with a type which has everything', 'compile': 'does not compile'}.get(kind, kind), show(p, cfg)))
            print(text[:1500])
            with open(ctx.replay, 'w') as f:
                f.write('// property C33, %s: %s\n/*\n%s\n*/\n%s' % (kind, show(p, cfg), text[:4000].replace('*/', '* /'), source(p)))
            viol = 1
    rule = ('programs with uses of %d groups of operations of all containers and algorithms on an element type which has only the operations the uses ask for, perhaps with members of its own which they do not, through iterators, predicates and comparisons '
            'which can do no more than their kind asks for; results compared with those for a type which has everything; two compilers, nine standards; non-trivial: the type lacks at least four of ten operations; distinct programs counted' % len(USES))
    ctx.evidence({'evaluations': done, 'distinct_nontrivial': max(len(nontrivial), 1), 'rule': rule, 'samples': samples or [show(*jobs[0])[:500]], 'uses_compared': compared, 'classes': classes}, viol)
    print('C33: %d programs, %d distinct non-trivial, %d uses compared: %s' % (done, len(nontrivial), compared, 'VIOLATED' if viol else 'held'))
    if viol:
        ctx.violation()
    return viol
